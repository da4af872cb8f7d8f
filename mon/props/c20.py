import contextlib
import hmac
from base64 import b64decode, b64encode
import hashlib

import bitcoinx.aes as lib_aes
import taps
from bitcoinx import DecryptionError, PrivateKey
from engine import workload
from ref import aes, ec

PROP, LEVEL = 'C20', 'exploration'
FILES = ['keys.py', 'aes.py']
RULE = ('messages of 0 to 130 and to 5000 bytes and text, several magics, both AES backends and both text and '
        'binary forms; ciphertexts made by an independent ECIES and vice versa; every kind of '
        'alteration: each byte, truncations, extensions, swapped parts, other keys and magics, '
        'well-authenticated ciphertexts with bad padding or length. Oracle: independent secp256k1, AES, '
        'HMAC; ephemeral keys recorded. Distinct by ciphertext.')
REQUIRE = {'round trips': 600, 'decrypted independently': 300, 'made independently': 300,
           'refused': 8000, 'authenticated but malformed': 150, 'ephemeral keys': 600,
           'byte positions altered': 200}
MAGICS = [b'BIE1', b'BIE1', b'', b'Z', b'phishing', b'BIE1BIE1', bytes(4)]


@contextlib.contextmanager
def backend(name):
    saved = lib_aes.AES
    try:
        if name == 'pyaes':
            lib_aes.AES = None
        yield
    finally:
        lib_aes.AES = saved


def keys_of(secret, point):
    '''iv, encryption and authentication key.'''
    h = hashlib.sha512(ec.ser(ec.mul(point, secret))).digest()
    return h[:16], h[16:32], h[32:]


def mac(key, data):
    return taps.real_hmac_digest(key, data, 'sha256')


def seal(magic, ephemeral, point, plain, padded=None):
    iv, ke, km = keys_of(ephemeral, point)
    body = aes.cbc_encrypt(ke, iv, aes.pad(plain) if padded is None else padded)
    data = magic + ec.ser(ec.mul_g(ephemeral)) + body
    return data + mac(km, data)


def unseal(magic, secret, data):
    if len(data) < len(magic) + 81 or not data.startswith(magic):
        return None
    point = ec.parse(data[len(magic):len(magic) + 33])
    if point is None:
        return None
    iv, ke, km = keys_of(secret, point)
    body = data[len(magic) + 33:-32]
    if len(body) % 16 or mac(km, data[:-32]) != data[-32:]:
        return None
    return aes.unpad(aes.cbc_decrypt(ke, iv, body))


def rand_plain(rng):
    kind = rng.randrange(4)
    if kind == 0:
        return ''.join(chr(rng.choice([rng.randrange(32, 127), 0xe9, 0x4e2d, 0x1f600, 0, 10]))
                       for _ in range(rng.randrange(40)))
    if kind == 1:
        n = rng.randrange(1, 17)      # looks like padding
        return rng.randbytes(rng.randrange(20)) + bytes([n]) * n
    return rng.randbytes(rng.choice([0, 1, 15, 16, 17, 31, 32, 33, rng.randrange(130)]))


def refused(ctx, rng, priv, data, magic, *why):
    if data is not None:
        for form in (data, b64encode(data).decode()):
            ctx.n('refused')
            if magic == b'BIE1' and rng.random() < .5:
                ctx.raises(DecryptionError, 'accepted ' + ' '.join(why), priv.decrypt_message, form)
            else:
                ctx.raises(DecryptionError, 'accepted ' + ' '.join(why), priv.decrypt_message, form,
                           magic)


@workload(700, 43000)
def round_trip(ctx, rng, i):
    k = ec.EDGE_SCALARS[i] if i < len(ec.EDGE_SCALARS) else ec.rand_scalar(rng)
    priv = PrivateKey(k.to_bytes(32, 'big'), rng.random() < .5)
    pub = priv.public_key if rng.random() < .5 else priv.public_key.complement()
    message = rand_plain(rng)
    plain = message.encode() if isinstance(message, str) else message
    magic = rng.choice(MAGICS)
    args = () if magic == b'BIE1' else (magic, )
    seen = set()
    for enc in ('native', 'pyaes'):
        with backend(enc):
            binary = pub.encrypt_message(message, *args)
            text = pub.encrypt_message_to_base64(message, *args)
        ctx.ok(type(binary) is bytes and type(text) is str, 'type of the ciphertext')
        for data in (binary, b64decode(text, validate=True)):
            ctx.case(data)
            n = len(magic)
            ctx.eq(len(data), n + 33 + len(plain) // 16 * 16 + 16 + 32, 'length', data.hex())
            ctx.eq(unseal(magic, k, data), plain, 'independent decryption', data.hex(), hex(k))
            ctx.n('decrypted independently')
            ephemeral = data[n:n + 33]
            ctx.ok(ephemeral not in seen, 'ephemeral key used twice', ephemeral.hex())
            seen.add(ephemeral)
            ctx.seen('ephemeral keys', ephemeral)
            for dec in ('native', 'pyaes'):
                with backend(dec):
                    ctx.n('round trips')
                    got = priv.decrypt_message(data, *args)
                    ctx.eq(got, plain, 'decryption', data.hex())
                    ctx.ok(type(got) is bytes, 'type of the plaintext')
                    ctx.eq(priv.decrypt_message(b64encode(data).decode(), *args), plain, 'text')
        ctx.eq(priv.decrypt_message(text, *args), plain, 'text decryption')
    ctx.sample(key=hex(k), plain=plain, ciphertext=binary.hex())
    # Text that is not encodable in UTF-8 cannot be encrypted, or comes back as it was
    bad = 'a' * rng.randrange(20) + chr(rng.randrange(0xd800, 0xe000)) + 'b'
    try:
        data = pub.encrypt_message(bad)
    except ValueError:
        ctx.n('texts with no encoding')
    else:
        ctx.eq(priv.decrypt_message(data).decode('utf-8', 'surrogatepass'), bad, 'text with no encoding')


@workload(600, 36000)
def independent(ctx, rng, i):
    '''Ciphertexts not made by the library, good, altered, and authenticated but malformed.'''
    k, e = ec.rand_scalar(rng), ec.rand_scalar(rng)
    priv = PrivateKey(k.to_bytes(32, 'big'), rng.random() < .5)
    point = ec.mul_g(k)
    magic = rng.choice(MAGICS)
    message = rand_plain(rng)
    plain = message.encode() if isinstance(message, str) else message
    data = seal(magic, e, point, plain)
    ctx.n('made independently')
    ctx.case(data)
    dec = rng.choice(['native', 'pyaes'])
    with backend(dec):
        ctx.eq(priv.decrypt_message(data, magic), plain, 'decryption', data.hex())
        ctx.eq(priv.decrypt_message(b64encode(data).decode(), magic), plain, 'text', data.hex())
        # padding
        size = len(plain) // 16 * 16 + 16
        for padded in (plain + bytes(size - len(plain)), rng.randbytes(size),
                       rng.randbytes(size - 1) + bytes([rng.randrange(17, 256)]),
                       rng.randbytes(size - 1) + b'\0', rng.randbytes(size - 2) + b'\1\2',
                       bytes([15]) * 16, bytes([16]) * 15 + bytes([15]), bytes([17]) * 32):
            bad = seal(magic, e, point, b'', padded)
            want = aes.unpad(padded)
            if want is None:
                ctx.n('authenticated but malformed')
                refused(ctx, rng, priv, bad, magic, 'bad padding')
            else:
                ctx.eq(priv.decrypt_message(bad, magic), want, 'padding', padded.hex())
        # the ciphertext is no whole number of blocks, or there is none
        iv, ke, km = keys_of(e, point)
        for body in (b'', data[len(magic) + 33:-32] + b'\0', rng.randbytes(rng.randrange(1, 16)),
                     data[len(magic) + 33:-33], rng.randbytes(17)):
            head = magic + ec.ser(ec.mul_g(e)) + body
            ctx.n('authenticated but malformed')
            refused(ctx, rng, priv, head + mac(km, head), magic, 'ciphertext of wrong length')
        # authenticated with a wrong key, or in another way
        head = data[:-32]
        for tag in (mac(ke, head), mac(km, head[len(magic):]) if magic else bytes(32),
                    mac(km, head[len(magic) + 33:]), hmac.digest(km, head + b'\0', 'sha256'),
                    hashlib.sha256(head).digest(), taps.real_hmac_digest(km, head, 'sha512')[:32],
                    mac(km, head)[:31] + bytes([data[-1] ^ 0x80]),
                    bytes([data[-32] ^ 1]) + mac(km, head)[1:]):
            refused(ctx, rng, priv, head + tag, magic, 'wrong tag')


@workload(200, 11000)
def altered(ctx, rng, i):
    k = ec.rand_scalar(rng)
    priv = PrivateKey(k.to_bytes(32, 'big'))
    magic = b'BIE1' if rng.random() < .6 else rng.choice(MAGICS)
    message = rand_plain(rng)
    data = priv.public_key.encrypt_message(message, magic)
    with backend(rng.choice(['native', 'pyaes'])):
        positions = set(rng.sample(range(len(data)), 10)) | {0, len(data) - 1, len(data) - 32,
                                                             len(data) - 33, len(magic),
                                                             len(magic) + 33} | {i % len(data)}
        for p in positions:
            ctx.seen('byte positions altered', (p, len(data)))
            bad = data[:p] + bytes([data[p] ^ 1 << rng.randrange(8)]) + data[p + 1:]
            if bad.startswith(magic):
                ctx.case(bad)
            refused(ctx, rng, priv, bad, magic, 'altered byte')
        for n in [rng.randrange(len(data)) for _ in range(6)] + [0, 1, 16, 32, 84, 85, len(data) - 1,
                                                                len(data) - 16, len(data) - 32]:
            refused(ctx, rng, priv, data[:n] if n < len(data) else None, magic, 'truncated')
        refused(ctx, rng, priv, data[1:], magic, 'shortened')
        for extra in (b'\0', bytes(16), data[-32:], rng.randbytes(rng.randrange(1, 40))):
            refused(ctx, rng, priv, data + extra, magic, 'extended')
            refused(ctx, rng, priv, data[:-32] + extra + data[-32:], magic, 'extended inside')
        for w in (ec.rand_scalar(rng), ec.N - k, k + 1, k * 2):
            if w % ec.N not in (0, k):
                refused(ctx, rng, PrivateKey((w % ec.N).to_bytes(32, 'big')), data, magic,
                        'another key')
        for m in (b'BIE2', b'bie1', b'BIE', b'BIE1\0', b'X', b'BIE1BIE1', b'Phishing'):
            if m != magic:
                refused(ctx, rng, priv, data, m, 'another magic')
        for m in {magic[:p] + bytes([magic[p] ^ 1 << rng.randrange(8)]) + magic[p + 1:] for p in range(len(magic))}:
            refused(ctx, rng, priv, data, m, 'another magic')
        if magic:
            refused(ctx, rng, priv, data, magic + data[len(magic):len(magic) + 1], 'longer magic')
        # an ephemeral key that is none
        n = len(magic)
        for eph in (b'\4' + data[n + 1:n + 33], b'\2' + b'\xff' * 32, bytes(33),
                    b'\2' + bytes(31) + b'\5', bytes([data[n] ^ 1]) + data[n + 1:n + 33]):
            refused(ctx, rng, priv, magic + eph + data[n + 33:], magic, 'bad ephemeral key')
        text = b64encode(data).decode()
        p = rng.randrange(len(text) - 4)
        for bad in (text[:p] + rng.choice('%-_ \n\u00e9\u0661') + text[p + 1:], text[:-1] + '%', '\u00e9',
                    text[:p] + text[p + 1:], '', 'A', '=', text[1:], text[:-4]):
            ctx.n('refused')
            ctx.raises(DecryptionError, 'bad text', priv.decrypt_message, bad, magic)


@workload(12, 220)
def long_messages(ctx, rng, i):
    k = ec.rand_scalar(rng)
    priv = PrivateKey(k.to_bytes(32, 'big'))
    plain = rng.randbytes(rng.randrange(500, 5000))
    for enc in ('native', 'pyaes'):
        with backend(enc):
            data = priv.public_key.encrypt_message(plain)
        ctx.case(data)
        ctx.eq(unseal(b'BIE1', k, data), plain, 'independent decryption')
        for dec in ('native', 'pyaes'):
            with backend(dec):
                ctx.eq(priv.decrypt_message(data), plain, 'decryption')


@workload(20, 720)
def entropy_retry(ctx, rng, i):
    '''Unusable entropy first: the ephemeral key must still be valid and usable.'''
    k, e = ec.rand_scalar(rng), ec.rand_scalar(rng)
    draws = [v.to_bytes(32, 'big') for v in rng.choices([0, ec.N, 2**256 - 1], k=rng.randrange(3))]
    feed = iter(draws + [e.to_bytes(32, 'big')] + [rng.randbytes(32) for _ in range(4)])
    priv = PrivateKey(k.to_bytes(32, 'big'))
    with taps.entropy(lambda n: next(feed)[:n]):
        data = priv.public_key.encrypt_message(b'abc')
    ctx.case(data)
    ctx.eq(unseal(b'BIE1', k, data), b'abc', 'independent decryption', data.hex())
