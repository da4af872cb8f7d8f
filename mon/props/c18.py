from base64 import b64encode

import bitcoinx as bx
from bitcoinx import InvalidSignatureError, P2PKH_Address, PrivateKey, PublicKey
from engine import workload
from lib import COINS
from ref import base58 as b58, ec
from ref.hashing import dsha, hash160, sha

PROP, LEVEL = 'C18', 'exploration'
FILES = ['keys.py', 'signature.py', 'address.py']
RULE = ('messages as text (ASCII, other scripts, controls) and bytes of 0 to 70000 bytes around the varint '
        'boundaries, either compression, default and other hashers; signatures made by the library and '
        'independently, with all recovery ids incl. 2 and 3; every header byte; altered values, text, '
        'messages, keys and addresses of every network. Oracle: independent prefixing, ECDSA and '
        'recovery. Distinct by key and message.')
REQUIRE = {'messages signed': 300, 'accepted': 3000, 'not accepted': 6000, 'bad form': 4000,
           'crafted recovery ids 2 and 3': 40, 'header bytes': 256}
PREFIX = b'\x18Bitcoin Signed Message:\n'


def varint(n):
    if n < 253:
        return bytes([n])
    if n < 65536:
        return b'\xfd' + n.to_bytes(2, 'little')
    return b'\xfe' + n.to_bytes(4, 'little')


def rand_message(rng):
    kind = rng.randrange(6)
    if kind == 0:
        return rng.choice(['', 'Hello', 'BitcoinSV', 'Bitcoin Signed Message:\n', ' ', '\n', '\0'])
    if kind == 1:
        return ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0x80, 0x800),
                                       rng.randrange(0x3040, 0x30ff), 0x1f600, 0xfeff, 0x0130]))
                       for _ in range(rng.randrange(1, 60)))
    if kind == 2:
        return rng.randbytes(rng.choice([251, 252, 253, 254, 255, 256, 257, 300]))
    if kind == 3 and rng.random() < .2:
        return rng.randbytes(rng.choice([65534, 65535, 65536, 65537, 70000, 1 << 20, (1 << 20) + 1, 3000000]))
    return rng.randbytes(rng.randrange(100))


def message_hash(message, hasher=dsha):
    data = message.encode() if isinstance(message, str) else message
    return hasher(PREFIX + varint(len(data)) + data)


def judge(ctx, rng, sig, message, hasher, keys, addresses):
    '''Everything the library says about this 65-byte signature, against the model.'''
    z = message_hash(message, hasher or dsha)
    r, s = (int.from_bytes(sig[a:a + 32], 'big') for a in (1, 33))
    ctx.seen('header bytes', sig[0])
    good_form = 27 <= sig[0] < 35 and r < ec.N and s < ec.N
    point = ec.ecdsa_recover(z, r, s, (sig[0] - 27) & 3) if good_form else None
    how = (hasher, ) if hasher else ()
    kw = {'hasher': hasher} if hasher else {}
    if isinstance(message, str) and rng.random() < .3:
        message = message.encode()
    text = b64encode(sig).decode()
    for form in (sig, text):
        if point is None or point is ec.INF:
            ctx.n('bad form')
            ctx.raises(InvalidSignatureError, 'unrecoverable signed message',
                       PublicKey.from_signed_message, form, message, *how)
        else:
            ctx.eq(tuple(PublicKey.from_signed_message(form, message, *how).to_point()), point,
                   'recovered key', sig.hex(), z.hex())
        for key, kpoint in keys:
            if not good_form:
                ctx.n('bad form')
                ctx.raises(InvalidSignatureError, 'bad message signature', key.verify_message,
                           form, message, *how)
                continue
            want = ec.ecdsa_verify(z, r, s, kpoint)
            ctx.n('accepted' if want else 'not accepted')
            ctx.eq(key.verify_message(form, message, *how), want, 'verify_message', sig.hex(),
                   z.hex(), kpoint)
        hashes = ()
        if point is not None and point is not ec.INF and ec.ecdsa_verify(z, r, s, point):
            hashes = hash160(ec.ser(point)), hash160(ec.ser(point, False))
        for address, h in addresses:
            want = h in hashes
            ctx.n('accepted' if want else 'not accepted')
            ctx.eq(PublicKey.verify_message_and_address(form, message, address, **kw), want,
                   'verify_message_and_address', sig.hex(), z.hex(), str(address))


def address_forms(rng, point):
    result = []
    for compressed in (True, False):
        h = hash160(ec.ser(point, compressed))
        coin = COINS[rng.randrange(4)]
        result.append((P2PKH_Address(h, coin), h))
        result.append((b58.encode_check(bytes([rng.choice([0, 0x6f])]) + h), h))
    return result


@workload(400, 15000)
def signed(ctx, rng, i):
    k = ec.EDGE_SCALARS[i] if i < len(ec.EDGE_SCALARS) else ec.rand_scalar(rng)
    compressed = rng.random() < .5
    priv = PrivateKey(k.to_bytes(32, 'big'), compressed, COINS[rng.randrange(4)])
    point = ec.mul_g(k)
    message = rand_message(rng)
    hasher = rng.choice([None, None, None, dsha, sha, bx.sha256])
    z = message_hash(message, hasher or dsha)
    r, s, recid = ec.ecdsa_sign(z, k.to_bytes(32, 'big'))
    want = bytes([27 + recid + (4 if compressed else 0)])
    want += r.to_bytes(32, 'big') + s.to_bytes(32, 'big')
    how = (hasher, ) if hasher else ()
    ctx.n('messages signed')
    ctx.case((k, z))
    got = priv.sign_message(message, *how)
    ctx.eq(got, want, 'message signature', hex(k), z.hex())
    ctx.eq(priv.sign_message_to_base64(message, *how), b64encode(want).decode(), 'base64 signature')
    ctx.eq(priv.sign_message(message, *how), want, 'signing again')
    if isinstance(message, str):
        ctx.eq(priv.sign_message(message.encode(), *how), want, 'text and its UTF-8 bytes differ')
    ctx.sample(key=hex(k), message=message, signature=got.hex())
    other = ec.mul_g(ec.rand_scalar(rng))
    keys = [(priv.public_key, point), (PublicKey.from_bytes(ec.ser(other)), other),
            (PublicKey.from_bytes(ec.ser(ec.neg(point), False)), ec.neg(point))]
    addresses = address_forms(rng, point) + address_forms(rng, other)[:2]
    addresses += address_forms(rng, ec.neg(point))[:1]
    twisted = bytearray(hash160(ec.ser(point, compressed)))
    twisted[rng.randrange(20)] ^= 1 << rng.randrange(8)
    addresses.append((P2PKH_Address(bytes(twisted), COINS[0]), bytes(twisted)))
    judge(ctx, rng, want, message, hasher, keys, addresses)
    few = addresses[:2] + addresses[-1:]
    # altered: header, r, s, twin, message
    for header in rng.sample(range(27, 35), 3) + [rng.randrange(256), rng.choice([0, 26, 35, 255])]:
        judge(ctx, rng, bytes([header]) + want[1:], message, hasher, keys[:1], few)
    judge(ctx, rng, bytes([want[0] ^ 1 if want[0] not in (27, 31) else want[0]]) + want[1:33] +
          (ec.N - s).to_bytes(32, 'big'), message, hasher, keys[:1], few)
    twin = 27 + ((want[0] - 27) ^ 1)
    judge(ctx, rng, bytes([twin]) + want[1:33] + (ec.N - s).to_bytes(32, 'big'), message, hasher,
          keys[:1], few)
    for _ in range(2):
        bad = bytearray(want)
        bad[rng.randrange(1, 65)] ^= 1 << rng.randrange(8)
        judge(ctx, rng, bytes(bad), message, hasher, keys[:1], few)
    for r2, s2 in ((0, s), (r, 0), (ec.N, s), (r, ec.N), (2**256 - 1, s), (r, 2**256 - 1)):
        judge(ctx, rng, want[:1] + r2.to_bytes(32, 'big') + s2.to_bytes(32, 'big'), message, hasher,
              keys[:1], few[:1])
    m2 = message + ('x' if isinstance(message, str) else b'\0')
    judge(ctx, rng, want, m2, hasher, keys[:1], few)
    judge(ctx, rng, want, message, h3 if hasher is None else None, keys[:1], few)


def h3(data):
    return sha(b'3' + data)


@workload(60, 2000)
def crafted(ctx, rng, i):
    '''Signatures whose nonce point has an x coordinate not below the order.'''
    while True:
        r = rng.randrange(1, ec.P - ec.N)
        recid = rng.choice([2, 3])
        R = ec.lift_x(r + ec.N, recid & 1)
        if R is not ec.INF:
            break
    message = rand_message(rng)
    z = message_hash(message)
    s = rng.randrange(1, ec.N // 2 + 1)
    point = ec.ecdsa_recover(z, r, s, recid)
    ctx.n('crafted recovery ids 2 and 3')
    ctx.case((r, s, z))
    sig = bytes([27 + recid + rng.choice([0, 4])]) + r.to_bytes(32, 'big') + s.to_bytes(32, 'big')
    keys = [(PublicKey.from_bytes(ec.ser(point)), point)]
    judge(ctx, rng, sig, message, None, keys, address_forms(rng, point))


@workload(32, 256)
def headers(ctx, rng, i):
    '''Every header byte.'''
    k = ec.rand_scalar(rng)
    priv, point = PrivateKey(k.to_bytes(32, 'big')), ec.mul_g(k)
    sig = priv.sign_message(b'm')
    for header in range(i % 32, 256, 32):
        ctx.case((k, header))
        judge(ctx, rng, bytes([header]) + sig[1:], b'm', None, [(priv.public_key, point)],
              address_forms(rng, point)[:1])


@workload(100, 3000)
def bad_form(ctx, rng, i):
    k = ec.rand_scalar(rng)
    priv = PrivateKey(k.to_bytes(32, 'big'))
    pub = priv.public_key
    address = pub.to_address()
    message = rand_message(rng)
    sig = priv.sign_message(message)
    text = b64encode(sig).decode()
    p = rng.randrange(len(text) - 1)
    bads = [b'', sig[:-1], sig + b'\0', sig[:rng.randrange(65)], sig * 2, bytearray(sig),
            sig.hex(), text[:-1], text + '=', text[:p] + rng.choice('-_!*.\n \u0141\ud800') + text[p + 1:],
            text[:p] + text[p + 1:], '', '\u00e9', text + '\n', text[:44], 'not base 64', '====',
            text.replace('=', '\u0660'), None, 5, text.encode(), memoryview(sig), list(sig)]
    for bad in bads:
        ctx.n('bad form')
        ctx.case(repr(bad))
        ctx.raises(InvalidSignatureError, 'bad form', pub.verify_message, bad, message)
        ctx.raises(InvalidSignatureError, 'bad form', PublicKey.from_signed_message, bad, message)
        for a in (address, address.to_string()):
            got = PublicKey.verify_message_and_address(bad, message, a)
            ctx.eq(got, False, 'bad form answered', bad)
    for fn, args in ((priv.sign_message, ()), (priv.sign_message_to_base64, ()),
                     (pub.verify_message, (sig, )), (PublicKey.from_signed_message, (sig, ))):
        ctx.raises(ValueError, 'no hasher', fn, *args, message, None)
    for bad in (None, 5, address.hash160(), pub):
        ctx.raises(TypeError, 'bad address', PublicKey.verify_message_and_address, sig, message, bad)
    bad = 'a' * rng.randrange(20) + chr(rng.randrange(0xd800, 0xe000)) + 'b'
    for fn, args in ((priv.sign_message, ()), (priv.sign_message_to_base64, ()), (pub.verify_message, (sig, )),
                     (PublicKey.from_signed_message, (sig, ))):
        ctx.raises(ValueError, 'text with no encoding', fn, *args, bad)
    s = address.to_string()
    p = rng.randrange(len(s))
    h = address.hash160()
    for payload in (b'', h, b'\0' + h + b'\0', b'\0\0' + h, b'\x80' + rng.randbytes(12) + h, b'\0' + h * 2, b'\0' + h[:-1],
                    b'\0' + h[1:], h + b'\0', b'\0' + h[::-1], b'\0' + rng.randbytes(3) + h, b'\0'):
        try:
            got = PublicKey.verify_message_and_address(sig, message, b58.encode_check(payload) if payload else '')
        except ValueError:
            got = False
        ctx.eq(got, False, 'address text of another length', payload.hex())
    for bad in (s[:-1], s[:p] + rng.choice([c for c in b58.ALPHABET if c != s[p]]) + s[p + 1:]):
        if b58.decode_check(bad) is None:
            ctx.raises(ValueError, 'bad address text', PublicKey.verify_message_and_address, sig,
                       message, bad)
