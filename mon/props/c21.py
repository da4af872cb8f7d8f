import contextlib

import bitcoinx.aes as lib_aes
from bitcoinx.aes import BadPaddingError, aes_decrypt_with_iv, aes_encrypt_with_iv
from engine import workload
from ref import aes

PROP, LEVEL = 'C21', 'exploration'
FILES = ['aes.py']
RULE = ('all data lengths 0 to 100 and up to 3000, key sizes 16, 24 and 32, data that ends like padding; '
        'plaintexts with every final byte and partial paddings; ciphertexts of wrong length; under each '
        'backend. Oracle: AES written from FIPS 197 with CBC and PKCS#7. Distinct by key, iv and data.')
REQUIRE = {'encryptions': 2000, 'decryptions': 2000, 'bad padding refused': 1500,
           'wrong length refused': 1000, 'data lengths': 100, 'final bytes': 256, 'key sizes': 3, 'bytearrays encrypted': 800}


@contextlib.contextmanager
def backend(name):
    saved = lib_aes.AES
    try:
        if name == 'pyaes':
            lib_aes.AES = None
        yield
    finally:
        lib_aes.AES = saved


BACKENDS = ('native', 'pyaes')


def rand_data(rng, n):
    data = rng.randbytes(n)
    kind = rng.randrange(4)
    if kind == 0 and n:
        k = rng.randrange(1, min(n, 17) + 1)
        data = data[:n - k] + bytes([k]) * k
    elif kind == 1:
        data = bytes([rng.randrange(256)]) * n
    return data


@workload(6700, 290000)
def encrypt(ctx, rng, i):
    size = rng.choice([16, 24, 32])
    key, iv = rng.randbytes(size), rng.randbytes(16)
    n = i % 101 if i < 500 else rng.choice([rng.randrange(101), rng.randrange(600)])
    data = rand_data(rng, n)
    want = aes.cbc_encrypt(key, iv, aes.pad(data))
    ctx.seen('data lengths', n)
    ctx.seen('key sizes', size)
    ctx.case((key, iv, data))
    for name in BACKENDS:
        with backend(name):
            ctx.n('encryptions')
            got = aes_encrypt_with_iv(key, iv, data)
            ctx.eq(got, want, 'ciphertext', name, key.hex(), iv.hex(), data.hex())
            ctx.n('decryptions')
            back = aes_decrypt_with_iv(key, iv, want)
            ctx.eq(back, data, 'plaintext', name, key.hex(), iv.hex(), want.hex())
            ctx.ok(type(got) is bytes and type(back) is bytes, 'type')
            if i % 4 == 0:
                # Other bytes-like arguments: accepted with the same result or not, they are left as they were
                args = [bytearray(key), bytearray(iv), bytearray(data)]
                mask = rng.randrange(1, 8)
                args = [a if mask >> n & 1 else bytes(a) for n, a in enumerate(args)]
                got, error = ctx.outcome(lambda: aes_encrypt_with_iv(*args))
                ctx.ok(error is not None or bytes(got) == want, 'ciphertext of a bytearray', name, mask)
                ctx.n('bytearrays encrypted', error is None)
                crypt = bytearray(want)
                back, error = ctx.outcome(lambda: aes_decrypt_with_iv(args[0], args[1], crypt))
                ctx.ok(error is not None or bytes(back) == data, 'plaintext of a bytearray', name, mask)
                ctx.ok([bytes(a) for a in args] == [key, iv, data] and bytes(crypt) == want,
                       "the caller's bytearrays changed", name, mask)
    ctx.sample(key=key.hex(), iv=iv.hex(), data=data.hex(), ciphertext=want.hex())


@workload(3300, 150000)
def paddings(ctx, rng, i):
    key, iv = rng.randbytes(rng.choice([16, 24, 32])), rng.randbytes(16)
    blocks = rng.randrange(1, 4) * 16
    last = i % 256
    ctx.seen('final bytes', last)
    plains = [rng.randbytes(blocks - 1) + bytes([last])]
    n = rng.randrange(1, 17)
    plains.append(rng.randbytes(blocks - n) + bytes([n]) * n)
    broken = bytearray(rng.randbytes(blocks - n) + bytes([n]) * n)
    if n > 1:
        p = blocks - rng.choice([n, 2, rng.randrange(2, n + 1)])
        broken[p] ^= 1 << rng.randrange(8)
        plains.append(bytes(broken))
    plains += [bytes(16), bytes([17]) * 32, bytes([16]) * 16, bytes([16]) * 32, bytes([32]) * 32,
               rng.randbytes(16) + bytes([15]) * 16, bytes([n]) * 16]
    for plain in plains:
        cipher = aes.cbc_encrypt(key, iv, plain)
        want = aes.unpad(plain)
        ctx.case((key, iv, plain))
        for name in BACKENDS:
            with backend(name):
                if want is None:
                    ctx.n('bad padding refused')
                    ctx.raises(BadPaddingError, 'bad padding', aes_decrypt_with_iv, key, iv, cipher)
                else:
                    ctx.n('decryptions')
                    ctx.eq(aes_decrypt_with_iv(key, iv, cipher), want, 'one padding removed', name,
                           plain.hex())


@workload(1100, 44000)
def lengths(ctx, rng, i):
    key, iv = rng.randbytes(16), rng.randbytes(16)
    good = aes.cbc_encrypt(key, iv, aes.pad(rng.randbytes(rng.randrange(64))))
    for n in {0, 1, 15, 17, i % 120, len(good) - 1, len(good) + 1, rng.randrange(120)}:
        if n % 16 or n == 0:
            data = (good + good + rng.randbytes(120))[:n]
            ctx.case((key, n, data))
            for name in BACKENDS:
                with backend(name):
                    ctx.n('wrong length refused')
                    ctx.raises(Exception, 'wrong length', aes_decrypt_with_iv, key, iv, data)
    # a whole block lost at the end, or a changed ciphertext: judged by the model
    for data in (good[:-16], good[16:], good[::-1], bytes(b ^ 1 for b in good)):
        if data:
            want = aes.unpad(aes.cbc_decrypt(key, iv, data))
            for name in BACKENDS:
                with backend(name):
                    if want is None:
                        ctx.raises(BadPaddingError, 'bad padding', aes_decrypt_with_iv, key, iv, data)
                    else:
                        ctx.eq(aes_decrypt_with_iv(key, iv, data), want, 'plaintext')


@workload(33, 440)
def long_data(ctx, rng, i):
    key, iv = rng.randbytes(rng.choice([16, 24, 32])), rng.randbytes(16)
    data = rand_data(rng, rng.randrange(600, 3000))
    want = aes.cbc_encrypt(key, iv, aes.pad(data))
    ctx.case((key, iv, data))
    for name in BACKENDS:
        with backend(name):
            ctx.eq(aes_encrypt_with_iv(key, iv, data), want, 'ciphertext', name)
            ctx.eq(aes_decrypt_with_iv(key, iv, want), data, 'plaintext', name)
