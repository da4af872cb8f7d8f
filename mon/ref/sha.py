'''SHA-1, SHA-256 and SHA-512 from FIPS 180-4, and HMAC from RFC 2104.'''


def _primes(n):
    found = []
    k = 2
    while len(found) < n:
        if all(k % p for p in found):
            found.append(k)
        k += 1
    return found


def _root(value, power):
    '''Floor of the power-th root.'''
    low, high = 0, 1 << (value.bit_length() // power + 1)
    while low < high:
        middle = (low + high + 1) // 2
        if middle ** power <= value:
            low = middle
        else:
            high = middle - 1
    return low


def _fractions(n, bits, power):
    '''The first bits of the fractional parts of roots of the first n primes.'''
    return [_root(p << bits * power, power) & ((1 << bits) - 1) for p in _primes(n)]


def _pad(data, block, length):
    zeros = -(len(data) + 1 + length) % block
    return data + b'\x80' + bytes(zeros) + (8 * len(data)).to_bytes(length, 'big')


def sha1(data):
    M = 0xffffffff

    def rol(x, n):
        return (x << n | x >> 32 - n) & M
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
    msg = _pad(data, 64, 8)
    for off in range(0, len(msg), 64):
        w = [int.from_bytes(msg[k: k + 4], 'big') for k in range(off, off + 64, 4)]
        for t in range(16, 80):
            w.append(rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1))
        a, b, c, d, e = h
        for t in range(80):
            if t < 20:
                f, k = b & c | ~b & d, 0x5a827999
            elif t < 40:
                f, k = b ^ c ^ d, 0x6ed9eba1
            elif t < 60:
                f, k = b & c | b & d | c & d, 0x8f1bbcdc
            else:
                f, k = b ^ c ^ d, 0xca62c1d6
            a, b, c, d, e = (rol(a, 5) + (f & M) + e + k + w[t]) & M, a, rol(b, 30), c, d
        h = [x + y & M for x, y in zip(h, (a, b, c, d, e))]
    return b''.join(x.to_bytes(4, 'big') for x in h)


def _sha2(bits, rounds, big0, big1, small0, small1):
    M = (1 << bits) - 1
    size = bits // 8
    K = _fractions(rounds, bits, 3)
    H = _fractions(8, bits, 2)

    def ror(x, n):
        return (x >> n | x << bits - n) & M

    def small(x, spec):
        return ror(x, spec[0]) ^ ror(x, spec[1]) ^ x >> spec[2]

    def big(x, spec):
        return ror(x, spec[0]) ^ ror(x, spec[1]) ^ ror(x, spec[2])

    def digest(data):
        h = list(H)
        msg = _pad(data, 16 * size, 2 * size)
        for off in range(0, len(msg), 16 * size):
            w = [int.from_bytes(msg[k: k + size], 'big') for k in range(off, off + 16 * size, size)]
            for t in range(16, rounds):
                w.append(small(w[t - 2], small1) + w[t - 7] + small(w[t - 15], small0) + w[t - 16] & M)
            a, b, c, d, e, f, g, i = h
            for t in range(rounds):
                t1 = i + big(e, big1) + (e & f ^ ~e & g) + K[t] + w[t]
                t2 = big(a, big0) + (a & b ^ a & c ^ b & c)
                a, b, c, d, e, f, g, i = t1 + t2 & M, a, b, c, d + t1 & M, e, f, g
            h = [x + y & M for x, y in zip(h, (a, b, c, d, e, f, g, i))]
        return b''.join(x.to_bytes(size, 'big') for x in h)
    return digest


sha256 = _sha2(32, 64, (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10))
sha512 = _sha2(64, 80, (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6))
BLOCK = {sha1: 64, sha256: 64, sha512: 128}


def hmac(key, msg, fn):
    block = BLOCK[fn]
    if len(key) > block:
        key = fn(key)
    key += bytes(block - len(key))
    return fn(bytes(k ^ 0x5c for k in key) + fn(bytes(k ^ 0x36 for k in key) + msg))
