import hashlib


def sha(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha(sha(b))


# RIPEMD-160 from its specification

_R1 = [list(range(16)),
       [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8],
       [3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12],
       [1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2],
       [4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13]]
_R2 = [[5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12],
       [6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2],
       [15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13],
       [8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14],
       [12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11]]
_S1 = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
       [7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12],
       [11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5],
       [11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12],
       [9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6]]
_S2 = [[8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6],
       [9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11],
       [9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5],
       [15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8],
       [8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11]]
_K1 = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]
_K2 = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
_M = 0xffffffff


def _f(j, x, y, z):
    if j == 0:
        return x ^ y ^ z
    if j == 1:
        return (x & y) | (~x & z)
    if j == 2:
        return (x | ~y) ^ z
    if j == 3:
        return (x & z) | (y & ~z)
    return x ^ (y | ~z)


def _rol(x, n):
    x &= _M
    return ((x << n) | (x >> (32 - n))) & _M


def ripemd160(data):
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
    msg = data + b'\x80' + bytes((55 - len(data)) % 64) + (8 * len(data)).to_bytes(8, 'little')
    for off in range(0, len(msg), 64):
        X = [int.from_bytes(msg[off + 4 * i: off + 4 * i + 4], 'little') for i in range(16)]
        a, b, c, d, e = h
        A, B, C, D, E = h
        for j in range(5):
            for i in range(16):
                t = _rol(a + _f(j, b, c, d) + X[_R1[j][i]] + _K1[j], _S1[j][i]) + e
                a, e, d, c, b = e, d, _rol(c, 10), b, t & _M
                t = _rol(A + _f(4 - j, B, C, D) + X[_R2[j][i]] + _K2[j], _S2[j][i]) + E
                A, E, D, C, B = E, D, _rol(C, 10), B, t & _M
        t = (h[1] + c + D) & _M
        h[1] = (h[2] + d + E) & _M
        h[2] = (h[3] + e + A) & _M
        h[3] = (h[4] + a + B) & _M
        h[4] = (h[0] + b + C) & _M
        h[0] = t
    return b''.join(x.to_bytes(4, 'little') for x in h)


def hash160(data):
    h = hashlib.new('ripemd160')
    h.update(sha(data))
    return h.digest()


def hmac_ref(key, msg, name):
    '''HMAC from RFC 2104.'''
    H = lambda b: hashlib.new(name, b).digest()    # noqa: E731
    block = hashlib.new(name).block_size
    if len(key) > block:
        key = H(key)
    key = key + bytes(block - len(key))
    return H(bytes(k ^ 0x5c for k in key) + H(bytes(k ^ 0x36 for k in key) + msg))
