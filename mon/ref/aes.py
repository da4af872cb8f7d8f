'''AES from FIPS 197, CBC and PKCS#7.'''


def _xtime(a):
    a <<= 1
    return a ^ 0x11b if a & 0x100 else a


def _mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = _xtime(a)
        b >>= 1
    return r


def _tables():
    sbox = [0] * 256
    for v in range(256):
        inv = next((w for w in range(256) if _mul(v, w) == 1), 0)
        r = inv
        for n in range(1, 5):
            r ^= (inv << n | inv >> (8 - n)) & 0xff
        sbox[v] = r ^ 0x63
    inverse = [0] * 256
    for v, w in enumerate(sbox):
        inverse[w] = v
    return sbox, inverse


SBOX, INV = _tables()
M2, M3, M9, M11, M13, M14 = ([_mul(v, k) for v in range(256)] for k in (2, 3, 9, 11, 13, 14))


def expand(key):
    nk = len(key) // 4
    words = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rcon = 1
    for i in range(nk, 4 * (nk + 7)):
        w = list(words[-1])
        if i % nk == 0:
            w = [SBOX[b] for b in w[1:] + w[:1]]
            w[0] ^= rcon
            rcon = _xtime(rcon)
        elif nk > 6 and i % nk == 4:
            w = [SBOX[b] for b in w]
        words.append([a ^ b for a, b in zip(w, words[i - nk])])
    return [sum(words[i:i + 4], []) for i in range(0, len(words), 4)]


_SHIFT = [(i + 4 * (i % 4)) % 16 for i in range(16)]
_UNSHIFT = [(i - 4 * (i % 4)) % 16 for i in range(16)]


def encrypt_block(keys, block):
    s = [a ^ b for a, b in zip(block, keys[0])]
    for k in keys[1:-1]:
        s = [SBOX[s[j]] for j in _SHIFT]
        t = []
        for c in range(0, 16, 4):
            a, b, d, e = s[c:c + 4]
            t += [M2[a] ^ M3[b] ^ d ^ e, a ^ M2[b] ^ M3[d] ^ e, a ^ b ^ M2[d] ^ M3[e],
                  M3[a] ^ b ^ d ^ M2[e]]
        s = [a ^ b for a, b in zip(t, k)]
    return bytes(SBOX[s[j]] ^ k for j, k in zip(_SHIFT, keys[-1]))


def decrypt_block(keys, block):
    s = [a ^ b for a, b in zip(block, keys[-1])]
    for k in keys[-2:0:-1]:
        s = [INV[s[j]] ^ b for j, b in zip(_UNSHIFT, k)]
        t = []
        for c in range(0, 16, 4):
            a, b, d, e = s[c:c + 4]
            t += [M14[a] ^ M11[b] ^ M13[d] ^ M9[e], M9[a] ^ M14[b] ^ M11[d] ^ M13[e],
                  M13[a] ^ M9[b] ^ M14[d] ^ M11[e], M11[a] ^ M13[b] ^ M9[d] ^ M14[e]]
        s = t
    return bytes(INV[s[j]] ^ k for j, k in zip(_UNSHIFT, keys[0]))


def cbc_encrypt(key, iv, data):
    '''No padding.'''
    keys, out = expand(key), b''
    for p in range(0, len(data), 16):
        iv = encrypt_block(keys, bytes(a ^ b for a, b in zip(iv, data[p:p + 16])))
        out += iv
    return out


def cbc_decrypt(key, iv, data):
    keys, out = expand(key), b''
    for p in range(0, len(data), 16):
        block = data[p:p + 16]
        out += bytes(a ^ b for a, b in zip(iv, decrypt_block(keys, block)))
        iv = block
    return out


def pad(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n


def unpad(data):
    '''None if the padding is wrong.'''
    if not data or len(data) % 16:
        return None
    n = data[-1]
    if not 1 <= n <= 16 or data[-n:] != bytes([n]) * n:
        return None
    return data[:-n]


assert encrypt_block(expand(bytes(range(16))), bytes.fromhex('00112233445566778899aabbccddeeff')) == \
    bytes.fromhex('69c4e0d86a7b0430d8cdb78070b4c55a')
assert encrypt_block(expand(bytes(range(32))), bytes.fromhex('00112233445566778899aabbccddeeff')) == \
    bytes.fromhex('8ea2b7ca516745bfeafc49904b496089')
