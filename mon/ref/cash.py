'''The cash address specification.'''

CHARSET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
GEN = [0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470]
SIZES = [20, 24, 28, 32, 40, 48, 56, 64]


def polymod(values):
    c = 1
    for d in values:
        top = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ d
        for k in range(5):
            if top >> k & 1:
                c ^= GEN[k]
    return c ^ 1


def expand(prefix):
    return [ord(c) & 31 for c in prefix] + [0]


def seal(prefix, values):
    '''Append the checksum to five-bit values: the address text.'''
    mod = polymod(expand(prefix) + list(values) + [0] * 8)
    values = list(values) + [(mod >> 5 * (7 - k)) & 31 for k in range(8)]
    return prefix + ':' + ''.join(CHARSET[v] for v in values)


def to5(data):
    bits = ''.join(f'{b:08b}' for b in data)
    bits += '0' * (-len(bits) % 5)
    return [int(bits[k:k + 5], 2) for k in range(0, len(bits), 5)]


def encode(prefix, kind, h):
    return seal(prefix, to5(bytes([kind << 3 | SIZES.index(len(h))]) + h))


def decode(text):
    '''(prefix, kind, hash) or None'''
    if any(not 33 <= ord(c) <= 126 for c in text):
        return None
    low = ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in text)
    up = ''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in text)
    if text not in (low, up) or ':' not in low:
        return None
    prefix, payload = low.split(':', 1)
    if not prefix or any(c not in CHARSET for c in payload) or len(payload) < 9:
        return None
    values = [CHARSET.index(c) for c in payload]
    if polymod(expand(prefix) + values):
        return None
    bits = ''.join(f'{v:05b}' for v in values[:-8])
    extra = len(bits) % 8
    if extra >= 5 or '1' in bits[len(bits) - extra:]:
        return None
    data = bytes(int(bits[k:k + 8], 2) for k in range(0, len(bits) - extra, 8))
    if not data:
        return None
    version, h = data[0], data[1:]
    if version >> 3 not in (0, 1) or len(h) != SIZES[version & 7]:
        return None
    return (prefix if text == low else prefix.upper()), version >> 3, h
