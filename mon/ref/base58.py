from .hashing import dsha

ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def encode(data):
    '''Digit-by-digit base conversion.'''
    digits = []
    for byte in data:
        carry = byte
        for k in range(len(digits)):
            carry += digits[k] << 8
            digits[k] = carry % 58
            carry //= 58
        while carry:
            digits.append(carry % 58)
            carry //= 58
    zeros = len(data) - len(data.lstrip(b'\0'))
    return '1' * zeros + ''.join(ALPHABET[d] for d in reversed(digits))


def decode(text):
    '''bytes or None'''
    out = []
    for c in text:
        d = ALPHABET.find(c)
        if d < 0 or len(c) != 1:
            return None
        carry = d
        for k in range(len(out)):
            carry += out[k] * 58
            out[k] = carry & 255
            carry >>= 8
        while carry:
            out.append(carry & 255)
            carry >>= 8
    ones = len(text) - len(text.lstrip('1'))
    return bytes(ones) + bytes(reversed(out))


def encode_check(payload):
    return encode(payload + dsha(payload)[:4])


def decode_check(text):
    '''payload or None'''
    data = decode(text) if text else None
    if data is None or len(data) < 4 or dsha(data[:-4])[:4] != data[-4:]:
        return None
    return data[:-4]
