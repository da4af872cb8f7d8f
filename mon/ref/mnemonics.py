'''BIP39 and Electrum seeds.'''
import unicodedata

import taps
from ref.hashing import sha


def nfkd(text):
    return unicodedata.normalize('NFKD', text)


def normalize(text):
    return ' '.join(nfkd(text).split()).lower()


def bip39_encode(entropy, words):
    bits = len(entropy) * 8
    check = bits // 32
    s = f'{int.from_bytes(entropy, "big"):0{bits}b}'
    s += f'{int.from_bytes(sha(entropy), "big"):0256b}'[:check]
    return [words[int(s[p:p + 11], 2)] for p in range(0, len(s), 11)]


def bip39_valid(indices):
    '''indices into the list.'''
    if len(indices) not in (12, 15, 18, 21, 24):
        return False
    s = ''.join(f'{v:011b}' for v in indices)
    check = len(s) // 33
    entropy = int(s[:-check], 2).to_bytes((len(s) - check) // 8, 'big')
    return f'{int.from_bytes(sha(entropy), "big"):0256b}'[:check] == s[-check:]


def pbkdf2_sha512(password, salt, rounds=2048):
    '''64 bytes.'''
    u = taps.real_hmac_digest(password, salt + b'\0\0\0\1', 'sha512')
    total = int.from_bytes(u, 'big')
    for _ in range(rounds - 1):
        u = taps.real_hmac_digest(password, u, 'sha512')
        total ^= int.from_bytes(u, 'big')
    return total.to_bytes(64, 'big')


def bip39_seed(mnemonic, passphrase):
    return pbkdf2_sha512(normalize(mnemonic).encode(), b'mnemonic' + nfkd(passphrase).encode())


def old_encode(seed_hex, words):
    n = len(words)
    out = []
    for p in range(0, len(seed_hex), 8):
        x = int.from_bytes(bytes.fromhex(seed_hex[p:p + 8]), 'big')
        w1 = x % n
        w2 = (x // n + w1) % n
        w3 = (x // n // n + w2) % n
        out += [words[w1], words[w2], words[w3]]
    return out


def old_decode(words_given, words):
    '''The seed in hex, or None.'''
    n = len(words)
    if len(words_given) not in (12, 24) or any(w not in words for w in words_given):
        return None
    result = ''
    for p in range(0, len(words_given), 3):
        a, b, c = (words.index(w) for w in words_given[p:p + 3])
        x = a + n * ((b - a) % n) + n * n * ((c - b) % n)
        if x >= 1 << 32:
            return None
        result += f'{x:08x}'
    return result


def new_valid(text, prefix):
    mac = taps.real_hmac_digest(b'Seed version', nfkd(text).lower().encode(), 'sha512')
    return mac.hex()[:len(prefix)] == prefix
