'''secp256k1, SEC encodings, RFC 6979 ECDSA, DER: written from the standards, in pure Python.'''
import hashlib

import taps

P = 2**256 - 2**32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
     0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)
INF = None


def on_curve(pt):
    x, y = pt
    return 0 <= x < P and 0 <= y < P and (y * y - x * x * x - 7) % P == 0


# Jacobian arithmetic; (X, Y, 0) is infinity

def _jdouble(p):
    X, Y, Z = p
    if not Z or not Y:
        return (0, 1, 0)
    A = X * X % P
    B = Y * Y % P
    C = B * B % P
    D = 2 * ((X + B) * (X + B) - A - C) % P
    E = 3 * A
    F = E * E % P
    X3 = (F - 2 * D) % P
    Y3 = (E * (D - X3) - 8 * C) % P
    return (X3, Y3, 2 * Y * Z % P)


def _jadd(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    X1, Y1, Z1 = p
    X2, Y2, Z2 = q
    Z1Z1 = Z1 * Z1 % P
    Z2Z2 = Z2 * Z2 % P
    U1 = X1 * Z2Z2 % P
    U2 = X2 * Z1Z1 % P
    S1 = Y1 * Z2 * Z2Z2 % P
    S2 = Y2 * Z1 * Z1Z1 % P
    H = (U2 - U1) % P
    R = (S2 - S1) % P
    if H == 0:
        return _jdouble(p) if R == 0 else (0, 1, 0)
    HH = H * H % P
    HHH = H * HH % P
    V = U1 * HH % P
    X3 = (R * R - HHH - 2 * V) % P
    Y3 = (R * (V - X3) - S1 * HHH) % P
    return (X3, Y3, H * Z1 * Z2 % P)


def _affine(p):
    X, Y, Z = p
    if not Z:
        return INF
    zi = pow(Z, -1, P)
    zi2 = zi * zi % P
    return (X * zi2 % P, Y * zi2 * zi % P)


def _jac(pt):
    return (0, 1, 0) if pt is INF else (pt[0], pt[1], 1)


def _jmul(pt, k):
    k %= N
    table = [(0, 1, 0), _jac(pt)]
    for _ in range(14):
        table.append(_jadd(table[-1], table[1]))
    acc = (0, 1, 0)
    for shift in range(252, -4, -4):
        if acc[2]:
            acc = _jdouble(_jdouble(_jdouble(_jdouble(acc))))
        d = (k >> shift) & 15
        if d:
            acc = _jadd(acc, table[d])
    return acc


_gtab = None


def _jmul_g(k):
    global _gtab
    if _gtab is None:
        _gtab = []
        base = _jac(G)
        for _ in range(64):
            row = [(0, 1, 0), base]
            for _ in range(14):
                row.append(_jadd(row[-1], base))
            _gtab.append([row[0]] + [_jac(_affine(r)) for r in row[1:]])
            base = _jadd(row[15], base)
    k %= N
    acc = (0, 1, 0)
    for row in _gtab:
        d = k & 15
        if d:
            acc = _jadd(acc, row[d])
        k >>= 4
    return acc


def add(p, q):
    return _affine(_jadd(_jac(p), _jac(q)))


def neg(p):
    return p if p is INF else (p[0], -p[1] % P)


def mul(pt, k):
    return _affine(_jmul(pt, k)) if pt is not INF else INF


def mul_g(k):
    return _affine(_jmul_g(k))


def lift_x(x, odd):
    '''The point with this x coordinate, or INF if there is none.'''
    if not 0 <= x < P:
        return INF
    a = (x * x * x + 7) % P
    y = pow(a, (P + 1) // 4, P)
    if y * y % P != a:
        return INF
    return (x, P - y if (y & 1) != odd else y)


def ser(pt, compressed=True):
    x, y = pt
    if compressed:
        return bytes([2 + (y & 1)]) + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def parse(data):
    '''SEC point or None; (hybrid encodings 06/07 are accepted as libsecp256k1 does.)'''
    if len(data) == 33 and data[0] in (2, 3):
        return lift_x(int.from_bytes(data[1:], 'big'), data[0] & 1)
    if len(data) == 65 and data[0] in (4, 6, 7):
        pt = int.from_bytes(data[1:33], 'big'), int.from_bytes(data[33:], 'big')
        if not on_curve(pt):
            return None
        if data[0] != 4 and (pt[1] & 1) != (data[0] & 1):
            return None
        return pt
    return None


# ECDSA

def _hm(key, msg):
    return taps.real_hmac_digest(key, msg, 'sha256')


def rfc6979(msg32, secret, reduce_hash):
    if reduce_hash:
        msg32 = (int.from_bytes(msg32, 'big') % N).to_bytes(32, 'big')
    keydata = secret + msg32
    V = b'\1' * 32
    K = bytes(32)
    K = _hm(K, V + b'\0' + keydata)
    V = _hm(K, V)
    K = _hm(K, V + b'\1' + keydata)
    V = _hm(K, V)
    while True:
        V = _hm(K, V)
        k = int.from_bytes(V, 'big')
        if 0 < k < N:
            yield k
        K = _hm(K, V + b'\0')
        V = _hm(K, V)


def ecdsa_sign(msg32, secret, reduce_hash=False):
    '''(r, s, recid), deterministic and low-S.'''
    d = int.from_bytes(secret, 'big')
    z = int.from_bytes(msg32, 'big')
    for k in rfc6979(msg32, secret, reduce_hash):
        result = sign_with_nonce(z, d, k)
        if result:
            return result


def sign_with_nonce(z, d, k):
    x, y = mul_g(k)
    r = x % N
    s = pow(k, -1, N) * (z + r * d) % N
    if not r or not s:
        return None
    recid = (y & 1) | (2 if x >= N else 0)
    if s > N // 2:
        s = N - s
        recid ^= 1
    return r, s, recid


def ecdsa_verify_any(msg32, r, s, pt):
    '''Textbook verification, either S.'''
    if not (0 < r < N and 0 < s < N):
        return False
    z = int.from_bytes(msg32, 'big')
    w = pow(s, -1, N)
    R = _affine(_jadd(_jmul_g(z * w), _jmul(pt, r * w)))
    return R is not INF and R[0] % N == r


def ecdsa_verify(msg32, r, s, pt):
    return s <= N // 2 and ecdsa_verify_any(msg32, r, s, pt)


def ecdsa_recover(msg32, r, s, recid):
    if not (0 < r < N and 0 < s < N):
        return None
    x = r + (N if recid & 2 else 0)
    R = lift_x(x, recid & 1)
    if R is INF:
        return None
    ri = pow(r, -1, N)
    z = int.from_bytes(msg32, 'big')
    return _affine(_jadd(_jmul(R, s * ri), _jmul_g(-z * ri)))


# DER

def _der_int(v):
    b = v.to_bytes((v.bit_length() + 8) // 8 or 1, 'big')
    return b'\x02' + bytes([len(b)]) + b


def der(r, s):
    body = _der_int(r) + _der_int(s)
    return b'\x30' + bytes([len(body)]) + body


def der_parse(data):
    '''(r, s) if data is the strict DER of two non-negative integers of any size below 2^256,
    or one of the marginal encodings reported as ('overflow',), else None.'''
    def length(pos):
        if pos >= len(data):
            return None
        b = data[pos]
        if b < 0x80:
            return b, pos + 1
        if b == 0x80 or b == 0xff:
            return None
        size = b & 0x7f
        if pos + 1 + size > len(data):
            return None
        raw = data[pos + 1: pos + 1 + size]
        if raw[0] == 0 or (size == 1 and raw[0] < 128):
            return None
        return int.from_bytes(raw, 'big'), pos + 1 + size

    def integer(pos):
        if pos >= len(data) or data[pos] != 2:
            return None
        got = length(pos + 1)
        if got is None:
            return None
        size, pos = got
        raw = data[pos: pos + size]
        if size == 0 or len(raw) != size:
            return None
        if size > 1 and raw[0] == 0 and raw[1] < 0x80:
            return None
        if size > 1 and raw[0] == 0xff and raw[1] >= 0x80:
            return None
        value = None if raw[0] & 0x80 else int.from_bytes(raw, 'big')
        return value, pos + size

    if not data or data[0] != 0x30:
        return None
    got = length(1)
    if got is None:
        return None
    size, pos = got
    if size != len(data) - pos:
        return None
    got = integer(pos)
    if got is None:
        return None
    r, pos = got
    got = integer(pos)
    if got is None:
        return None
    s, pos = got
    if pos != len(data):
        return None
    if r is None or s is None or r >= N or s >= N:
        return ('overflow', )
    return r, s


# interesting scalars

EDGE_SCALARS = sorted({1, 2, 3, 4, 5, 7, 8, 15, 16, 255, 256, 2**32 - 1, 2**64, 2**128 - 1, 2**128,
                       2**200, 2**248 - 1, 2**248, 2**255, N // 2, N // 2 + 1, N - 1, N - 2, N - 3,
                       N - 2**128, N // 3})


def rand_scalar(rng):
    kind = rng.randrange(8)
    if kind == 0:
        return rng.choice(EDGE_SCALARS)
    if kind == 1:
        return rng.randrange(1, 1 << rng.randrange(1, 256)) or 1      # leading zero bytes
    if kind == 2:
        return N - rng.randrange(1, 1 << rng.randrange(1, 200))
    return rng.randrange(1, N)


def hex_sha(data):
    return hashlib.sha256(data).hexdigest()


