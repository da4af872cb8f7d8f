import hashlib

import bitcoinx as bx
from bitcoinx import InvalidSignatureError, PrivateKey, PublicKey
from engine import workload
from ref import ec
from ref.hashing import dsha, sha

PROP, LEVEL = 'C17', 'exploration'
FILES = ['keys.py', 'signature.py']
RULE = ('keys at the ends of the range and random, messages of 0 to 300 bytes, hashers sha256 (default '
        'and given), double sha256, others, and none with the hash itself from 0 to 2^256-1; '
        'verification of the signature, of its high-S twin, of changed values, messages, keys and '
        'hashers, of independently made signatures with random nonces, and of non-DER bytes. Oracle: '
        'independent RFC 6979 and ECDSA. Distinct by key and hash.')
REQUIRE = {'signatures': 500, 'verified true': 1500, 'verified false': 4000,
           'hash at least the order': 20, 'not an encoding': 500, 'recovery ids': 2,
           'short r or s': 1}
ASSUMPTIONS = ['for a hash not below the curve order RFC 6979 with the hash taken modulo the order and '
               'with its raw bytes are both accepted']


def h3(data):
    return hashlib.sha3_256(data).digest()


def pick_hash(rng):
    '''(message, positional hasher arguments, hash)'''
    kind = rng.randrange(6)
    message = rng.randbytes(rng.choice([0, 1, 31, 32, 33, 64, rng.randrange(300)]))
    if kind <= 1:
        return message, (), sha(message)
    if kind == 2:
        return message, (sha, ), sha(message)
    if kind == 3:
        return message, (bx.double_sha256, ), dsha(message)
    if kind == 4:
        return message, (h3, ), h3(message)
    v = rng.choice([0, 1, ec.N, ec.N - 1, ec.N + 1, 2**256 - 1, rng.randrange(ec.N, 2**256),
                    rng.getrandbits(256), rng.getrandbits(100)])
    msg32 = v.to_bytes(32, 'big')
    return msg32, (None, ), msg32


def call(fn, rng, args, hasher):
    '''Positionally or by keyword.'''
    if hasher and rng.random() < .5:
        return fn(*args, hasher=hasher[0])
    return fn(*args, *hasher)


@workload(600, 25000)
def sign_and_verify(ctx, rng, i):
    k = ec.EDGE_SCALARS[i] if i < len(ec.EDGE_SCALARS) else ec.rand_scalar(rng)
    secret = k.to_bytes(32, 'big')
    priv = PrivateKey(secret, rng.random() < .5)
    point = ec.mul_g(k)
    message, hasher, z = pick_hash(rng)
    ctx.case((k, z))
    ctx.n('signatures')
    wants = [ec.ecdsa_sign(z, secret)]
    if int.from_bytes(z, 'big') >= ec.N:
        ctx.n('hash at least the order')
        wants.append(ec.ecdsa_sign(z, secret, True))
    der = call(priv.sign, rng, (message, ), hasher)
    rec = call(priv.sign_recoverable, rng, (message, ), hasher)
    ctx.ok(type(der) is bytes and type(rec) is bytes, 'type of a signature')
    ctx.ok(der in [ec.der(r, s) for r, s, _ in wants], 'DER signature', der.hex(), hex(k), z.hex())
    compacts = [r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([recid])
                for r, s, recid in wants]
    ctx.ok(rec in compacts, 'recoverable signature', rec.hex(), hex(k), z.hex())
    r, s, recid = wants[compacts.index(rec)]
    ctx.seen('recovery ids', recid)
    if min(r, s) < 2**248:
        ctx.n('short r or s')
    ctx.eq(call(priv.sign, rng, (message, ), hasher), der, 'signing again')
    ctx.eq(call(PrivateKey(secret).sign_recoverable, rng, (message, ), hasher), rec, 'signing again')
    pub = rng.choice([priv.public_key, PublicKey.from_bytes(ec.ser(point, rng.random() < .5))])

    def verdict(key, sig, msg, how, want, *why):
        got = call(key.verify_der_signature, rng, (sig, msg), how)
        ctx.n('verified true' if want else 'verified false')
        ctx.eq(got, want, 'DER verification', *why, sig.hex())

    def verdict_rec(key, r, s, recid, msg, how, want, *why):
        raw = r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([recid])
        if r >= ec.N or s >= ec.N:
            ctx.raises(InvalidSignatureError, 'recoverable value out of range',
                       key.verify_recoverable_signature, raw, msg, *how)
            return
        got = call(key.verify_recoverable_signature, rng, (raw, msg), how)
        ctx.n('verified true' if want else 'verified false')
        ctx.eq(got, want, 'recoverable verification', *why, raw.hex())

    verdict(pub, der, message, hasher, True, 'own signature')
    verdict_rec(pub, r, s, recid, message, hasher, True, 'own signature')
    ctx.ok(call(PublicKey.from_recoverable_signature, rng, (rec, message), hasher) == pub,
           'recovered key', rec.hex(), hex(k))
    ctx.eq(ec.ecdsa_recover(z, r, s, recid), point, 'model recovery')
    verdict(pub, der, z, (None, ), True, 'given the hash')
    # the high-S twin, and other values
    others = [(r, ec.N - s), (r, s ^ 1 or 2), (r ^ 1 or 2, s), (r, s + 1), (s, r),
              (ec.N - r, s), (0, s), (r, 0), (rng.randrange(1, ec.N), rng.randrange(1, ec.N)),
              (r ^ 1 << rng.randrange(256), s), (r, s ^ 1 << rng.randrange(256))]
    for r2, s2 in others:
        if r2 < ec.N and s2 < ec.N:
            verdict(pub, ec.der(r2, s2), message, hasher,
                    ec.ecdsa_verify(z, r2, s2, point), 'altered values')
        if r2 < 2**256 and s2 < 2**256:
            verdict_rec(pub, r2, s2, recid, message, hasher,
                        r2 < ec.N and s2 < ec.N and ec.ecdsa_verify(z, r2, s2, point),
                        'altered values')
    # another message, hasher or key
    z2 = bytearray(z)
    z2[rng.randrange(32)] ^= 1 << rng.randrange(8)
    verdict(pub, der, bytes(z2), (None, ), ec.ecdsa_verify(bytes(z2), r, s, point), 'altered hash')
    if hasher != (None, ):
        m2 = rng.choice([message + b'\0', b'\0' + message, message + message or b'x'])
        verdict(pub, der, m2, hasher, False, 'altered message')
        verdict_rec(pub, r, s, recid, m2, hasher, False, 'altered message')
        wrong = h3 if hasher != (h3, ) else sha
        verdict(pub, der, message, (wrong, ), False, 'another hasher')
    for point2 in (ec.neg(point), ec.mul_g(ec.rand_scalar(rng)), ec.add(point, ec.G)):
        if point2 is not ec.INF:
            key2 = PublicKey.from_bytes(ec.ser(point2))
            want = ec.ecdsa_verify(z, r, s, point2)
            verdict(key2, der, message, hasher, want, 'another key')
            verdict_rec(key2, r, s, recid, message, hasher, want, 'another key')
    # an independent signature with a random nonce
    made = ec.sign_with_nonce(int.from_bytes(z, 'big'), k, ec.rand_scalar(rng))
    if made:
        verdict(pub, ec.der(*made[:2]), message, hasher, True, 'independent signature')
        verdict_rec(pub, *made, message, hasher, True, 'independent signature')
        raw = made[0].to_bytes(32, 'big') + made[1].to_bytes(32, 'big') + bytes([made[2]])
        ctx.ok(PublicKey.from_recoverable_signature(raw, z, None) == pub, 'recovered key')
    ctx.sample(key=hex(k), hash=z.hex(), der=der.hex())
    # not encodings
    for bad in (b'', der[:-1], der + b'\0', der[1:], b'\x31' + der[1:], rec, rec[:64],
                rng.randbytes(rng.randrange(80)), der[:rng.randrange(len(der))],
                der + b'\x41'):
        if ec.der_parse(bad) is None:
            ctx.n('not an encoding')
            ctx.raises(InvalidSignatureError, 'not DER', call, pub.verify_der_signature, rng,
                       (bad, message), hasher)
    for bad in (rec[:64], rec + b'\0', b'', rec[:64] + bytes([rng.randrange(4, 256)]),
                rng.randbytes(rng.randrange(64)), rec[:64] + b'\4', bytes(33) * 2):
        ctx.n('not an encoding')
        ctx.raises(InvalidSignatureError, 'not a recoverable signature', call,
                   pub.verify_recoverable_signature, rng, (bad, message), hasher)
        ctx.raises(InvalidSignatureError, 'not a recoverable signature', call,
                   PublicKey.from_recoverable_signature, rng, (bad, message), hasher)


@workload(60, 1000)
def wrong_hash_sizes(ctx, rng, i):
    priv = PrivateKey(ec.rand_scalar(rng).to_bytes(32, 'big'))
    pub = priv.public_key
    der, rec = priv.sign(b'x'), priv.sign_recoverable(b'x')
    for size in list(range(0, 32)) + [33, 48, 64]:
        data = rng.randbytes(size)
        ctx.case(data)
        for fn, args in ((priv.sign, ()), (priv.sign_recoverable, ()),
                         (pub.verify_der_signature, (der, )),
                         (pub.verify_recoverable_signature, (rec, )),
                         (PublicKey.from_recoverable_signature, (rec, ))):
            ctx.raises(ValueError, 'hash of wrong size', fn, *args, data, None)
            ctx.raises(ValueError, 'hash of wrong size', fn, *args, b'abc', lambda _m: data)


@workload(150, 4000)
def recover_any(ctx, rng, i):
    '''Recovery from arbitrary values, including r for which x = r + order is on the curve.'''
    z = rng.randbytes(32)
    s = rng.choice([ec.rand_scalar(rng), ec.rand_scalar(rng), 1, ec.N - 1, 0, ec.N])
    kind = rng.randrange(3)
    if kind == 0:
        r = rng.randrange(ec.P - ec.N)
    elif kind == 1:
        r = rng.choice([0, 1, ec.N - 1, ec.N, 2**256 - 1, ec.P - ec.N, ec.P - ec.N - 1])
    else:
        r = ec.rand_scalar(rng)
    for recid in range(4):
        raw = r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([recid])
        ctx.case((raw, z))
        want = ec.ecdsa_recover(z, r, s, recid)
        if want is None or want is ec.INF:
            ctx.n('unrecoverable')
            ctx.raises(InvalidSignatureError, 'unrecoverable signature',
                       PublicKey.from_recoverable_signature, raw, z, None)
        else:
            ctx.n(f'recovered with id {recid}')
            key = PublicKey.from_recoverable_signature(raw, z, None)
            ctx.eq(tuple(key.to_point()), want, 'recovered point', raw.hex(), z.hex())
            ctx.ok(key.is_compressed(), 'recovered key is compressed')
            low = s <= ec.N // 2
            ctx.eq(key.verify_recoverable_signature(raw, z, None), low, 'verifies', raw.hex())
