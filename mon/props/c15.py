import bitcoinx as bx
from bitcoinx import BIP32Derivation, BIP32PrivateKey, PrivateKey, PublicKey
from engine import workload
from lib import COINS
from ref import ec
from ref.hashing import dsha, sha

PROP, LEVEL = 'C15', 'exploration'
FILES = ['keys.py']
RULE = ('operand pairs drawn from the ends of the scalar range, sums and products that vanish, leading '
        'zeros and random values, with each coin and compression on both sides; key lists of 1 to 8 '
        'with repeated and cancelling members. Oracle: independent secp256k1 in Python, plus '
        'commutation between private and public forms and before/after images of the operands. '
        'Distinct by operands.')
REQUIRE = {'additions': 400, 'multiplications': 400, 'sums of keys': 200, 'shared secrets': 200,
           'vanishing results refused': 100, 'bad scalars refused': 1000,
           'tweaks of extended keys': 150}


def image(key):
    if isinstance(key, PrivateKey):
        return (key.to_bytes(), key.is_compressed(), key.coin(),
                key.public_key.to_bytes(compressed=False), key.public_key.is_compressed(),
                key.public_key.coin())
    return key.to_bytes(compressed=False), key.is_compressed(), key.coin()


def check_priv(ctx, key, secret, compressed, coin, *info):
    ctx.ok(type(key) is PrivateKey, 'kind of key', type(key), *info)
    ctx.eq(key.to_int(), secret, 'secret', *info)
    ctx.eq(bool(key.is_compressed()), compressed, 'compression of the private key', *info)
    ctx.ok(key.coin() is coin, 'coin of the private key', *info)
    check_pub(ctx, key.public_key, ec.mul_g(secret), compressed, coin, *info)


def check_pub(ctx, key, point, compressed, coin, *info):
    ctx.ok(type(key) is PublicKey, 'kind of key', type(key), *info)
    ctx.eq(tuple(key.to_point()), point, 'point', *info)
    ctx.eq(key.to_bytes(), ec.ser(point, compressed), 'serialized point', *info)
    ctx.eq(bool(key.is_compressed()), compressed, 'compression of the public key', *info)
    ctx.ok(key.coin() is coin, 'coin of the public key', *info)


def partner(rng, k):
    '''A scalar related to k, or unrelated.'''
    return rng.choice([ec.N - k, k, pow(k, -1, ec.N), 1, ec.N - 1, ec.rand_scalar(rng),
                       ec.rand_scalar(rng), ec.rand_scalar(rng), (ec.N - k + 1) % ec.N or 1,
                       (ec.N - k - 1) % ec.N or 1])


@workload(3600, 240000)
def tweaks(ctx, rng, i):
    k = ec.EDGE_SCALARS[i] if i < len(ec.EDGE_SCALARS) else ec.rand_scalar(rng)
    coin, compressed = COINS[rng.randrange(4)], rng.random() < .5
    priv = PrivateKey(k.to_bytes(32, 'big'), compressed, coin)
    check_priv(ctx, priv, k, compressed, coin, hex(k))
    before = image(priv)
    pub = priv.public_key
    point = ec.mul_g(k)
    for t in [partner(rng, k), rng.choice([0, ec.N - k, 1, ec.N - 1])]:
        raw = t.to_bytes(32, 'big')
        ctx.case((k, t, compressed, coin.name))
        total = (k + t) % ec.N
        if total:
            ctx.n('additions')
            check_priv(ctx, priv.add(raw), total, compressed, coin, 'add', hex(k), hex(t))
            check_pub(ctx, pub.add(raw), ec.mul_g(total), compressed, coin, 'add', hex(k), hex(t))
        else:
            ctx.n('vanishing results refused')
            ctx.raises(ValueError, 'zero sum', priv.add, raw)
            ctx.raises(ValueError, 'sum at infinity', pub.add, raw)
        product = k * t % ec.N
        if product:
            ctx.n('multiplications')
            check_priv(ctx, priv.multiply(raw), product, compressed, coin, 'mul', hex(k), hex(t))
            want = ec.mul(point, t)
            ctx.eq(want, ec.mul_g(product), 'model disagrees with itself')
            check_pub(ctx, pub.multiply(raw), want, compressed, coin, 'mul', hex(k), hex(t))
        else:
            ctx.n('vanishing results refused')
            ctx.raises(ValueError, 'zero product', priv.multiply, raw)
            ctx.raises(ValueError, 'product at infinity', pub.multiply, raw)
        ctx.eq(image(priv), before, 'operand modified', hex(k), hex(t))
        ctx.eq(pub.to_bytes(compressed=False), ec.ser(point, False), 'public operand modified')
    ctx.sample(k=hex(k), t=hex(t), coin=coin.name, compressed=compressed)


@workload(890, 61000)
def extended_keys(ctx, rng, i):
    '''Keys computed from BIP32 keys are plain: the chain code does not belong to them.'''
    k = ec.EDGE_SCALARS[i] if i < len(ec.EDGE_SCALARS) else ec.rand_scalar(rng)
    coin = COINS[rng.randrange(4)]
    d = BIP32Derivation(rng.randbytes(32), rng.getrandbits(32), rng.randrange(256), rng.randbytes(4))
    priv = BIP32PrivateKey(k.to_bytes(32, 'big'), d, coin)
    pub = priv.public_key
    before = priv.to_extended_key_string(), pub.to_extended_key_string()
    t = rng.choice([0, 0, 1, 1, ec.N - 1, partner(rng, k)])
    raw = t.to_bytes(32, 'big')
    ctx.n('tweaks of extended keys')
    ctx.case((k, t))
    for total, fns in (((k + t) % ec.N, (priv.add, pub.add)),
                       (k * t % ec.N, (priv.multiply, pub.multiply))):
        if total:
            check_priv(ctx, fns[0](raw), total, True, coin, 'extended', hex(k), hex(t))
            check_pub(ctx, fns[1](raw), ec.mul_g(total), True, coin, 'extended', hex(k), hex(t))
        else:
            for fn in fns:
                ctx.raises(ValueError, 'vanishing result', fn, raw)
    other = PrivateKey(ec.rand_scalar(rng).to_bytes(32, 'big'), False)
    s = k * other.to_int() % ec.N
    check_pub(ctx, other.ecdh_shared_secret(pub), ec.mul_g(s), True, coin, 'ecdh')
    check_pub(ctx, priv.ecdh_shared_secret(other.public_key), ec.mul_g(s), False, other.coin(), 'ecdh')
    check_pub(ctx, PublicKey.combine_keys([pub]), ec.mul_g(k), True, coin, 'combined alone')
    ctx.eq((priv.to_extended_key_string(), pub.to_extended_key_string()), before, 'operand modified')


@workload(540, 31000)
def bad_scalars(ctx, rng, i):
    k = ec.rand_scalar(rng)
    priv = PrivateKey(k.to_bytes(32, 'big'), rng.random() < .5, COINS[rng.randrange(4)])
    pub = priv.public_key
    before = image(priv), image(pub)
    for key in (priv, pub):
        for fn in (key.add, key.multiply):
            for v in (ec.N, ec.N + 1, 2**256 - 1, rng.randrange(ec.N, 2**256)):
                ctx.case((k, v))
                ctx.n('bad scalars refused')
                ctx.raises(ValueError, 'scalar out of range', fn, v.to_bytes(32, 'big'))
            for size in (0, 1, 31, 33, 64):
                ctx.n('bad scalars refused')
                ctx.raises(ValueError, 'scalar of wrong size', fn, rng.randbytes(size))
            good = ec.rand_scalar(rng).to_bytes(32, 'big')
            for bad in (good.hex(), bytearray(good), memoryview(good), 1, None, priv, pub, list(good)):
                ctx.n('bad scalars refused')
                ctx.raises(TypeError, 'scalar of wrong type', fn, bad)
    ctx.eq((image(priv), image(pub)), before, 'operand modified by a refused operation')


@workload(1400, 98000)
def combine(ctx, rng, i):
    n = rng.randrange(1, 9)
    secrets = [ec.rand_scalar(rng) for _ in range(n)]
    for _ in range(rng.randrange(0, 3)):
        if n > 1:
            a, b = rng.sample(range(n), 2)
            secrets[a] = rng.choice([secrets[b], ec.N - secrets[b]])
    if rng.random() < .25 and n > 1:        # make the total vanish
        total = sum(secrets[1:]) % ec.N
        if total:
            secrets[0] = ec.N - total
    keys = []
    for s in secrets:
        keys.append(PrivateKey(s.to_bytes(32, 'big'), rng.random() < .5,
                               COINS[rng.randrange(4)]).public_key)
        if rng.random() < .2:       # one not known to belong to a private key
            keys[-1] = PublicKey.from_bytes(keys[-1].to_bytes())
    before = [image(k) for k in keys]
    ctx.case(tuple(secrets))
    total = ec.INF
    for s in secrets:
        total = ec.add(total, ec.mul_g(s))
    arg = tuple(keys) if rng.random() < .3 else list(keys)
    if total is ec.INF:
        ctx.n('vanishing results refused')
        ctx.raises(ValueError, 'sum of keys at infinity', PublicKey.combine_keys, arg)
    else:
        ctx.n('sums of keys')
        ctx.seen('list lengths', n)
        got = PublicKey.combine_keys(arg)
        check_pub(ctx, got, total, before[0][1], before[0][2], 'combined', [hex(s) for s in secrets])
        rest = arg[1:] + arg[:1]
        ctx.ok(PublicKey.combine_keys(rest) == got, 'sum depends on the order')
    ctx.eq([image(k) for k in keys], before, 'combined key modified')
    ctx.ok(len(arg) == n and all(a is b for a, b in zip(arg, keys)), 'list modified')
    ctx.raises(ValueError, 'nothing combined', PublicKey.combine_keys, [])


@workload(8, 200)
def combine_many(ctx, rng, i):
    '''Lists far longer than any in use, with keys repeated and shared.'''
    n = [300, 1025, 2500, 70000][i % 4]
    secrets = [ec.rand_scalar(rng) for _ in range(7)]
    points = [ec.mul_g(s) for s in secrets]
    keys = [PrivateKey(s.to_bytes(32, 'big')).public_key for s in secrets]
    picks = [rng.randrange(7) for _ in range(n)]
    ctx.case((n, tuple(secrets)))
    total = sum(secrets[k] for k in picks) % ec.N
    got = PublicKey.combine_keys([keys[k] for k in picks])
    ctx.ok(got.to_bytes() == ec.ser(ec.mul_g(total), True), 'combined', n)
    ctx.n('sums of many keys')
    ctx.eq([k.to_point() for k in keys], points, 'combined key modified')


@workload(1100, 73000)
def secrets_shared(ctx, rng, i):
    a, b = ec.rand_scalar(rng), ec.rand_scalar(rng)
    A = PrivateKey(a.to_bytes(32, 'big'), rng.random() < .5, COINS[rng.randrange(4)])
    B = PrivateKey(b.to_bytes(32, 'big'), rng.random() < .5, COINS[rng.randrange(4)])
    before = image(A), image(B)
    point = ec.mul_g(a * b % ec.N)
    ctx.n('shared secrets')
    ctx.case((a, b))
    s1, s2 = A.ecdh_shared_secret(B.public_key), B.ecdh_shared_secret(A.public_key)
    check_pub(ctx, s1, point, B.is_compressed(), B.coin(), 'ecdh', hex(a), hex(b))
    check_pub(ctx, s2, point, A.is_compressed(), A.coin(), 'ecdh', hex(a), hex(b))
    ctx.ok(s1 == s2, 'the parties disagree')
    message = rng.randbytes(rng.choice([0, 1, 20, 32, 64]))
    hasher = rng.choice([sha, dsha, bx.sha256, None])
    if hasher is None:
        message = rng.choice([ec.rand_scalar(rng), 0, ec.N - a, ec.N - b, ec.N]).to_bytes(32, 'big')
        t = int.from_bytes(message, 'big')
    else:
        t = int.from_bytes(hasher(message), 'big')
    args = (message, ) if hasher is bx.sha256 else (message, hasher)
    if t >= ec.N or (a + t) % ec.N == 0 or (b + t) % ec.N == 0:
        ctx.n('unusable deterministic keys')
        ctx.raises(ValueError, 'unusable deterministic key', A.shared_secret, B.public_key, *args)
        ctx.raises(ValueError, 'unusable deterministic key', B.shared_secret, A.public_key, *args)
    else:
        point = ec.mul_g((a + t) * (b + t) % ec.N)
        s1 = A.shared_secret(B.public_key, *args)
        s2 = B.shared_secret(A.public_key, *args)
        check_pub(ctx, s1, point, B.is_compressed(), B.coin(), 'shared', hex(a), hex(b), message)
        check_pub(ctx, s2, point, A.is_compressed(), A.coin(), 'shared', hex(a), hex(b), message)
        ctx.ok(s1 == s2, 'the parties disagree')
    bad = rng.randbytes(rng.choice([0, 31, 33, 64]))
    ctx.raises(ValueError, 'deterministic key of wrong size', A.shared_secret, B.public_key, bad, None)
    ctx.eq((image(A), image(B)), before, 'operand modified')
