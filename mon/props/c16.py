import bitcoinx as bx
from bitcoinx import P2PK_Output, PrivateKey, PublicKey
from engine import workload
from lib import COINS
from ref import base58 as b58, ec, scripts
from ref.hashing import hash160

PROP, LEVEL = 'C16', 'exploration'
FILES = ['keys.py', 'misc.py', 'address.py']
RULE = ('points of scalars at the ends of the range and random ones, points with small and nearly '
        'maximal x coordinates; every prefix byte, all lengths up to 70, coordinates at and above the '
        'field prime, points off the curve, single-byte changes of valid encodings. Oracle: '
        'independent curve arithmetic. Distinct by bytes given.')
REQUIRE = {'points': 800, 'parsed': 3000, 'refused': 8000, 'near-prime coordinates': 100,
           'coordinates that are not reduced': 600}
RANGE = (ValueError, OverflowError)


def rand_point(rng):
    '''A point on the curve, not always with a known discrete logarithm.'''
    if rng.random() < .5:
        return ec.mul_g(ec.rand_scalar(rng))
    while True:
        x = rng.choice([rng.randrange(0, 100), ec.P - rng.randrange(1, 100), rng.randrange(ec.P),
                        ec.N + rng.randrange(ec.P - ec.N), rng.getrandbits(rng.randrange(1, 250))])
        pt = ec.lift_x(x, rng.random() < .5)
        if pt is not ec.INF:
            return pt


def check(ctx, key, pt, compressed, coin, *info):
    both = ec.ser(pt, True), ec.ser(pt, False)
    own = both[0] if compressed else both[1]
    ctx.eq(bool(key.is_compressed()), compressed, 'compression', *info)
    ctx.ok(key.coin() is coin, 'coin', *info)
    ctx.eq(key.to_bytes(), own, 'bytes', *info)
    ctx.ok(type(key.to_bytes()) is bytes, 'type')
    ctx.eq(key.to_bytes(compressed=True), both[0], 'compressed bytes', *info)
    ctx.eq(key.to_bytes(compressed=False), both[1], 'uncompressed bytes', *info)
    ctx.eq(key.to_bytes(compressed=None), own, 'own form', *info)
    ctx.eq(key.to_hex(), own.hex(), 'hex', *info)
    ctx.eq(str(key), own.hex(), 'str', *info)
    ctx.eq(key.to_hex(compressed=True), both[0].hex(), 'compressed hex', *info)
    ctx.eq(key.to_hex(compressed=False), both[1].hex(), 'uncompressed hex', *info)
    ctx.eq(tuple(key.to_point()), pt, 'point', *info)
    hashes = hash160(both[0]), hash160(both[1])
    ctx.eq(key.hash160(), hash160(own), 'hash160', *info)
    ctx.eq(key.hash160(compressed=True), hashes[0], 'compressed hash160', *info)
    ctx.eq(key.hash160(compressed=False), hashes[1], 'uncompressed hash160', *info)
    for form, h in ((None, hash160(own)), (True, hashes[0]), (False, hashes[1])):
        for other in (None, COINS[1]):
            use = other or coin
            address = key.to_address(compressed=form, coin=other)
            ctx.eq(address.hash160(), h, 'hash of the address', *info)
            ctx.ok(address.coin() is use, 'coin of the address', *info)
            ctx.eq(address.to_string(), b58.encode_check(bytes([use.P2PKH_verbyte]) + h),
                   'address', *info)
    ctx.eq(bytes(key.P2PK_script()), scripts.min_push(own) + b'\xac', 'P2PK script', *info)
    ctx.eq(bytes(key.P2PKH_script()), b'\x76\xa9\x14' + hash160(own) + b'\x88\xac',
           'P2PKH script', *info)
    ctx.eq(P2PK_Output(key, coin).hash160(), hash160(own), 'hash160 of the output', *info)


@workload(1600, 110000)
def forms(ctx, rng, i):
    pt = rand_point(rng)
    ctx.n('points')
    ctx.case(pt)
    for compressed in (True, False):
        raw = ec.ser(pt, compressed)
        for key in (PublicKey.from_bytes(raw), PublicKey.from_hex(raw.hex()),
                    PublicKey.from_hex(raw.hex().upper())):
            ctx.n('parsed')
            check(ctx, key, pt, compressed, bx.Bitcoin, raw.hex())
            other = key.complement()
            check(ctx, other, pt, not compressed, bx.Bitcoin, raw.hex())
            check(ctx, other.complement(), pt, compressed, bx.Bitcoin, raw.hex())
            check(ctx, key, pt, compressed, bx.Bitcoin, raw.hex())
            ctx.ok(other == key and hash(other) == hash(key), 'the complement is not equal')
    point_key = PublicKey.from_point(*pt)
    check(ctx, point_key, pt, False, bx.Bitcoin, pt)
    ctx.ok(point_key == key, 'key of the point not equal')
    ctx.ok(PublicKey.from_bytes(ec.ser(ec.neg(pt))) != key, 'negated point is equal')
    ctx.sample(point=pt)
    k = ec.rand_scalar(rng)
    coin, compressed = COINS[rng.randrange(4)], rng.random() < .5
    key = PrivateKey(k.to_bytes(32, 'big'), compressed, coin).public_key
    check(ctx, key, ec.mul_g(k), compressed, coin, hex(k))
    check(ctx, key.complement(), ec.mul_g(k), not compressed, coin, hex(k))
    if i % 8 == 0:
        # Extended keys are public keys as well
        master = bx.BIP32PrivateKey.from_seed(rng.randbytes(16), coin)
        v = master.to_int()
        for key in (master.public_key, bx.bip32_key_from_string(master.public_key.to_extended_key_string())):
            ctx.n('extended keys')
            own = COINS[1] if key is not master.public_key and coin is not COINS[0] else coin
            other = key.complement()
            for _ in range(2):
                check(ctx, other, ec.mul_g(v), False, own, hex(v))
                check(ctx, other.complement(), ec.mul_g(v), True, own, hex(v))
            ctx.eq(key.to_bytes(), ec.ser(ec.mul_g(v)), 'bytes of the extended key')
            ctx.eq(key.to_bytes(compressed=False), ec.ser(ec.mul_g(v), False), 'bytes of the extended key')


def judge(ctx, raw):
    pt = ec.parse(raw)
    ctx.case(raw)
    if pt is None:
        ctx.n('refused')
        ctx.raises(ValueError, 'not a point', PublicKey.from_bytes, raw)
        ctx.raises(ValueError, 'not a point', PublicKey.from_hex, raw.hex())
    else:
        key = PublicKey.from_bytes(raw)
        ctx.n('parsed')
        ctx.eq(tuple(key.to_point()), pt, 'point', raw.hex())
        ctx.eq(bool(key.is_compressed()), len(raw) == 33, 'compression', raw.hex())
        if raw[0] in (2, 3, 4):
            ctx.eq(key.to_bytes(), raw, 'bytes', raw.hex())


def small_point(rng):
    '''A point with a small x, and one with a small y.'''
    while True:
        pt = ec.lift_x(rng.choice([rng.randrange(1, 978), rng.randrange(2**32 + 977)]),
                       rng.random() < .5)
        if pt is not ec.INF:
            break
    while True:
        y = rng.choice([rng.randrange(1, 978), rng.randrange(2**32 + 977)])
        x = cube_root(y * y - 7)
        if x is not None:
            return pt, (x, y)


def cube_root(c):
    '''A cube root modulo P, or None.  P is 7 modulo 9.'''
    c %= ec.P
    r = pow(c, (ec.P + 2) // 9, ec.P)
    return r if pow(r, 3, ec.P) == c else None


@workload(810, 57000)
def hostile(ctx, rng, i):
    pt = rand_point(rng)
    x, y = (v.to_bytes(32, 'big') for v in pt)
    for prefix in [rng.randrange(256) for _ in range(4)] + [0, 1, 2, 3, 4, 5, 6, 7, 8]:
        judge(ctx, bytes([prefix]) + x)
        judge(ctx, bytes([prefix]) + x + y)
    for size in rng.sample(range(70), 6) + [0, 1, 32, 34, 64, 66]:
        if size not in (33, 65):
            judge(ctx, (bytes([rng.choice([2, 3, 4])]) + x + y + rng.randbytes(10))[:size])
    for v in (ec.P, ec.P + 1, ec.P + rng.randrange(1, 978), 2**256 - 1, ec.P - 1, ec.P - 2):
        ctx.n('near-prime coordinates')
        raw = v.to_bytes(32, 'big')
        judge(ctx, bytes([rng.choice([2, 3])]) + raw)
        judge(ctx, b'\4' + raw + y)
        judge(ctx, b'\4' + x + raw)
    alias = small_point(rng)
    for which in (0, 1):
        a = alias[which]
        if a[which] + ec.P >= 2**256:
            continue
        # the same residue written as a 256-bit number that is not reduced
        big = (a[0] + ec.P, a[1]) if which == 0 else (a[0], a[1] + ec.P)
        ctx.n('coordinates that are not reduced')
        ctx.case(big)
        ctx.eq(tuple(PublicKey.from_point(*a).to_point()), a, 'point with a small coordinate', a)
        ctx.raises(RANGE, 'coordinate not reduced', PublicKey.from_point, *big)
        x2, y2 = (v.to_bytes(32, 'big') for v in big)
        judge(ctx, b'\4' + x2 + y2)
        for prefix in (2, 3):
            judge(ctx, bytes([prefix]) + x2)
        judge(ctx, bytes([6 + (a[1] & 1)]) + x2 + y2)
    for compressed in (True, False):
        raw = bytearray(ec.ser(pt, compressed))
        raw[rng.randrange(len(raw))] ^= 1 << rng.randrange(8)
        judge(ctx, bytes(raw))
    judge(ctx, bytes(33))
    judge(ctx, bytes(65))
    judge(ctx, b'\4' + y + x)
    for bad in ((pt[0], (pt[1] + 1) % ec.P), (pt[1], pt[0]), (pt[0], ec.P), (ec.P, pt[1]), (0, 0),
                (pt[0] + 1, pt[1])):
        if not ec.on_curve(bad):
            ctx.n('refused')
            ctx.raises(RANGE, 'point not on the curve', PublicKey.from_point, *bad)
    for bad in ((-1, pt[1]), (pt[0], -1), (2**256, pt[1]), (pt[0], 2**256 + pt[1])):
        ctx.n('refused')
        ctx.raises(RANGE, 'coordinate out of range', PublicKey.from_point, *bad)
    for bad in (b'', ec.ser(pt), None, 'key', 5, pt):
        ctx.raises(TypeError, 'constructor argument', PublicKey, bad, True)
