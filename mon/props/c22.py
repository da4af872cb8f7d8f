from bitcoinx import BIP32PrivateKey, BIP32PublicKey, bip32_key_from_string
from engine import workload
from lib import COINS
from ref import base58 as b58, bip32, ec
from ref.bip32 import HARD

PROP, LEVEL = 'C22', 'exploration'
FILES = ['bip32.py', 'keys.py', 'hashes.py']
RULE = ('seeds of 0 to 64 bytes, keys at the ends of the range with leading zeros, odd depths, indices '
        'around the hardened boundary and byte boundaries; random paths to depth 8 and single paths to '
        'depth 255, switching to public derivation at every point; out-of-range indices. Oracle: '
        'independent BIP32. Distinct by key and path.')
REQUIRE = {'derivations': 4000, 'public derivations': 2000, 'refused': 2000, 'indices': 100,
           'depths': 60}


def check(ctx, key, node, coin, *info):
    ctx.n('derivations')
    ctx.seen('indices', node.index)
    ctx.seen('depths', node.depth)
    private = node.secret is not None
    ctx.ok(isinstance(key, BIP32PrivateKey if private else BIP32PublicKey), 'kind of key', *info)
    if private:
        ctx.eq(key.to_int(), node.secret, 'secret', *info)
        pub = key.public_key
        ctx.ok(isinstance(pub, BIP32PublicKey), 'kind of public key')
        check(ctx, pub, node.neuter(), coin, *info)
    else:
        ctx.eq(key.to_bytes(), ec.ser(node.point), 'public key', *info)
        ctx.eq(tuple(key.to_point()), node.point, 'point', *info)
    ctx.ok(key.coin() is coin, 'coin', *info)
    ctx.ok(key.is_compressed(), 'compressed')
    d = key.derivation()
    ctx.eq((d.chain_code, d.n, d.depth, d.parent_fingerprint),
           (node.chain, node.index, node.depth, node.parent_fingerprint), 'derivation', *info)
    ctx.eq(key.identifier(), node.identifier, 'identifier', *info)
    ctx.eq(key.fingerprint(), node.identifier[:4], 'fingerprint', *info)
    if node.depth <= 255 and coin is not None:
        ctx.eq(key.to_extended_key_string(), node.text(coin), 'extended key string', *info)


def image(key):
    d = key.derivation()
    return (key.to_bytes(), key.coin(), d.chain_code, d.n, d.depth, d.parent_fingerprint,
            key.fingerprint(), key.to_extended_key_string())


@workload(680, 40000)
def paths(ctx, rng, i):
    coin = COINS[rng.randrange(4)]
    if rng.random() < .5:
        seed = rng.randbytes(rng.choice([0, 16, 32, 64, rng.randrange(100)]))
        node = bip32.master(seed)
        key = BIP32PrivateKey.from_seed(seed, coin)
        check(ctx, key, node, coin, 'seed', seed.hex())
    else:
        node = bip32.rand_node(rng, True)
        coin = COINS[rng.randrange(2)]
        key = bip32_key_from_string(node.text(coin))
        check(ctx, key, node, coin, 'parsed')
    start = node.text(coin)
    path = []
    for _ in range(rng.randrange(1, 9)):
        if node.depth >= 254:
            break
        n = bip32.rand_index(rng, True)
        path.append(n)
        want = node.child(n)
        if want is None:
            break
        before = image(key), image(key.public_key)
        got = key.child(n)
        ctx.case((start, tuple(path)))
        check(ctx, got, want, coin, start, path)
        ctx.ok(image(key.child_safe(n)) == image(got), 'child_safe differs', start, path)
        if n < HARD:
            # three routes to the same public child
            for pub in (key.public_key, bip32_key_from_string(node.neuter().text(coin))
                        if coin in COINS[:2] else key.public_key):
                ctx.n('public derivations')
                sub = pub.child(n)
                check(ctx, sub, want.neuter(), coin, start, path)
                ctx.ok(sub == got.public_key, 'public and private derivation differ', start, path)
                ctx.ok(image(pub.child_safe(n)) == image(sub), 'child_safe differs', start, path)
        else:
            ctx.n('refused')
            ctx.raises(ValueError, 'hardened child of a public key', key.public_key.child, n)
            ctx.raises(ValueError, 'hardened child of a public key', key.public_key.child_safe, n)
        ctx.eq((image(key), image(key.public_key)), before, 'parent changed', start, path)
        key, node = got, want
    # continue publicly
    pub, pnode = key.public_key, node.neuter()
    for _ in range(rng.randrange(0, 4)):
        if pnode.depth >= 254:
            break
        n = bip32.rand_index(rng, False)
        want = pnode.child(n)
        if want is None:
            break
        pub = pub.child(n)
        ctx.n('public derivations')
        path.append(n)
        check(ctx, pub, want, coin, start, 'then public', path)
        pnode = want
    ctx.sample(start=start, path=path)


@workload(680, 60000)
def single_children(ctx, rng, i):
    node = bip32.rand_node(rng, rng.random() < .6)
    coin = COINS[rng.randrange(2)]
    key = bip32_key_from_string(node.text(coin))
    private = node.secret is not None
    for n in (0, HARD - 1, bip32.rand_index(rng, private), bip32.rand_index(rng, private)):
        want = node.child(n)
        ctx.case((node.payload(coin), n))
        if want is not None:
            if not private:
                ctx.n('public derivations')
            check(ctx, key.child(n), want, coin, node.text(coin), n)
    bads = [-1, 1 << 32, (1 << 32) + rng.randrange(HARD), -HARD, 1 << 64, -(1 << 32) - 5]
    if not private:
        bads += [HARD, HARD + 1, (1 << 32) - 1, rng.randrange(HARD, 1 << 32)]
    for n in bads:
        ctx.n('refused')
        ctx.raises(ValueError, 'index out of range', key.child, n)
        ctx.raises(ValueError, 'index out of range', key.child_safe, n)
    ctx.eq(key.to_extended_key_string(), b58.encode_check(node.payload(coin)), 'unchanged')


@workload(2, 40)
def deep(ctx, rng, i):
    seed = rng.randbytes(32)
    key, node = BIP32PrivateKey.from_seed(seed, COINS[0]), bip32.master(seed)
    publicly = i % 2
    if publicly:
        key, node = key.public_key, node.neuter()
    for depth in range(1, 256):
        n = bip32.rand_index(rng, not publicly)
        node = node.child(n)
        key = key.child(n)
        ctx.case((seed, depth))
        check(ctx, key, node, COINS[0], seed.hex(), depth)
    # Deeper keys have no extended form; they are refused, or have their true depth and do not print
    for depth in range(256, 259):
        n = bip32.rand_index(rng, not publicly)
        try:
            key, node = key.child(n), node.child(n)
        except ValueError:
            break
        check(ctx, key, node, COINS[0], seed.hex(), depth)
        text, e = ctx.outcome(key.to_extended_key_string)
        ctx.n('too deep to print')
        ctx.ok(e is not None, 'key with no extended form printed', text)
