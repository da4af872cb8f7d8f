import taps
from bitcoinx import BIP32PrivateKey, PrivateKey, bip32_key_from_string
from engine import Inconclusive, workload
from lib import COINS
from ref import bip32, ec
from ref.bip32 import HARD

PROP, LEVEL = 'C24', 'fault_enumeration'
FILES = ['bip32.py', 'keys.py']
RULE = ('HMAC results replaced below the library, per chain code and index, by values at and above the '
        'order, by the value that makes the child vanish, and by values that only look odd (zero, one, '
        'order minus one); runs of 1 to 12 unusable indices starting anywhere, and runs reaching the '
        'last normal and the last hardened index; private and public parents; unusable entropy before '
        'usable. Oracle: BIP32 model under the same faults. Distinct by parent, indices and fault values.')
REQUIRE = {'faults injected': 3000, 'skipped to a later index': 600, 'none left': 200,
           'child refused': 1500, 'odd but usable': 200, 'run lengths': 8, 'random retries': 100}


def faulted(node, values):
    '''A fault function over this parent: index -> left half.'''
    hits = []
    table = {}
    for n, L in values.items():
        if n < HARD:
            msg = ec.ser(node.point)
        elif node.secret is not None:
            msg = b'\0' + node.secret.to_bytes(32, 'big')
        else:
            continue
        table[node.chain, msg + n.to_bytes(4, 'big')] = n, L

    def fault(key, msg, name, true):
        if name == 'sha512' and (key, msg) in table:
            n, L = table[key, msg]
            hits.append(n)
            return L.to_bytes(32, 'big') + true[32:]
        return None
    return fault, hits


def model(node, n, values):
    result = None
    if n in values:
        if n >= HARD:
            msg = b'\0' + node.secret.to_bytes(32, 'big')
        else:
            msg = ec.ser(node.point)
        true = bip32.hmac512(node.chain, msg + n.to_bytes(4, 'big'))
        result = values[n].to_bytes(32, 'big') + true[32:]
    return node.child(n, result)


def image(key):
    d = key.derivation()
    return (type(key).__name__, key.to_bytes(), d.chain_code, d.n, d.depth, d.parent_fingerprint,
            key.coin())


def want_image(node, coin):
    raw = ec.ser(node.point) if node.secret is None else node.secret.to_bytes(32, 'big')
    return ('BIP32PublicKey' if node.secret is None else 'BIP32PrivateKey', raw, node.chain,
            node.index, node.depth, node.parent_fingerprint, coin)


@workload(6400, 330000)
def derivation_faults(ctx, rng, i):
    node = bip32.rand_node(rng, True)
    k = node.secret
    private = rng.random() < .55
    coin = COINS[rng.randrange(2)]
    if not private:
        node = node.neuter()
    key = bip32_key_from_string(node.text(coin))
    hard = private and rng.random() < .5
    base = HARD if hard else 0
    run = rng.randrange(1, 13)
    kind = rng.randrange(4)
    if kind == 0:                      # up to the last index: none left
        start = HARD - run
    elif kind == 1:                    # the last index remains
        start = HARD - 1 - run
    else:
        start = rng.choice([0, 1, 5, rng.randrange(HARD - 20), 255, 65535 - run // 2])
    bad_values = [ec.N, ec.N + 1, 2**256 - 1, rng.randrange(ec.N, 2**256), ec.N - k]
    values = {base + start + j: rng.choice(bad_values) for j in range(run)}
    if rng.random() < .3:              # odd but usable, among them or after
        odd = rng.choice([0, 1, ec.N - 1, k, (2 * ec.N - k + 1) % ec.N])
        if (odd + k) % ec.N:
            n = base + start + rng.randrange(run + 1)
            if base <= n < base + HARD:
                values[n] = odd
                ctx.n('odd but usable')
    ctx.seen('run lengths', run)
    ctx.case((node.payload(coin), tuple(sorted(values.items()))))
    fault, hits = faulted(node, values)
    before = image(key)
    with taps.faulty_hmac(fault):
        for n in range(base + start, base + start + run):
            want = model(node, n, values)
            if want is None:
                ctx.n('child refused')
                ctx.raises(ValueError, 'unusable child returned', key.child, n)
            else:
                ctx.eq(image(key.child(n)), want_image(want, coin), 'child', hex(n))
        for n in {base + start, base + start + rng.randrange(run), base + start + run - 1}:
            want, m = None, n
            while m < base + HARD:
                want = model(node, m, values)
                if want is not None:
                    break
                m += 1
            if want is None:
                ctx.n('none left')
                ctx.raises(ValueError, 'no index left but a child returned', key.child_safe, n)
            else:
                if m > n:
                    ctx.n('skipped to a later index')
                ctx.eq(image(key.child_safe(n)), want_image(want, coin), 'child_safe', hex(n), hex(m),
                       {hex(a): hex(b) for a, b in values.items()})
                if private and not hard:     # the public parent does the same
                    ctx.eq(image(key.public_key.child_safe(n)), want_image(want.neuter(), coin),
                           'public child_safe', hex(n), hex(m))
        if private and kind == 0 and not hard and \
                all(model(node, n, values) is None for n in range(start, HARD)):
            ctx.raises(ValueError, 'public key crossed to hardened', key.public_key.child_safe,
                       base + start)
    if not hits:
        raise Inconclusive('no HMAC call reached the fault injector')
    ctx.n('faults injected', len(hits))
    ctx.eq(image(key), before, 'parent changed')
    ctx.sample(parent=node.text(coin), values={hex(a): hex(b) for a, b in values.items()})


@workload(1600, 89000)
def master_faults(ctx, rng, i):
    seed = rng.randbytes(32)
    L = rng.choice([0, ec.N, ec.N + 1, 2**256 - 1, rng.randrange(ec.N, 2**256), 1, ec.N - 1])

    def fault(key, msg, name, true):
        if msg == seed and name == 'sha512':
            return L.to_bytes(32, 'big') + true[32:]
    ctx.case((seed, L))
    with taps.faulty_hmac(fault):
        if 0 < L < ec.N:
            ctx.eq(BIP32PrivateKey.from_seed(seed, COINS[0]).to_int(), L, 'master key')
        else:
            ctx.n('child refused')
            ctx.raises(ValueError, 'unusable master key', BIP32PrivateKey.from_seed, seed, COINS[0])


@workload(2400, 110000)
def random_retries(ctx, rng, i):
    bad = [v.to_bytes(32, 'big') for v in (0, ec.N, ec.N + 1, 2**256 - 1, rng.randrange(ec.N, 2**256))]
    good = ec.rand_scalar(rng).to_bytes(32, 'big')
    run = rng.randrange(0, 8)
    ctx.n('random retries', run)
    draws = [rng.choice(bad) + rng.randbytes(32) for _ in range(run)] + [good + rng.randbytes(32)]
    ctx.case(tuple(draws))
    feed = iter(draws + [rng.randbytes(64)])
    sizes = []

    def source(n):
        sizes.append(n)
        return next(feed)
    key = BIP32PrivateKey.from_random(source=source)
    ctx.eq(key.to_bytes(), good, 'key', [d.hex() for d in draws])
    d = key.derivation()
    ctx.eq((d.chain_code, d.n, d.depth, d.parent_fingerprint), (draws[-1][32:], 0, 0, bytes(4)),
           'master metadata')
    ctx.eq(sizes, [64] * (run + 1), 'draws')
    feed = iter([d[:32] for d in draws])
    ctx.eq(PrivateKey.from_random(source=lambda n: next(feed)).to_bytes(), good, 'key')
    with taps.entropy(rng.randbytes) as log:
        key = BIP32PrivateKey.from_random()
    ctx.eq(key.to_bytes() + key.derivation().chain_code, log[-1], 'not the entropy drawn')
