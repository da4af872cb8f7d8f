import bitcoinx as bx
from bitcoinx import (P2PKH_Address, P2SH_Address, P2PK_Output, P2MultiSig_Output,
                      OP_RETURN_Output, Unknown_Output, PublicKey, Script, classify_output_script)
from engine import workload
from lib import COINS
from ref import base58 as b58, ec, scripts
from ref.hashing import hash160

PROP, LEVEL = 'C09', 'exploration'
FILES = ['script.py', 'address.py', 'coin.py']
RULE = ('standard templates, the same with no-ops and dropped pushes inserted, near misses '
        '(mutated bytes, wrong lengths, invalid keys, wrong counts, non-minimal pushes), random '
        'and truncated scripts, for the four coins and freshly made ones in random order. Oracle: '
        'an independent classifier over an independent tokenizer. Distinct by (script, coin).')
REQUIRE = {'pubkeyhash': 300, 'scripthash': 300, 'pubkey': 200, 'multisig': 200, 'op_return': 300,
           'unknown': 1000, 'fresh coins': 50, 'canonical scripts compared': 500,
           'multisig of many keys': 30}
KINDS = {'pubkeyhash': P2PKH_Address, 'scripthash': P2SH_Address, 'pubkey': P2PK_Output,
         'multisig': P2MultiSig_Output, 'op_return': OP_RETURN_Output, 'unknown': Unknown_Output}


def fresh_coin(rng):
    c = rng.choice(COINS)
    return bx.Coin('fresh', c.genesis_header.hex(), c.required_bits, rng.randrange(256),
                   rng.randrange(256), rng.randrange(256), rng.randbytes(4), rng.randbytes(4), 'pfx')


def check(ctx, raw, coin, canonical=False):
    want = scripts.classify(raw)
    kind = want[0]
    ctx.n(kind)
    ctx.case((raw, COINS.index(coin) if coin in COINS else 'fresh'))
    script = Script(raw)
    ops, partial = scripts.strip(raw)
    template, items = script.to_template()
    ctx.eq((template, list(items)), (bytes(76 if isinstance(op, bytes) else op for op in partial) + bytes(ops is None),
                                     [op for op in partial if isinstance(op, bytes)]), 'template', raw.hex())
    out = classify_output_script(script, coin)
    info = (raw.hex(), 'expected', want)
    ctx.eq(bytes(script), raw, 'classifying changed the script')
    ctx.ok(type(out) is KINDS[kind], 'classification', type(out).__name__, *info)
    ctx.eq(out.KIND, kind, 'KIND', *info)
    if kind in ('pubkeyhash', 'scripthash'):
        ctx.eq(out.hash160(), want[1], 'hash', *info)
        ctx.ok(out.coin() is coin, 'coin', out.coin().name, *info)
        ver = coin.P2PKH_verbyte if kind == 'pubkeyhash' else coin.P2SH_verbyte
        ctx.eq(out.to_string(), b58.encode_check(bytes([ver]) + want[1]), 'address', *info)
        if kind == 'pubkeyhash':
            std = b'\x76\xa9\x14' + want[1] + b'\x88\xac'
        else:
            std = b'\xa9\x14' + want[1] + b'\x87'
    elif kind == 'pubkey':
        ctx.eq(out.public_key.to_point(), want[1], 'key', *info)
        ctx.eq(out.public_key.is_compressed(), want[2], 'key compression', *info)
        ser = ec.ser(want[1], want[2])
        address = out.to_address()
        ctx.ok(address.coin() is coin, 'coin of the address', *info)
        ctx.eq(address.hash160(), hash160(ser), 'address hash', *info)
        ctx.eq(out.hash160(), hash160(ser), 'hash', *info)
        std = scripts.min_push(ser) + b'\xac'
    elif kind == 'multisig':
        ctx.eq(out.threshold, want[1], 'threshold', *info)
        ctx.eq([pk.to_point() for pk in out.public_keys], [p for p, _ in want[2]], 'keys', *info)
        ctx.eq([pk.is_compressed() for pk in out.public_keys], [c for _, c in want[2]],
               'key compression', *info)
        ctx.eq(out.public_key_count(), len(want[2]), 'key count', *info)
        num = lambda v: scripts.min_push(scripts.script_num(v))    # noqa: E731
        std = (num(want[1]) + b''.join(scripts.min_push(ec.ser(p, c)) for p, c in want[2])
               + num(len(want[2])) + b'\xae')
        ctx.eq(out.hash160(), hash160(std), 'hash of the redeem script', *info)
    else:
        std = None
    if std is not None:
        ctx.eq(out.to_script_bytes(), std, 'standard script', *info)
        ctx.eq(bytes(out.to_script()), std, 'standard script', *info)
        if canonical:
            ctx.n('canonical scripts compared')
            ctx.eq(std, raw, 'the standard script is not the script classified')
    return out


def rand_coin(ctx, rng):
    if rng.random() < .1:
        ctx.n('fresh coins')
        return fresh_coin(rng)
    return rng.choice(COINS)


def pure_template(rng):
    num = lambda v: scripts.min_push(scripts.script_num(v))    # noqa: E731
    key = lambda: ec.ser(rng.choice(scripts.some_keys()), rng.random() < .6)    # noqa: E731
    kind = rng.randrange(4)
    if kind == 0:
        return b'\x76\xa9\x14' + rng.randbytes(20) + b'\x88\xac'
    if kind == 1:
        return b'\xa9\x14' + rng.randbytes(20) + b'\x87'
    if kind == 2:
        return scripts.min_push(key()) + b'\xac'
    n = rng.choice([1, 1, 2, 2, 3, 3, 5, 15, 16, 17, 20, 21])
    m = rng.randrange(1, n + 1)
    return num(m) + b''.join(scripts.min_push(key()) for _ in range(n)) + num(n) + b'\xae'


@workload(11000, 860000)
def standard(ctx, rng, i):
    raw = pure_template(rng)
    out = check(ctx, raw, rand_coin(ctx, rng), canonical=True)
    ctx.ok(out.KIND != 'unknown', 'standard script unknown', raw.hex())
    ctx.sample(script=raw.hex(), kind=out.KIND)
    ret = b'\x6a' + rng.randbytes(rng.randrange(60))
    ctx.ok(check(ctx, rng.choice([b'', b'\0']) + ret, rand_coin(ctx, rng)).KIND == 'op_return',
           'OP_RETURN script', ret.hex())


@workload(29000, 2900000)
def near_misses(ctx, rng, i):
    raw = scripts.rand_mutated_template(rng) if rng.random() < .6 else scripts.rand_template(rng, .4)
    check(ctx, raw, rand_coin(ctx, rng))
    check(ctx, scripts.mutate(rng, raw), rand_coin(ctx, rng))


@workload(18000, 1400000)
def any_bytes(ctx, rng, i):
    raw = scripts.rand_script(rng) if rng.random() < .5 else rng.randbytes(rng.randrange(60))
    check(ctx, raw, rand_coin(ctx, rng))
    raw = bytes(rng.choice(b'\x76\xa9\x88\xac\xae\x87\x6a\x61\x75\x6d\x51\x52\x00\x14\x21')
                for _ in range(rng.randrange(8)))
    check(ctx, raw, rand_coin(ctx, rng))


@workload(4300, 290000)
def noise(ctx, rng, i):
    '''No-ops and dropped pushes anywhere between operations change nothing.'''
    raw = pure_template(rng)
    ops, _ = scripts.tokenize(raw)
    items = [op for op in ops if isinstance(op, bytes)]
    parts = []
    for op in ops + [None]:
        for _ in range(rng.choice([0, 0, 1, 2])):
            parts.append(scripts.rand_noise(rng, items))
        if op is not None:
            parts.append(scripts.min_push(op) if isinstance(op, bytes) else bytes([op]))
    coin = rand_coin(ctx, rng)
    noisy = check(ctx, b''.join(parts), coin)
    clean = check(ctx, raw, coin)
    ctx.ok(noisy == clean, 'no-ops changed the classification', b''.join(parts).hex())


@workload(1400, 57000)
def multisig_edges(ctx, rng, i):
    '''Bad thresholds, counts and keys at each position.'''
    num = lambda v: scripts.min_push(scripts.script_num(v))    # noqa: E731
    n = rng.randrange(1, 6)
    keys = [ec.ser(rng.choice(scripts.some_keys()), rng.random() < .6) for _ in range(n)]
    for m in (-1, 0, 1, n, n + 1, 255, 2**31):
        for count in (n - 1, n, n + 1, -n, 0, 256 + n):
            raw = num(m) + b''.join(map(scripts.min_push, keys)) + num(count) + b'\xae'
            out = check(ctx, raw, rand_coin(ctx, rng))
            ctx.eq(out.KIND == 'multisig', count == n and 1 <= m <= n, 'multisig', m, count, n)
    pos = rng.randrange(n)
    bad = list(keys)
    bad[pos] = rng.choice([b'', bytes(33), keys[pos][:-1], b'\x05' + keys[pos][1:],
                           b'\x04' + bytes(64), b'\x02' + b'\xff' * 32])
    raw = num(1) + b''.join(map(scripts.min_push, bad)) + num(n) + b'\xae'
    ctx.eq(check(ctx, raw, rand_coin(ctx, rng)).KIND, 'unknown', 'multisig with a bad key')
    raw = num(1) + b''.join(map(scripts.min_push, keys)) + num(n) + b'\xae'
    for extra in (b'\x0a', b'\x51', b'\xac', b'\n'):
        check(ctx, raw + extra, rand_coin(ctx, rng))
        check(ctx, extra + raw, rand_coin(ctx, rng))


@workload(710, 29000)
def constructors(ctx, rng, i):
    '''Direct construction refuses what classification would not return.'''
    coin = rand_coin(ctx, rng)
    for cls in (P2PKH_Address, P2SH_Address):
        for bad in (b'', bytes(19), bytes(21), bytes(32)):
            ctx.raises(ValueError, 'bad hash accepted', cls, bad, coin)
        for bad in (None, '00' * 20, bytearray(20), 5):
            ctx.raises((TypeError, ValueError), 'bad hash accepted', cls, bad, coin)
    pts = [rng.choice(scripts.some_keys()) for _ in range(rng.randrange(1, 5))]
    keys = [PublicKey.from_bytes(ec.ser(p, rng.random() < .5)) for p in pts]
    for m in (0, -1, len(keys) + 1):
        ctx.raises(ValueError, 'bad threshold accepted', P2MultiSig_Output, keys, m)
    m = rng.randrange(1, len(keys) + 1)
    out = P2MultiSig_Output([rng.choice([k, k.to_bytes(), k.to_hex()]) for k in keys], m)
    back = classify_output_script(out.to_script(), coin)
    ctx.ok(back == out, 'multisig output is not classified as itself', bytes(out.to_script()).hex())
    ctx.case(bytes(out.to_script()))
    if i % 20 == 0:
        # more keys than small integers, and than one signed byte, count
        n = rng.choice([15, 16, 17, 20, 127, 128, 129, 255, 256, 300])
        many = [rng.choice(keys) for _ in range(n)]
        m = rng.choice([1, 16, 17, n - 1, n]) if n > 17 else n
        out = P2MultiSig_Output(many, m)
        raw = (scripts.min_push(scripts.script_num(m)) + b''.join(scripts.min_push(k.to_bytes()) for k in many)
               + scripts.min_push(scripts.script_num(n)) + b'\xae')
        ctx.eq(out.to_script_bytes(), raw, 'multisig script', m, n)
        back = classify_output_script(bx.Script(raw), coin)
        ctx.ok(type(back) is P2MultiSig_Output and back.threshold == m and list(back.public_keys) == many,
               'multisig script of many keys', m, n)
        ctx.n('multisig of many keys')
    pk = P2PK_Output(keys[0], coin)
    ctx.ok(classify_output_script(pk.to_script(), coin) == pk, 'P2PK output not classified as itself')
    ctx.raises(Exception, 'unknown output has a script', Unknown_Output().to_script)
