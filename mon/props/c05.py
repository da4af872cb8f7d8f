from bitcoinx import Tx
from engine import workload
from lib import edit_tx, lib_tx, lib_txin, model_tx
from ref import wire

PROP, LEVEL = 'C05', 'exploration'
FILES = ['tx.py']
RULE = ('transactions built around every boundary of the locktime, height, timestamp and sequence '
        'rules, and around the null outpoint; distinct by (predicate inputs). Oracle: the '
        'consensus rule restated over the model.')
REQUIRE = {'changed in place': 3000, 'final': 500, 'not final': 500, 'coinbase': 100, 'not coinbase': 100, 'sums': 300, 'many inputs': 60}
T = 500_000_000
MAX = 0xffffffff


def is_final(t, height, timestamp):
    lock = t[3]
    if lock == 0:
        return True
    if lock < T and lock < height:
        return True
    if lock >= T and lock < timestamp:
        return True
    return all(i[3] == MAX for i in t[1])


@workload(24000, 3000000)
def finality(ctx, rng, i):
    lock = rng.choice([0, 1, 2, T - 1, T, T + 1, MAX, MAX - 1, rng.randrange(1, 10**6),
                       rng.randrange(T, 2**31), 2**31, rng.getrandbits(32)])
    seqs = [MAX if rng.random() < .6 else rng.choice([0, 1, MAX - 1, 2**31, rng.getrandbits(32)])
            for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    t = (1, [wire.rand_txin(rng)[:3] + (s, ) for s in seqs], [], lock)
    tx = lib_tx(t)
    heights = {lock - 1, lock, lock + 1, 0, 1, T, T - 1, T + 1, MAX, rng.randrange(10**7)}
    times = {lock - 1, lock, lock + 1, 0, T - 1, T, T + 1, MAX, rng.randrange(T, 2**32)}
    for _ in range(14):
        height, timestamp = rng.choice(sorted(heights)), rng.choice(sorted(times))
        want = is_final(t, height, timestamp)
        ctx.n('final' if want else 'not final')
        ctx.case((lock, tuple(seqs), height, timestamp))
        ctx.eq(bool(tx.is_final_for_block(height, timestamp)), want, 'finality', 'locktime', lock,
               'sequences', seqs, 'height', height, 'timestamp', timestamp)
    ctx.eq(bool(tx.are_inputs_final()), all(s == MAX for s in seqs), 'inputs final', seqs)
    for txin, s in zip(tx.inputs, seqs):
        ctx.eq(bool(txin.is_final()), s == MAX, 'input final', s)
    ctx.eq(model_tx(tx), t, 'transaction changed')
    ctx.sample(locktime=lock, sequences=seqs)


@workload(320, 40000)
def many_inputs(ctx, rng, i):
    '''One input decides, wherever it is among many.'''
    n = rng.choice([8, 100, 251, 252, 253, 254, 255, 256, 257, 300, 600, 1025])
    odd = rng.choice([None, 0, n - 1, n - 1, n // 2, 252, 253, 255, 256, rng.randrange(n)])
    base = wire.rand_txin(rng)[:3]
    final = rng.random() < .8
    seqs = [MAX if final else MAX - 1] * n
    if odd is not None and odd < n:
        seqs[odd] = rng.choice([0, MAX - 1, 2**31]) if final else MAX
    lock = rng.choice([100, T + 100])
    t = (1, [base + (s, ) for s in seqs], [], lock)
    want = all(s == MAX for s in seqs)
    for tx in (lib_tx(t), Tx.from_bytes(wire.tx_bytes(t))):
        ctx.n('many inputs')
        ctx.case((n, odd, final, lock))
        ctx.eq(bool(tx.are_inputs_final()), want, 'inputs final', n, odd)
        ctx.eq(bool(tx.is_final_for_block(lock, lock)), want, 'finality', n, odd, lock)
        ctx.eq(bool(tx.is_coinbase()), False, 'coinbase', n)
        ctx.ok(tx.is_final_for_block(101, T + 101), 'past locktime', n, odd, lock)


def near_null(rng):
    r = rng.random()
    prev, idx = bytes(32), MAX
    if r < .4:
        pass
    elif r < .55:
        idx = rng.choice([0, MAX - 1, 2**31, 2**31 - 1, rng.getrandbits(32)])
    elif r < .75:
        b = bytearray(32)
        b[rng.choice([0, 31, rng.randrange(32)])] = rng.choice([1, 128, 255])
        prev = bytes(b)
    elif r < .85:
        prev = b'\xff' * 32
    else:
        prev, idx = rng.randbytes(32), rng.getrandbits(32)
    return (prev, idx, rng.randbytes(rng.randrange(8)), wire.rand_u32(rng))


@workload(24000, 2000000)
def coinbase(ctx, rng, i):
    ins = [near_null(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 253]))]
    t = (1, ins, [wire.rand_txout(rng)], wire.rand_u32(rng))
    raw = wire.tx_bytes(t)
    null = [m[0] == bytes(32) and m[1] == MAX for m in ins]
    want = null == [True]
    for tx in (lib_tx(t), Tx.from_bytes(raw)):
        ctx.eq(bool(tx.is_coinbase()), want, 'coinbase', raw.hex())
        for txin, n in zip(tx.inputs, null):
            ctx.eq(bool(txin.is_coinbase()), n, 'coinbase input', raw.hex())
    ctx.n('coinbase' if want else 'not coinbase')
    ctx.case(raw)
    m = near_null(rng)
    ctx.eq(bool(lib_txin(m).is_coinbase()), m[0] == bytes(32) and m[1] == MAX, 'coinbase input', m)


@workload(8000, 600000)
def totals(ctx, rng, i):
    values = [wire.rand_value(rng) for _ in range(rng.choice([0, 1, 2, 3, 10, 300]))]
    t = (1, [], [(v, b'') for v in values], 0)
    total = 0
    for v in values:
        total += v
    ctx.n('sums')
    ctx.case(tuple(values))
    if values and rng.random() < .3:
        values += rng.choices(values, k=3)
        t, total = (1, [], [(v, b'') for v in values], 0), sum(values[::-1])
    for share in (False, True):
        got = lib_tx(t, share).total_output_value()
        ctx.ok(isinstance(got, int) and got == total, 'total output value', got, total, values)


@workload(600, 120000)
def edited(ctx, rng, i):
    '''The answers follow changes made to a transaction in place.'''
    lock = rng.choice([1, 100, T - 1, T, T + 100])
    t = (1, [rng.choice([near_null(rng), (bytes(32), MAX, b'', MAX)]) for _ in range(rng.choice([1, 1, 2]))],
         [wire.rand_txout(rng) for _ in range(rng.choice([1, 2]))], lock)
    tx = lib_tx(t, False)
    for step in range(12):
        if rng.random() < .5:
            k = rng.randrange(len(t[1]))
            m = list(t[1][k])
            which = rng.choice([0, 1, 3, 3])
            m[which] = rng.choice([bytes(32), bytes(31) + b'\1']) if which == 0 else rng.choice([MAX, MAX, MAX - 1])
            name = ('prev_hash', 'prev_idx', 'script_sig', 'sequence')[which]
            setattr(tx.inputs[k], name, m[which])
            t[1][k] = tuple(m)
        elif rng.random() < .5:
            tx.locktime = lock = rng.choice([0, 1, 100, 101, T - 1, T, T + 100, MAX])
            t = t[:3] + (lock, )
        else:
            t, _kind = edit_tx(rng, t, tx)
        lock = t[3]
        for height, timestamp in ((lock, lock), (lock + 1, 0), (0, lock + 1), (101, T + 101)):
            ctx.eq(bool(tx.is_final_for_block(height, timestamp)), is_final(t, height, timestamp),
                   'finality after a change', t, height, timestamp)
        ctx.eq(bool(tx.are_inputs_final()), all(m[3] == MAX for m in t[1]), 'inputs final after a change', t)
        ctx.eq(bool(tx.is_coinbase()), [m[:2] for m in t[1]] == [(bytes(32), MAX)], 'coinbase after a change', t)
        ctx.eq([bool(txin.is_coinbase()) for txin in tx.inputs], [m[:2] == (bytes(32), MAX) for m in t[1]],
               'coinbase input after a change', t)
        ctx.eq([bool(txin.is_final()) for txin in tx.inputs], [m[3] == MAX for m in t[1]],
               'input final after a change', t)
        ctx.eq(tx.total_output_value(), sum(m[0] for m in t[2]), 'total output value after a change', t)
        ctx.n('changed in place')
        ctx.case((i, step))
