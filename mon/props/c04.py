from bitcoinx import Script, SigHash, Tx
from engine import workload
from lib import lib_tx, lib_txin, lib_txout, model_tx
from ref import wire, scripts
from ref.hashing import dsha

PROP, LEVEL = 'C04', 'exploration'
FILES = ['tx.py', 'signature.py']
RULE = ('random transactions, every input, all 256 sighash bytes and wider ones, with more and '
        'fewer outputs than inputs; repeated and interleaved calls on one object with edits in '
        'between. Oracle: the fork-id preimage assembled independently. Distinct by preimage.')
REQUIRE = {'hashes': 5000, 'SINGLE with output': 100, 'SINGLE without output': 100,
           'anyone can pay': 500, 'unusual bits': 500, 'many inputs and outputs': 100, 'rejections observed': 100}


def preimage(t, index, value, script, sighash):
    base, acp = sighash & 0x1f, sighash & 0x80
    version, ins, outs, locktime = t
    zero = bytes(32)
    prevouts = zero if acp else dsha(b''.join(i[0] + i[1].to_bytes(4, 'little') for i in ins))
    sequence = zero if acp or base in (2, 3) else dsha(
        b''.join(i[3].to_bytes(4, 'little') for i in ins))
    if base == 3:
        outputs = dsha(wire.txout_bytes(outs[index])) if index < len(outs) else zero
    elif base == 2:
        outputs = zero
    else:
        outputs = dsha(b''.join(map(wire.txout_bytes, outs)))
    i = ins[index]
    return (wire.le(version, 4) + prevouts + sequence + i[0] + i[1].to_bytes(4, 'little')
            + wire.varbytes(script) + value.to_bytes(8, 'little') + i[3].to_bytes(4, 'little')
            + outputs + locktime.to_bytes(4, 'little') + sighash.to_bytes(4, 'little'))


def rand_sighash(rng):
    r = rng.random()
    if r < .5:
        return rng.choice([1, 2, 3, 0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x81, 0x82, 0x83, 0x61,
                           0x22, 0x23, 0x62, 0x63, 0x12, 0x13])
    if r < .85:
        return rng.randrange(256)
    return rng.choice([0x100 | rng.randrange(256), rng.getrandbits(32), 2**32 - 1, 2**31])


def rand_spend(rng):
    value = rng.choice([0, 1, 546, 2**32, 21 * 10**14, 2**63 - 1, rng.randrange(10**12)])
    script = rng.choice([b'', scripts.rand_script(rng), rng.randbytes(rng.choice(
        [25, 252, 253, 254, 300])), b'\xab' + scripts.rand_script(rng) + b'\xab'])
    return value, script


def check(ctx, tx, t, index, value, script, sighash, wrap):
    want = preimage(t, index, value, script, sighash)
    ctx.case(want)
    ctx.n('hashes')
    base = sighash & 0x1f
    if base == 3:
        ctx.n('SINGLE with output' if index < len(t[2]) else 'SINGLE without output')
    if sighash & 0x80:
        ctx.n('anyone can pay')
    if sighash & ~0xc3 or not sighash & 3:
        ctx.n('unusual bits')
    got = tx.signature_hash(index, value, Script(script) if wrap else script,
                            sighash=SigHash(sighash))
    ctx.eq(got, dsha(want), 'signature hash', hex(sighash), 'index', index, 'of', len(t[1]),
           'outputs', len(t[2]), 'value', value, wire.tx_bytes(t).hex())


@workload(4800, 500000)
def random_txs(ctx, rng, i):
    t = wire.rand_tx(rng, counts=[1, 1, 2, 3, 4, 6])
    if rng.random() < .1:
        t = (t[0], t[1], [], t[3])
    tx = lib_tx(t, rng.random() < .3) if rng.random() < .5 else Tx.from_bytes(wire.tx_bytes(t))
    calls = [(rng.randrange(len(t[1])), *rand_spend(rng), rand_sighash(rng), rng.random() < .5)
             for _ in range(16)]
    for call in calls:
        check(ctx, tx, t, *call)
    ctx.eq(model_tx(tx), t, 'computing a hash changed the transaction')
    rng.shuffle(calls)
    for call in calls[:6]:
        check(ctx, tx, t, *call)
    index, value, script = rng.randrange(len(t[1])), *rand_spend(rng)
    ctx.eq(tx.signature_hash(index, value, script), dsha(preimage(t, index, value, script, 0x41)),
           'default sighash')
    ctx.sample(tx=wire.tx_bytes(t).hex(), calls=calls[0])


@workload(240, 10000)
def all_sighash_bytes(ctx, rng, i):
    t = wire.rand_tx(rng, counts=[2, 3])
    t = (t[0], t[1], t[2][:rng.randrange(len(t[2]) + 1)], t[3])
    tx = lib_tx(t)
    value, script = rand_spend(rng)
    for sighash in range(256):
        for index in range(len(t[1])):
            check(ctx, tx, t, index, value, script, sighash, index & 1)
    ctx.eq(model_tx(tx), t, 'computing a hash changed the transaction')


@workload(320, 12000)
def many(ctx, rng, i):
    '''Many inputs and outputs.'''
    counts = [30, 100, 127, 128, 129, 251, 252, 253, 254, 255, 256, 257, 260, 300, 513]
    if i % 64 == 63:
        counts = [1000, 4097, 65535, 65536, 65537]
    nin, nout = rng.choice(counts), rng.choice(counts)
    if rng.random() < .5:
        nout = max(nin + rng.choice([-1, 0, 1]), 0)
    ins, outs = [wire.rand_txin(rng) for _ in range(3)], [wire.rand_txout(rng) for _ in range(3)]
    # Different, for being at another place
    t = (2, [(n.to_bytes(4, 'big') + m[0][4:], *m[1:]) for n, m in enumerate(rng.choices(ins, k=nin))],
         [(n, m[1]) for n, m in enumerate(rng.choices(outs, k=nout))], 5)
    tx = lib_tx(t)
    last = min(nin, nout) - 1
    ctx.n('many inputs and outputs')
    for index in {0, nin - 1, min(last + 1, nin - 1), max(last, 0), rng.randrange(nin)}:
        for sighash in (rng.choice([0x43, 3, 0xc3]), rand_sighash(rng)):
            check(ctx, tx, t, index, *rand_spend(rng), sighash, True)


@workload(2400, 160000)
def edited(ctx, rng, i):
    '''Hashes follow edits: nothing is remembered from earlier calls.'''
    version, ins, outs, locktime = wire.rand_tx(rng, counts=[1, 2, 3])
    tx = lib_tx((version, ins, outs, locktime))
    for _ in range(6):
        t = (version, ins, outs, locktime)
        for _ in range(2):
            check(ctx, tx, t, rng.randrange(len(ins)), *rand_spend(rng), rand_sighash(rng), True)
        kind = rng.randrange(7)
        k, j = rng.randrange(len(ins)), rng.randrange(len(outs)) if outs else None
        if kind == 0:
            version = tx.version = rng.randrange(-2**31, 2**31)
        elif kind == 1:
            locktime = tx.locktime = rng.getrandbits(32)
        elif kind == 2:
            seq = rng.getrandbits(32)
            ins[k] = ins[k][:3] + (seq, )
            tx.inputs[k].sequence = seq
        elif kind == 3 and outs:
            value = rng.randrange(2**50)
            outs[j] = (value, outs[j][1])
            tx.outputs[j].value = value
        elif kind == 4:
            m = wire.rand_txin(rng)
            ins.append(m)
            tx.inputs.append(lib_txin(m))
        elif kind == 5:
            m = wire.rand_txout(rng)
            outs.append(m)
            tx.outputs.append(lib_txout(m))
        else:      # the unlocking script is not part of the hash, but remains what it was set to
            script = rng.randbytes(5)
            ins[k] = ins[k][:2] + (script, ins[k][3])
            tx.inputs[k].script_sig = Script(script)


@workload(800, 30000)
def rejected(ctx, rng, i):
    t = wire.rand_tx(rng, counts=[1, 2, 3])
    tx = lib_tx(t)
    n = len(t[1])
    value, script = rand_spend(rng)
    sig = SigHash(rand_sighash(rng))
    for index in (-1, -n, n, n + 1, 2**32, -2**63, len(t[2]) + n):
        ctx.raises(IndexError, 'bad index accepted', tx.signature_hash, index, value, script,
                   sighash=sig)
        ctx.raises(IndexError, 'bad index accepted', tx.signature_hash, index, value, script)
    for bad in (-1, -2**63, -rng.randrange(1, 10**9)):
        ctx.raises(ValueError, 'negative value accepted', tx.signature_hash, 0, bad, script,
                   sighash=sig)
    for bad in (0x41, 1, int(sig), True, 0, '1', b'\x41', 1.0, False):
        ctx.raises(TypeError, 'sighash of wrong type accepted', tx.signature_hash, 0, value, script,
                   sighash=bad)
    ctx.case((wire.tx_bytes(t), int(sig)))
    ctx.eq(model_tx(tx), t, 'rejected calls changed the transaction')
