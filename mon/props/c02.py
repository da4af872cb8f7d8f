from io import BytesIO

import bitcoinx as bx
from bitcoinx import Tx, TxInput, TxOutput
from engine import workload
from lib import edit_tx, lib_tx, lib_txin, lib_txout, model_tx
from ref import wire
from ref.hashing import dsha

PROP, LEVEL = 'C02', 'exploration'
FILES = ['tx.py', 'packing.py', 'script.py', 'hashes.py']
RULE = ('random transactions (boundary versions, values, sequences, locktimes; scripts of every '
        'shape; counts and lengths across the varint boundaries) serialized and parsed by the '
        'library and by an independent codec; distinct by serialization.')
REQUIRE = {'transactions changed in place': 2000, 'transactions': 500, 'transactions recovered from a stream': 200,
           'counts at varint boundaries': 3}


def check_tx(ctx, t):
    raw = wire.tx_bytes(t)
    tx = lib_tx(t, len(t[1]) % 2 == 0)
    ctx.case(raw)
    ctx.n('transactions')
    ctx.eq(tx.to_bytes(), raw, 'serialization', t)
    ctx.eq(tx.to_hex(), raw.hex(), 'hex serialization', t)
    ctx.eq(tx.size(), len(raw), 'size', t)
    ctx.eq(Tx.size_io(tx.inputs, tx.outputs), len(raw), 'size_io', t)
    ctx.eq(tx.hash(), dsha(raw), 'hash', t)
    ctx.eq(tx.hex_hash(), dsha(raw)[::-1].hex(), 'hex hash', t)
    for how, tx2 in (('bytes', Tx.from_bytes(raw)), ('hex', Tx.from_hex(raw.hex())),
                     ('HEX', Tx.from_hex(raw.hex().upper())),
                     ('bytearray', Tx.from_bytes(bytearray(raw)))):
        ctx.eq(model_tx(tx2), t, 'parsed fields', how)
        ctx.ok(tx2 == tx, 'parsed transaction not equal', how, t)
        ctx.eq(tx2.to_bytes(), raw, 're-serialization', how)
        ctx.eq(tx2.size(), len(raw), 'size after parsing', how)
    ctx.eq(model_tx(tx), t, 'serializing changed the transaction')
    return raw, tx


@workload(1500, 1200000)
def whole(ctx, rng, i):
    t = wire.rand_tx(rng, big=0.01)
    raw, tx = check_tx(ctx, t)
    ctx.sample(raw=raw.hex())
    for m, obj in zip(t[1], tx.inputs):
        data = wire.txin_bytes(m)
        ctx.eq(obj.to_bytes(), data, 'input serialization', m)
        ctx.eq(obj.to_hex(), data.hex(), 'input hex', m)
        ctx.eq(obj.size(), len(data), 'input size', m)
        ctx.eq(obj.prevout_bytes(), data[:36], 'outpoint', m)
        for again in (TxInput.from_bytes(data), TxInput.from_hex(data.hex())):
            ctx.ok(again == obj == lib_txin(m), 'input not equal after parsing', m)
            ctx.eq(again.to_bytes(), data, 'input re-serialization', m)
    for m, obj in zip(t[2], tx.outputs):
        data = wire.txout_bytes(m)
        ctx.eq(obj.to_bytes(), data, 'output serialization', m)
        ctx.eq(obj.to_hex(), data.hex(), 'output hex', m)
        ctx.eq(obj.size(), len(data), 'output size', m)
        for again in (TxOutput.from_bytes(data), TxOutput.from_hex(data.hex())):
            ctx.ok(again == obj == lib_txout(m), 'output not equal after parsing', m)
            ctx.eq(again.to_bytes(), data, 'output re-serialization', m)


@workload(28, 1200)
def counts(ctx, rng, i):
    '''Input, output and script counts at varint boundaries.'''
    sizes = [252, 253, 254, 255, 256, 65535, 65536]
    n = sizes[i % len(sizes)]
    ins = [(bytes(32), k & 0xffff, b'', 0xffffffff) for k in range(n)]
    outs = [(k, b'\x51') for k in range(n)]
    one_in, one_out = wire.rand_txin(rng), wire.rand_txout(rng)
    which = (i // len(sizes)) % 4
    if which == 0:
        t = (1, ins, [one_out], 0)
    elif which == 1:
        t = (2, [one_in], outs, 0xffffffff)
    elif which == 3:
        t = (3, [], outs, 7) if i & 1 else (3, ins, [], 7)
    else:
        t = (-1, [one_in[:2] + (rng.randbytes(n), 1)], [(0, rng.randbytes(n))], 5)
    ctx.n('counts at varint boundaries')
    check_tx(ctx, t)


@workload(300, 200000)
def streams(ctx, rng, i):
    '''Concatenated transactions read one after another.'''
    models = [wire.rand_tx(rng) for _ in range(rng.randrange(1, 8))]
    tail = rng.randbytes(rng.randrange(20))
    raws = [wire.tx_bytes(t) for t in models]
    stream = BytesIO(b''.join(raws) + tail)
    pos = 0
    for t, raw in zip(models, raws):
        tx = Tx.read(stream.read)
        pos += len(raw)
        ctx.eq(stream.tell(), pos, 'bytes consumed', raw.hex())
        ctx.eq(model_tx(tx), t, 'transaction recovered from stream')
        ctx.n('transactions recovered from a stream')
    ctx.eq(stream.read(), tail, 'remaining bytes')
    ctx.case(b''.join(raws))
    t = models[0]
    for cls, ms, ser in ((TxInput, t[1], wire.txin_bytes), (TxOutput, t[2], wire.txout_bytes)):
        stream = BytesIO(b''.join(map(ser, ms)) + tail)
        for m in ms:
            ctx.eq(cls.read(stream.read).to_bytes(), ser(m), 'item recovered from stream')
        ctx.eq(stream.read(), tail, 'remaining bytes after items')


@workload(400, 200000)
def equality(ctx, rng, i):
    '''Transactions that differ in one field differ in bytes, hash and equality.'''
    t = wire.rand_tx(rng, counts=[1, 2, 3])
    ins, outs = list(t[1]), list(t[2])
    kind = rng.randrange(9)
    version, locktime = t[0], t[3]
    k, j = rng.randrange(len(ins)), rng.randrange(len(outs))
    a = list(ins[k])
    o = list(outs[j])
    if kind == 0:
        version ^= 1
    elif kind == 1:
        locktime ^= 1 << rng.randrange(32)
    elif kind == 2:
        b = bytearray(a[0])
        b[rng.randrange(32)] ^= 1 << rng.randrange(8)
        a[0] = bytes(b)
    elif kind == 3:
        a[1] ^= 1 << rng.randrange(32)
    elif kind == 4:
        a[2] += b'\0'
    elif kind == 5:
        a[3] ^= 1 << rng.randrange(32)
    elif kind == 6:
        o[0] ^= 1 << rng.randrange(63)
    elif kind == 7:
        o[1] += b'\0'
    else:
        outs.append(o)
    ins[k] = tuple(a)
    outs[j] = tuple(o)
    u = (version, ins, outs, locktime)
    tx, ux = lib_tx(t), lib_tx(u)
    ctx.case((wire.tx_bytes(t), kind))
    ctx.ok(tx != ux and not tx == ux, 'different transactions equal', t, u)
    ctx.ok(tx.to_bytes() != ux.to_bytes() and tx.hash() != ux.hash(), 'different transactions '
           'serialize alike', t, u)
    # mutation through the attributes is reflected
    tx.version, tx.locktime, tx.inputs, tx.outputs = ux.version, ux.locktime, ux.inputs, ux.outputs
    ctx.eq(tx.to_bytes(), wire.tx_bytes(u), 'serialization after assignment')
    ctx.eq(tx.hash(), dsha(wire.tx_bytes(u)), 'hash after assignment')
    ctx.eq(tx.size(), len(wire.tx_bytes(u)), 'size after assignment')


_ = bx


@workload(300, 150000)
def edited(ctx, rng, i):
    '''A transaction assembled and changed in place is always serialized as it stands.'''
    t = wire.rand_tx(rng, counts=[1, 2, 3])
    tx = lib_tx(t, False)
    for step in range(8):
        t, kind = edit_tx(rng, t, tx)
        ins, outs = t[1], t[2]
        raw = wire.tx_bytes(t)
        ctx.eq(tx.hash(), dsha(raw), 'hash after a change', kind)
        ctx.eq(tx.hex_hash(), dsha(raw)[::-1].hex(), 'hex hash after a change', kind)
        ctx.eq(tx.to_bytes(), raw, 'serialization after a change', kind)
        ctx.eq(tx.size(), len(raw), 'size after a change', kind)
        for m, obj in zip(ins, tx.inputs):
            ctx.eq(obj.to_bytes(), wire.txin_bytes(m), 'input serialization after a change', kind)
            ctx.eq(obj.size(), len(obj.to_bytes()), 'input size after a change', kind)
        for m, obj in zip(outs, tx.outputs):
            ctx.eq(obj.to_bytes(), wire.txout_bytes(m), 'output serialization after a change', kind)
            ctx.eq(obj.size(), len(obj.to_bytes()), 'output size after a change', kind)
        ctx.n('transactions changed in place')
        ctx.case(raw)
