import struct
from io import BytesIO

from bitcoinx import Tx, TxInput, TxOutput
from engine import workload
from lib import model_tx
from ref import wire

PROP, LEVEL = 'C03', 'exploration'
FILES = ['tx.py', 'packing.py']
RULE = ('every strict prefix of serialized transactions, inputs and outputs; announced counts and '
        'lengths larger than the data; raw streams one of whose reads gives less than asked for; byte-level mutations and random strings. Distinct by input '
        'bytes. Oracle: an independent length-checking parser decides acceptance and the fields.')
REQUIRE = {'short reads refused': 500, 'streams read whole': 50, 'prefixes': 20000, 'mutants rejected': 200, 'mutants accepted': 200,
           'lying counts': 200}
ERRORS = (struct.error, OverflowError, ValueError, IndexError, EOFError, MemoryError)


def all_prefixes(ctx, cls, raw):
    for cut in range(len(raw)):
        data = raw[:cut]
        ctx.n('prefixes')
        ctx.case(data + cls.__name__.encode())
        ctx.raises(ERRORS, 'prefix parsed', cls.from_bytes, data)


@workload(2000, 120000)
def prefixes(ctx, rng, i):
    t = wire.rand_tx(rng, counts=[0, 1, 1, 2, 3])
    raw = wire.tx_bytes(t)
    if len(raw) > 1500:
        cuts = sorted({0, 1, 4, 5, 6, len(raw) - 1, len(raw) - 4} | {
            rng.randrange(len(raw)) for _ in range(400)})
        for cut in cuts:
            ctx.n('prefixes')
            ctx.case(raw[:cut])
            ctx.raises(ERRORS, 'prefix parsed', Tx.from_bytes, raw[:cut])
    else:
        all_prefixes(ctx, Tx, raw)
    cut = rng.randrange(len(raw))
    ctx.raises(ERRORS, 'prefix parsed', Tx.from_hex, raw[:cut].hex())
    ctx.raises(ERRORS, 'prefix read', Tx.read, BytesIO(raw[:cut]).read)
    for m in t[1][:1]:
        all_prefixes(ctx, TxInput, wire.txin_bytes(m))
    for m in t[2][:1]:
        all_prefixes(ctx, TxOutput, wire.txout_bytes(m))
    # the whole parses, so the prefixes were rejected for being short
    ctx.eq(model_tx(Tx.from_bytes(raw)), t, 'whole transaction')
    ctx.sample(raw=raw.hex(), prefixes=len(raw))


def nonminimal(rng, n):
    width = rng.choice([2, 4, 8])
    if n >= 1 << (8 * width):
        width = 8
    return {2: b'\xfd', 4: b'\xfe', 8: b'\xff'}[width] + n.to_bytes(width, 'little')


@workload(4000, 400000)
def lying_counts(ctx, rng, i):
    '''A count or length that claims more than there is.'''
    t = wire.rand_tx(rng, counts=[1, 2, 3])
    more = rng.choice([1, 2, 5, 200, 253, 65536, 2**31, 2**32, 2**40, 2**48, 2**63])
    which = rng.randrange(4)
    nin = len(t[1]) + (more if which == 0 else 0)
    nout = len(t[2]) + (more if which == 1 else 0)
    k, j = len(t[1]) - 1, len(t[2]) - 1
    parts = [wire.le(t[0], 4), wire.varint(nin)]
    rest = 0
    for n, m in enumerate(t[1]):
        size = len(m[2]) + (rng.choice([0, 10**6]) + more if which == 2 and n == k else 0)
        parts += [m[0], m[1].to_bytes(4, 'little'), wire.varint(size), m[2],
                  m[3].to_bytes(4, 'little')]
    parts.append(wire.varint(nout))
    for n, m in enumerate(t[2]):
        size = len(m[1]) + (rng.choice([0, 10**6]) + more if which == 3 and n == j else 0)
        parts += [wire.le(m[0], 8), wire.varint(size), m[1]]
    parts.append(t[3].to_bytes(4, 'little'))
    raw = b''.join(parts)
    try:
        wire.parse_tx(raw)
        parses = True      # what follows happened to be read as the missing items
    except wire.Short:
        parses = False
    ctx.case(raw)
    ctx.n('lying counts')
    if not parses:
        ctx.raises(ERRORS, 'announced count or length ran past the data but parsed',
                   Tx.from_bytes, raw)
    _ = rest


class Dribble:
    '''A raw stream (as a socket or pipe), whose reads may give less than was asked for.'''
    def __init__(self, raw, rng, cuts):
        self.raw, self.rng, self.cuts, self.pos, self.calls, self.short = raw, rng, cuts, 0, 0, 0

    def read(self, size):
        size = min(size, len(self.raw) - self.pos)
        if size > 1 and self.calls in self.cuts:
            size = self.rng.randrange(1, size)
            self.short += 1
        self.calls += 1
        self.pos += size
        return self.raw[self.pos - size: self.pos]


@workload(3000, 200000)
def short_reads(ctx, rng, i):
    '''What a read gives short is refused, never taken for the whole field.'''
    t = wire.rand_tx(rng, counts=[1, 1, 2, 3])
    if rng.random() < .5:      # contents that go on making sense when misread
        t = (t[0], [(bytes(32), n, bytes(len(s)), q) for _, n, s, q in t[1]], t[2], t[3])
    cls, m, raw = rng.choice([(Tx, t, wire.tx_bytes(t)), (TxInput, t[1][0], wire.txin_bytes(t[1][0]))] + [
        (TxOutput, o, wire.txout_bytes(o)) for o in t[2][:1]])
    whole = Dribble(raw, rng, ())
    cls.read(whole.read)
    tail = bytes(100)       # of the next one
    stream = Dribble(raw + tail, rng, {rng.randrange(whole.calls)})
    ctx.case(raw, stream.cuts)
    try:
        got = cls.read(stream.read)
    except ERRORS:
        ctx.ok(stream.short, 'whole stream refused', raw.hex())
        ctx.n('short reads refused')
        return
    ctx.eq(got.to_bytes(), raw, 'read from a stream that gave less than asked for', stream.cuts)
    ctx.n('streams read whole')


def judge(ctx, raw):
    ctx.case(raw)
    try:
        want, end = wire.parse_tx(raw)
    except wire.Short:
        want = None
    if want is None:
        ctx.n('mutants rejected')
        ctx.raises(ERRORS, 'malformed transaction parsed', Tx.from_bytes, raw)
        return
    ctx.n('mutants accepted')
    tx = Tx.from_bytes(raw)
    ctx.eq(model_tx(tx), want, 'fields of accepted bytes', raw.hex())
    canonical = tx.to_bytes()
    ctx.eq(canonical, wire.tx_bytes(want), 'accepted value serialization', raw.hex())
    ctx.ok(Tx.from_bytes(canonical) == tx, 'accepted value does not re-parse to itself', raw.hex())
    stream = BytesIO(raw)
    Tx.read(stream.read)
    ctx.eq(stream.tell(), end, 'bytes consumed of accepted input', raw.hex())


@workload(24000, 3000000)
def mutants(ctx, rng, i):
    kind = rng.randrange(7)
    raw = bytearray(wire.tx_bytes(wire.rand_tx(rng, counts=[0, 1, 1, 2, 3])))
    if kind <= 2:
        for _ in range(rng.choice([1, 1, 2, 4])):
            raw[rng.randrange(len(raw))] = rng.choice([0, 1, 0xfc, 0xfd, 0xfe, 0xff,
                                                       rng.randrange(256)])
    elif kind == 3:
        pos = rng.randrange(len(raw))
        del raw[pos: pos + rng.randrange(1, 9)]
    elif kind == 4:
        raw[rng.randrange(len(raw)):0] = rng.randbytes(rng.randrange(1, 9))
    elif kind == 5:
        raw = bytearray(rng.randbytes(rng.randrange(0, 200)))
    else:     # non-minimal counts
        t = wire.rand_tx(rng, counts=[0, 1, 2])
        raw = bytearray(wire.le(t[0], 4) + nonminimal(rng, len(t[1]))
                        + b''.join(map(wire.txin_bytes, t[1])) + nonminimal(rng, len(t[2]))
                        + b''.join(map(wire.txout_bytes, t[2])) + t[3].to_bytes(4, 'little'))
    judge(ctx, bytes(raw))


@workload(12000, 1200000)
def mutant_items(ctx, rng, i):
    for cls, data, read in ((TxInput, wire.txin_bytes(wire.rand_txin(rng)), wire.read_txin),
                            (TxOutput, wire.txout_bytes(wire.rand_txout(rng)), wire.read_txout)):
        raw = bytearray(data)
        raw[rng.randrange(len(raw))] = rng.choice([0, 0xfd, 0xfe, 0xff, rng.randrange(256)])
        if rng.random() < .5:
            del raw[rng.randrange(len(raw)):]
        raw = bytes(raw)
        ctx.case(raw + cls.__name__.encode())
        try:
            want = read(wire.Reader(raw))
        except wire.Short:
            ctx.n('mutants rejected')
            ctx.raises(ERRORS, 'malformed item parsed', cls.from_bytes, raw)
            continue
        ctx.n('mutants accepted')
        obj = cls.from_bytes(raw)
        ser = wire.txin_bytes(want) if cls is TxInput else wire.txout_bytes(want)
        ctx.eq(obj.to_bytes(), ser, 'fields of accepted item', raw.hex())
