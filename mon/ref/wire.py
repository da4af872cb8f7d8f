'''Bitcoin wire encodings and random transactions, independent of the library.'''


def le(v, size):
    return v.to_bytes(size, 'little', signed=v < 0)


def varint(n):
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def varbytes(b):
    return varint(len(b)) + b


class Short(Exception):
    pass


class Reader:
    '''An independent parser.'''

    def __init__(self, data, pos=0):
        self.data, self.pos = data, pos

    def take(self, n):
        if self.pos + n > len(self.data):
            raise Short
        r = self.data[self.pos: self.pos + n]
        self.pos += n
        return r

    def u(self, n):
        return int.from_bytes(self.take(n), 'little')

    def i(self, n):
        return int.from_bytes(self.take(n), 'little', signed=True)

    def varint(self):
        b = self.u(1)
        return b if b < 0xfd else self.u({0xfd: 2, 0xfe: 4, 0xff: 8}[b])

    def varbytes(self):
        return self.take(self.varint())


# A transaction model is (version, [(hash, idx, script, seq)], [(value, script)], locktime)

def txin_bytes(i):
    return i[0] + i[1].to_bytes(4, 'little') + varbytes(i[2]) + i[3].to_bytes(4, 'little')


def txout_bytes(o):
    return le(o[0], 8) + varbytes(o[1])


def tx_bytes(t):
    return (le(t[0], 4) + varint(len(t[1])) + b''.join(map(txin_bytes, t[1]))
            + varint(len(t[2])) + b''.join(map(txout_bytes, t[2])) + t[3].to_bytes(4, 'little'))


def parse_tx(data, pos=0):
    r = Reader(data, pos)
    version = r.i(4)
    ins = [read_txin(r) for _ in bounded(r, r.varint())]
    outs = [read_txout(r) for _ in bounded(r, r.varint())]
    return (version, ins, outs, r.u(4)), r.pos


def bounded(r, n):
    if n > len(r.data):
        raise Short
    return range(n)


def read_txin(r):
    return (r.take(32), r.u(4), r.varbytes(), r.u(4))


def read_txout(r):
    return (r.i(8), r.varbytes())


U32 = [0, 1, 2, 0xfc, 0xfd, 0xff, 0x100, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff,
       499_999_999, 500_000_000, 500_000_001, 0xffff, 0x10000]
I32 = [0, 1, 2, -1, -2, 2**31 - 1, -2**31, 255, 256]
I64 = [0, 1, -1, 2**63 - 1, -2**63, 2**32, 21_000_000 * 10**8, 546, 2**31, -2**31, 255, 2**53 + 1]
LENGTHS = [0, 1, 2, 75, 76, 77, 106, 107, 252, 253, 254, 255, 256, 257, 300]
BIG_LENGTHS = [65534, 65535, 65536, 65537]


def rand_u32(rng):
    return rng.choice(U32) if rng.random() < .5 else rng.getrandbits(32)


def rand_bytes(rng, n):
    return rng.randbytes(n)


def rand_len(rng, big=0.0):
    r = rng.random()
    if r < big:
        return rng.choice(BIG_LENGTHS)
    if r < .35:
        return rng.choice(LENGTHS)
    return rng.randrange(0, 120)


def rand_script_bytes(rng, big=0.0):
    '''Scripts as they come: random bytes, structured, templates.'''
    from . import scripts
    if rng.random() < .5:
        return rng.randbytes(rand_len(rng, big))
    return scripts.rand_script(rng)


def rand_txin(rng, big=0.0):
    kind = rng.random()
    if kind < .1:
        prev, idx = bytes(32), 0xffffffff
    elif kind < .18:
        prev, idx = bytes(32), rand_u32(rng)
    elif kind < .26:
        prev, idx = rng.randbytes(32), 0xffffffff
    else:
        prev, idx = rng.randbytes(32), rand_u32(rng)
    seq = 0xffffffff if rng.random() < .4 else rand_u32(rng)
    return (prev, idx, rand_script_bytes(rng, big), seq)


def rand_value(rng):
    return rng.choice(I64) if rng.random() < .4 else rng.randrange(-2**63, 2**63) \
        if rng.random() < .2 else rng.randrange(21 * 10**14)


def rand_txout(rng, big=0.0):
    return (rand_value(rng), rand_script_bytes(rng, big))


def rand_tx(rng, big=0.0, counts=None):
    counts = counts or [0, 1, 1, 1, 1, 2, 2, 3, 3, 4, 7]
    nin, nout = rng.choice(counts), rng.choice(counts)
    version = rng.choice(I32) if rng.random() < .6 else rng.randrange(-2**31, 2**31)
    ins = [rand_txin(rng, big) for _ in range(nin)]
    outs = [rand_txout(rng, big) for _ in range(nout)]
    for items in (ins, outs):
        if len(items) > 1 and rng.random() < .12:      # the same twice
            items[rng.randrange(len(items))] = rng.choice(items)
    if rng.random() < .15:
        relate(rng, ins, outs)
    return (version, ins, outs, rand_u32(rng))


def variant(rng, raw):
    '''Something easily confused with raw.'''
    raw = bytearray(raw)
    kind = rng.random()
    if kind < .7 and raw:
        raw[rng.choice([-1, -1, 0, rng.randrange(len(raw))])] ^= 1 << rng.randrange(8)
    elif kind < .85:
        raw += rng.choice([b'\0', rng.randbytes(1), rng.randbytes(10)])
    else:
        del raw[len(raw) // 2:]
    return bytes(raw)


def relate(rng, ins, outs):
    '''Make scripts and previous outputs that differ by little.'''
    all_ = [(ins, n, 2) for n in range(len(ins))] + [(outs, n, 1) for n in range(len(outs))]
    for _ in range(rng.choice([1, 1, 3])):
        if len(all_) > 1:
            (a, m, j), (b, n, k) = rng.sample(all_, 2)
            item = list(b[n])
            item[k] = variant(rng, a[m][j])
            b[n] = tuple(item)
    if len(ins) > 1 and rng.random() < .5:
        m, n = rng.sample(range(len(ins)), 2)
        item = list(ins[n])
        item[0], item[1] = rng.choice([(ins[m][0], ins[m][1] ^ 1), (ins[m][0], rand_u32(rng)),
                                       (variant(rng, ins[m][0])[:32].ljust(32, b'\0'), ins[m][1])])
        ins[n] = tuple(item)
