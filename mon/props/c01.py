import struct
from io import BytesIO

import bitcoinx as bx
from bitcoinx import packing
from engine import workload
from ref import wire

PROP, LEVEL = 'C01', 'exploration'
FILES = ['packing.py', 'misc.py']
RULE = ('every public pack/unpack/read function on boundary and random values of every bit '
        'length, and every strict prefix of each encoding; a case is distinct by (function, '
        'value or encoding). Oracle: int.to_bytes and an independent varint codec; the stream '
        'position is observed after each read.')
REQUIRE = {'values': 500, 'rejections observed': 300, 'varints': 100, 'lists': 20}
ASSUMPTIONS = ['non-canonical (over-long) varints are accepted by read_varint; this is not judged']

KINDS = []
for order, tag in (('little', 'le'), ('big', 'be')):
    for bits in (16, 32, 64):
        for signed in (False, True):
            if signed and (tag == 'be' or bits == 16):
                continue
            KINDS.append((f'{tag}_{"" if signed else "u"}int{bits}', bits // 8, signed, order))
RANGE_ERRORS = (struct.error, OverflowError, ValueError, TypeError)
SHORT_ERRORS = (struct.error, OverflowError, ValueError, IndexError, EOFError)


class Stream(BytesIO):
    pass


def edge_values(rng, size, signed):
    bits = size * 8
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    good = {lo, lo + 1, hi, hi - 1, 0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x100}
    for b in range(bits):
        good |= {1 << b, (1 << b) - 1, -(1 << b)}
        good.add(rng.getrandbits(b + 1))
    good = {g for g in good if lo <= g <= hi}
    bad = [lo - 1, hi + 1, lo - 256, hi + 256, 1 << (bits + 8), -1 << bits]
    return sorted(good), bad


@workload(320, 40000)
def fixed_width(ctx, rng, i):
    name, size, signed, order = KINDS[i % len(KINDS)]
    pack, unpack = getattr(bx, 'pack_' + name), getattr(bx, 'unpack_' + name)
    unpack_from, read = getattr(bx, f'unpack_{name}_from'), getattr(bx, 'read_' + name)
    good, bad = edge_values(rng, size, signed)
    for v in good:
        want = v.to_bytes(size, order, signed=signed)
        ctx.case((name, v))
        ctx.n('values')
        ctx.eq(pack(v), want, 'pack', name, v)
        ctx.eq(unpack(want), (v, ), 'unpack', name, v)
        pre, post = rng.randbytes(rng.randrange(9)), rng.randbytes(rng.randrange(1, 12))
        ctx.eq(unpack_from(pre + want + post, len(pre)), (v, ), 'unpack_from', name, v)
        s = Stream(want + post)
        ctx.eq(read(s.read), v, 'read', name, v)
        ctx.eq(s.read(), post, 'read consumed the wrong amount', name, v)
    for v in bad:
        ctx.case((name, v))
        ctx.raises(RANGE_ERRORS, 'out of range packed', pack, v)
    v = rng.choice(good)
    data = v.to_bytes(size, order, signed=signed)
    for cut in range(size):
        ctx.raises(SHORT_ERRORS, 'truncated read', read, Stream(data[:cut]).read)
        ctx.raises(SHORT_ERRORS, 'truncated unpack', unpack, data[:cut])
        ctx.raises(SHORT_ERRORS, 'truncated unpack_from', unpack_from, data, size - cut)
    ctx.raises(SHORT_ERRORS, 'overlong unpack', unpack, data + b'\0')
    ctx.sample(function=name, values=good[:6], rejected=bad)


@workload(4, 40)
def bytes_ports_headers(ctx, rng, i):
    for v in range(256):
        ctx.eq(bx.pack_byte(v), bytes([v]), 'pack_byte', v)
        ctx.eq(bx.unpack_byte(bytes([v])), (v, ), 'unpack_byte', v)
        ctx.case(('byte', v))
    for v in (-1, 256, 1 << 20, -255):
        ctx.raises(RANGE_ERRORS, 'pack_byte', bx.pack_byte, v)
    for v in {0, 1, 255, 256, 8333, 65535, rng.randrange(65536), rng.randrange(65536)}:
        ctx.eq(bx.pack_port(v), v.to_bytes(2, 'big'), 'pack_port', v)
        ctx.eq(bx.unpack_port(v.to_bytes(2, 'big')), (v, ), 'unpack_port', v)
        ctx.case(('port', v))
    for v in (-1, 65536):
        ctx.raises(RANGE_ERRORS, 'pack_port', bx.pack_port, v)
    for _ in range(50):
        fields = (rng.choice([1, -1, 2**31 - 1, -2**31, rng.randrange(-2**31, 2**31)]),
                  rng.randbytes(32), rng.randbytes(32), wire.rand_u32(rng), wire.rand_u32(rng),
                  wire.rand_u32(rng))
        raw = (wire.le(fields[0], 4) if fields[0] >= 0 else fields[0].to_bytes(
            4, 'little', signed=True)) + fields[1] + fields[2] + b''.join(
                v.to_bytes(4, 'little') for v in fields[3:])
        ctx.eq(bx.unpack_header(raw), fields, 'unpack_header', raw.hex())
        ctx.case(raw)
        ctx.raises(SHORT_ERRORS, 'short header', bx.unpack_header, raw[:-1])


def varint_values(rng):
    out = {0, 1, 252, 253, 254, 255, 256, 65534, 65535, 65536, 65537, 2**32 - 2, 2**32 - 1, 2**32,
           2**32 + 1, 2**64 - 1, 2**64 - 2, 2**63, 2**31}
    for b in range(65):
        out |= {min(2**64 - 1, 1 << b), (1 << b) - 1}
    for _ in range(40):
        out.add(rng.getrandbits(rng.randrange(1, 65)))
    return sorted(out)


@workload(190, 12000)
def varints(ctx, rng, i):
    for v in varint_values(rng):
        want = wire.varint(v)
        ctx.n('varints')
        ctx.case(('varint', v))
        ctx.eq(bx.pack_varint(v), want, 'pack_varint', v)
        ctx.eq(bx.varint_len(v), len(want), 'varint_len', v)
        post = rng.randbytes(rng.randrange(0, 9))
        s = Stream(want + post)
        ctx.eq(bx.read_varint(s.read), v, 'read_varint', v)
        ctx.eq(s.read(), post, 'read_varint consumed the wrong amount', v)
        for cut in range(len(want)):
            ctx.raises(SHORT_ERRORS, 'truncated varint', bx.read_varint, Stream(want[:cut]).read)
    for v in (-1, -253, -2**64, 2**64, 2**64 + 1, 2**70):
        ctx.raises(RANGE_ERRORS, 'pack_varint range', bx.pack_varint, v)
        ctx.raises(ValueError, 'varint_len range', bx.varint_len, v)


@workload(190, 6000)
def varbytes(ctx, rng, i):
    sizes = [0, 1, 252, 253, 254, 255, 256, 65534, 65535, 65536, 65537, rng.randrange(400),
             rng.randrange(70000)]
    if ctx.thorough and i % 50 == 0:
        sizes.append(1 << 24)
    for n in sizes:
        data = rng.randbytes(n)
        want = wire.varbytes(data)
        post = rng.randbytes(rng.randrange(0, 9))
        ctx.case(('varbytes', n, data[:8]))
        ctx.eq(bx.pack_varbytes(data), want, 'pack_varbytes', n)
        s = Stream(want + post)
        ctx.eq(bx.read_varbytes(s.read), data, 'read_varbytes', n)
        ctx.eq(s.read(), post, 'read_varbytes consumed the wrong amount', n)
        cuts = set(range(min(12, len(want)))) | {len(want) - 1, rng.randrange(len(want))}
        for cut in cuts:
            ctx.raises(SHORT_ERRORS, 'truncated varbytes', bx.read_varbytes,
                       Stream(want[:cut]).read)
    # lengths that cannot be satisfied
    for claim in (1, 253, 2**16, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1):
        ctx.raises(SHORT_ERRORS + (MemoryError, ), 'claimed length', bx.read_varbytes,
                   Stream(wire.varint(claim) + b'').read)


@workload(320, 8000)
def lists(ctx, rng, i):
    n = rng.choice([0, 1, 2, 3, 252, 253, 254, rng.randrange(20)])
    if i % 10 == 0:
        n = rng.choice([65535, 65536])
    kind = rng.randrange(3)
    if kind == 0:
        items = [rng.getrandbits(32) for _ in range(n)]
        pack_one, read_one, ref = bx.pack_le_uint32, bx.read_le_uint32, lambda v: v.to_bytes(4, 'little')
    elif kind == 1:
        items = [rng.getrandbits(16) for _ in range(n)]
        pack_one, read_one, ref = bx.pack_varint, bx.read_varint, wire.varint
    else:
        items = [rng.randbytes(rng.choice([0, 1, 3])) for _ in range(n)]
        pack_one, read_one, ref = bx.pack_varbytes, bx.read_varbytes, wire.varbytes
    want = wire.varint(n) + b''.join(map(ref, items))
    post = rng.randbytes(5)
    ctx.n('lists')
    ctx.case(('list', kind, want[:64], n))
    copy = list(items)
    ctx.eq(bx.pack_list(items, pack_one), want, 'pack_list', n, kind)
    ctx.eq(items, copy, 'pack_list changed its argument')
    ctx.eq(bx.pack_list(tuple(items), pack_one), want, 'pack_list tuple', n, kind)
    s = Stream(want + post)
    ctx.eq(bx.read_list(s.read, read_one), items, 'read_list', n, kind)
    ctx.eq(s.read(), post, 'read_list consumed the wrong amount', n)
    for cut in {0, len(want) - 1, rng.randrange(len(want)), rng.randrange(len(want))}:
        ctx.raises(SHORT_ERRORS, 'truncated list', bx.read_list, Stream(want[:cut]).read, read_one)
    for more in (1, rng.choice([1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 48, 1 << 63])):
        ctx.raises(SHORT_ERRORS, 'list count too big', bx.read_list,
                   Stream(wire.varint(n + more) + want[len(wire.varint(n)):]).read, read_one)
