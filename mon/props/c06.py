import bitcoinx as bx
from bitcoinx import Ops, Script
from engine import workload
from ref import scripts

PROP, LEVEL = 'C06', 'exploration'
FILES = ['script.py', 'misc.py']
RULE = ('items of every length around each push-opcode boundary with all special one-byte values, '
        'and integers of every bit length and sign; executed by an independent push interpreter. '
        'Scripts built in random ways are compared with the concatenation of their parts. '
        'Distinct by item or integer.')
REQUIRE = {'items': 2000, 'integers': 2000, 'built scripts': 300, 'drops': 300}
EDGE = [0, 1, 2, 3, 74, 75, 76, 77, 78, 79, 80, 96, 127, 128, 129, 254, 255, 256, 257, 519, 520,
        521, 65534, 65535, 65536, 65537]


def check_item(ctx, item):
    ctx.n('items')
    ctx.case((b'item', len(item), item[:64]))
    got = bx.push_item(item)
    ctx.eq(got, scripts.min_push(bytes(item)), 'push_item', item)
    ctx.eq(scripts.execute_pushes(got), [bytes(item)], 'executed push', item)
    ctx.eq(list(Script(got).ops()), [bytes(item)], 'parsed push', item)


@workload(8, 8)
def one_byte_items(ctx, rng, i):
    for v in range(256):
        check_item(ctx, bytes([v]))
    for v in range(0, 65536, 1 if i == 0 else 61):
        check_item(ctx, v.to_bytes(2, 'little'))


@workload(2500, 200000)
def items(ctx, rng, i):
    n = EDGE[i % len(EDGE)] if i < 4 * len(EDGE) or rng.random() < .2 else rng.randrange(600)
    fill = rng.randrange(4)
    item = [rng.randbytes(n), bytes(n), b'\xff' * n, b'\x81' * n][fill]
    check_item(ctx, item)
    ctx.eq(bx.push_item(bytearray(item)), scripts.min_push(item), 'push of a bytearray', n)
    ctx.sample(length=n, fill=fill)


@workload(2, 6, single=True)
def huge_items(ctx, rng, i):
    for n in ((1 << 16) + 1, 1 << 20) + (((1 << 24) + 3, ) if ctx.thorough else ()):
        check_item(ctx, rng.randbytes(n))


def check_int(ctx, v):
    ctx.n('integers')
    ctx.case((b'int', v))
    item = scripts.script_num(v)
    got = bx.push_int(v)
    ctx.eq(got, scripts.min_push(item), 'push_int', v)
    stack = scripts.execute_pushes(got)
    ctx.eq(stack, [item], 'executed push_int', v)
    ctx.eq(bx.item_to_int(stack[0]), v, 'item_to_int of push_int', v)
    ctx.eq(scripts.num_of(item), v, 'model')


@workload(400, 40000)
def integers(ctx, rng, i):
    if i < 32:
        for v in range(i * 4200 - 67200, (i + 1) * 4200 - 67200, 1 if ctx.thorough else 4):
            check_int(ctx, v)
    for bits in range(1, 600, 1):
        for v in ((1 << bits), (1 << bits) - 1, (1 << bits) + 1, rng.getrandbits(bits)):
            if rng.random() < .2 or bits < 70:
                check_int(ctx, v)
                check_int(ctx, -v)


@workload(9400, 1200000)
def stack_items_to_int(ctx, rng, i):
    '''Any stack item, minimal or not, is a signed-magnitude number.'''
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 20, 40])
    item = bytearray(rng.randbytes(n))
    if n and rng.random() < .5:
        item[-1] = rng.choice([0, 0x80, 0x7f, 0xff, 1, 0x81])
    item = bytes(item)
    ctx.case((b'raw', item))
    ctx.eq(bx.item_to_int(item), scripts.num_of(item), 'item_to_int', item)


@workload(5000, 600000)
def push_and_drop(ctx, rng, i):
    items = [rng.randbytes(rng.choice([0, 1, 1, 2, 20, 75, 76, 255, 256]))
             for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 12, 13]))]
    if i % 100 == 0:
        items = [rng.randbytes(rng.randrange(3)) for _ in range(rng.choice([99, 254, 255, 256, 257, 600, 1001]))]
        ctx.n('many items dropped')
    if rng.random() < .3:
        items = [rng.choice([b'', b'\1', b'\x10', b'\x11', b'\x81', b'\0']) for _ in items]
    under = [b'under', b'']
    prefix = b''.join(map(scripts.min_push, under))
    ctx.n('drops')
    ctx.case(tuple(items))
    container = rng.choice([list, tuple])(items)
    script = bx.push_and_drop_items(container)
    ctx.eq(list(container), items, 'argument changed')
    ctx.eq(scripts.execute_pushes(prefix + script), under, 'push and drop changed the stack', items)
    ctx.ok(script.startswith(b''.join(map(scripts.min_push, items))),
           'items are not all pushed', items, script.hex())
    n = len(items)
    ctx.eq(len(script) - len(b''.join(map(scripts.min_push, items))), (n + 1) // 2,
           'number of drops', items)
    if items:
        one = bx.push_and_drop_item(items[0])
        ctx.eq(one, scripts.min_push(items[0]) + b'\x75', 'push_and_drop_item', items[0])
        ctx.eq(scripts.execute_pushes(prefix + one), under, 'push and drop of one item')


def rand_part(rng):
    '''(what to append, the script bytes it stands for)'''
    r = rng.randrange(6)
    if r == 0:
        op = rng.choice(list(Ops))
        return op, bytes([int(op)])
    if r == 1:
        item = rng.randbytes(rng.choice([0, 1, 1, 2, 20, 75, 76, 300]))
        return item, scripts.min_push(item)
    if r == 2:
        item = rng.randbytes(rng.choice([0, 1, 33]))
        return bytearray(item), scripts.min_push(item)
    if r == 3:
        v = rng.choice([0, 1, -1, 16, 17, -2, 127, 128, 255, 256, -255, rng.randrange(-2**40, 2**40),
                        0x61, 0x76, 0xac])
        return v, scripts.min_push(scripts.script_num(v))
    if r == 4:
        raw = scripts.rand_script(rng)
        return Script(raw), raw
    return True, b'\x51'


@workload(5000, 600000)
def builder(ctx, rng, i):
    start = scripts.rand_script(rng) if rng.random() < .5 else b''
    base = Script(start)
    parts = [rand_part(rng) for _ in range(rng.randrange(0, 8))]
    if parts and rng.random() < 0.25:
        # some again, or one over and over
        parts += rng.choices(parts, k=rng.randrange(1, 6))
        if rng.random() < 0.3:
            parts = [rng.choice(parts)] * rng.randrange(2, 20)
    ctx.n('built scripts')
    want = start
    script = base
    for item, raw in parts:
        before, frozen = script, bytes(script)
        script = script << item
        want += raw
        ctx.eq(bytes(before), frozen, 'appending changed the original script', item)
        ctx.ok(isinstance(script, Script), 'append gave another type', type(script))
        ctx.eq(bytes(script), want, 'append', item)
    ctx.case(want)
    items = [p[0] for p in parts]
    kind = rng.randrange(3)
    arg = items if kind == 0 else tuple(items) if kind == 1 else iter(items)
    many = base.push_many(arg)
    ctx.eq(bytes(many), want, 'push_many', items)
    ctx.eq(bytes(base), start, 'push_many changed the original script')
    ctx.eq(many.to_bytes(), want, 'to_bytes')
    ctx.eq(len(many), len(want), 'script length')
    ctx.eq(many.to_hex(), want.hex(), 'script hex')
    ctx.eq(str(many), want.hex(), 'script text')
    ctx.eq(bytes(Script.from_hex(want.hex())), want, 'script from hex')
    for item in (None, 1.5, 'OP_DUP', [b'a'], object()):
        ctx.raises((TypeError, ValueError), 'nonsense appended', base.__lshift__, item)
        ctx.raises((TypeError, ValueError), 'nonsense appended', base.push_many, [b'a', item])
    ctx.eq(bytes(base), start, 'failed append changed the script')


@workload(190, 6000)
def source_buffers(ctx, rng, i):
    '''A script does not alias the buffer it came from.'''
    raw = bytearray(scripts.rand_script(rng) + b'\x51')
    item = bytearray(rng.randbytes(30))
    script = Script(raw)
    pushed = Script() << item
    want, want2 = bytes(raw), bytes(pushed)
    raw[0] ^= 0xff
    raw.extend(b'xyz')
    item[0] ^= 0xff
    ctx.case(want)
    ctx.eq(bytes(script), want, 'script changed with its source buffer')
    ctx.eq(bytes(pushed), want2, 'script changed with the pushed buffer')
