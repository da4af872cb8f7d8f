import ctypes
import gc
import os
import tracemalloc
from io import BytesIO

import bitcoinx as bx
import tree
from bitcoinx import Script, Tx
from engine import workload
from props import c35, c48
from ref import wire
from tree import SimCoin, BITS

PROP, LEVEL = 'C49', 'exploration'
FILES = ['packing.py', 'tx.py', 'script.py', 'base58.py', 'address.py', 'cashaddr.py', 'bip32.py', 'mnemonic.py',
         'keys.py', 'signature.py', 'chain.py', 'work.py', 'coin.py', 'util.py', 'hashes.py', 'aes.py']
RULE = ('every operation of the library, over and over on new objects and data, on the same ones, on what is refused, and '
        'collections of headers opened, extended and dropped. Before and after hundreds of rounds, with everything that '
        'the caller held released, a monitor takes what tracemalloc and the C library say is allocated, the objects of '
        'the library\'s classes that are alive, the descriptors open and the files mapped. A cache may fill: where '
        'there is growth the rounds go on, and it must end. Distinct by (operations, data).')
REQUIRE = {'operations': 60000, 'rounds': 5000, 'new data': 30000, 'same objects': 20000, 'refused': 20000,
           'collections dropped': 150, 'headers connected': 1000, 'parts kept': 100, 'operations seen': 150, 'measurements': 60}
ASSUMPTIONS = ['a cache of up to 4,000 entries is not a leak']


class MallInfo(ctypes.Structure):
    _fields_ = [(name, ctypes.c_size_t) for name in (
        'arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


try:
    mallinfo = ctypes.CDLL(None).mallinfo2
    mallinfo.restype = MallInfo
except (OSError, AttributeError):
    mallinfo = None

ROUND_BYTES = 4       # more than this in each round, and ...
SLACK = 3_000         # ... this in all, is growth
NATIVE_SLACK = 64_000
OBJECTS = 40


def native():
    if mallinfo is None:
        return 0
    info = mallinfo()
    return info.uordblks + info.hblkhd


def objects():
    '''How many objects of the library's classes the collector knows.'''
    counts = {}
    for x in gc.get_objects():
        if type(x).__module__.startswith('bitcoinx'):
            counts[type(x).__name__] = counts.get(type(x).__name__, 0) + 1
    return counts


def mapped():
    with open('/proc/self/maps') as f:
        return sum('headers-c49' in line for line in f)


def descriptors():
    return len(os.listdir('/proc/self/fd'))


def measure():
    gc.collect()
    return {'traced': tracemalloc.get_traced_memory()[0], 'native': native(), 'objects': objects(),
            'descriptors': descriptors(), 'mapped': mapped()}


def grown(before, after, rounds):
    '''What has grown, or None.'''
    more = after['traced'] - before['traced']
    if more > SLACK + ROUND_BYTES * rounds:
        return f'{more:,d} bytes of memory'
    more = after['native'] - before['native'] - max(more, 0)
    if more > NATIVE_SLACK + 10 * ROUND_BYTES * rounds:
        return f'{more:,d} bytes of memory of the C library'
    for name, count in after['objects'].items():
        more = count - before['objects'].get(name, 0)
        if more > OBJECTS + rounds // 10:
            return f'{more} objects of {name}'
    for name in ('descriptors', 'mapped'):
        more = after[name] - before[name]
        if more > 3:
            return f'{more} {name}'
    return None


def steady(ctx, name, fn, rounds, most=None):
    '''fn(k) for each k leaves nothing behind.'''
    most = most or rounds * 15
    tracemalloc.start(1)
    try:
        k = 0
        for k in range(rounds // 2):
            fn(k)
        k += 1
        before = measure()
        total = 0
        while True:
            for _ in range(rounds):
                fn(k)
                k += 1
            total += rounds
            ctx.n('rounds', rounds)
            ctx.n('measurements')
            after = measure()
            what = grown(before, after, rounds)
            if what is None:
                break
            if total >= most:
                where = trail(fn, k)
                ctx.fail('growth', f'{name}: {what} more after {rounds} more rounds, {k} in all; {where}')
            ctx.n('growth followed')
            before = after
        ctx.n('oracle checks', 5)
    finally:
        tracemalloc.stop()


def trail(fn, k):
    '''Where what grows is allocated.'''
    one = tracemalloc.take_snapshot()
    for j in range(100):
        fn(k + j)
    gc.collect()
    two = tracemalloc.take_snapshot()
    return '; '.join(str(s) for s in two.compare_to(one, 'lineno')[:3])


NAMES = sorted(set(c35.OPS) - c35.SLOW)
GROUPS = 24


@workload(GROUPS, GROUPS * 8)
def new_data(ctx, rng, i):
    names = NAMES[i % GROUPS::GROUPS]
    tag = rng.getrandbits(40)

    def once(k):
        pool = c35.Pool(f'{tag}-{k}')
        for name in names:
            c35.outcome(c35.OPS[name], pool)
            ctx.n('operations')
            ctx.n('new data')
    for name in names:
        ctx.seen('operations seen', name)
    for k in range(3):
        ctx.case((tag, k))
    steady(ctx, ' '.join(names), once, 260 if not ctx.thorough else 600)


@workload(GROUPS, GROUPS * 8)
def same_objects(ctx, rng, i):
    names = NAMES[i % GROUPS::GROUPS]
    pool = c35.Pool(f'{rng.getrandbits(40)}').all()
    shared = c35.Pool(f'{rng.getrandbits(40)}').all()

    def once(_k):
        for name in names:
            c35.outcome(c35.OPS[name], pool)
            c35.outcome(c35.OPS[name], shared)
            ctx.n('operations', 2)
            ctx.n('same objects', 2)
    ctx.case((i, pool.secrets))
    steady(ctx, ' '.join(names), once, 150 if not ctx.thorough else 600)


@workload(16, 160)
def what_strangers_send(ctx, rng, i):
    '''Texts and bytes, most of them refused, each different.'''
    state = rng.getrandbits(60)
    texts = sorted(c48.TEXT)[i % 16::16]
    raws = sorted(c48.BYTES)[i % 16::16]
    valid_texts = {}
    for name, text in c48.texts(rng):
        valid_texts.setdefault(name, []).append(text)
    valid_raws = {}
    for name, raw in c48.encodings(rng):
        valid_raws.setdefault(name, []).append(raw)
    some = [b for values in valid_raws.values() for b in values]

    def once(k):
        r = type(rng)(state + k)
        for name in texts:
            value = c48.twist(r, r.choice(valid_texts.get(name, ['S6c56bnXQiBjk9mqSYE7ykVQ7NzrRy'])))
            try:
                c48.TEXT[name][0](value + f' {k}' if r.random() < 0.1 else value)
            except Exception:
                ctx.n('refused')
            ctx.n('operations')
        for name in raws:
            value = c48.twist_bytes(r, r.choice(valid_raws.get(name, some)))
            try:
                c48.BYTES[name][0](value)
            except Exception:
                ctx.n('refused')
            ctx.n('operations')
    for name in texts + raws:
        ctx.seen('operations seen', ('read', name))
    ctx.case((i, state))
    steady(ctx, ' '.join(texts + raws), once, 600 if not ctx.thorough else 2000)


@workload(8, 80)
def collections(ctx, rng, i):
    '''Of headers: opened, extended, asked and dropped.'''
    bits = BITS[0]
    raw = tree.make_raw(rng, rng.randbytes(32), 1, bits)
    coin = SimCoin(raw, lambda headers, chain, height, timestamp: bits)
    height = rng.choice([0, 0, 5, 2000])
    checkpoint = bx.CheckPoint(raw, height, 0)
    reuse = i % 2

    def once(k):
        path = os.path.join(ctx.tmp, f'headers-c49-{i}-{0 if reuse else k}')
        if not reuse or k % 4 == 0:
            if os.path.exists(path):
                os.unlink(path)
        headers = bx.Headers.from_file(coin, path, checkpoint)
        tip = coin.header_hash(raw)
        for _ in range(3):
            new = tree.make_raw(rng, tip, 1, bits)
            headers.connect(new)
            ctx.n('headers connected')
            tip = coin.header_hash(new) if rng.random() < 0.7 else tip
        try:
            headers.connect(rng.randbytes(80))
        except bx.MissingHeader:
            ctx.n('refused')
        headers.lookup(tip)
        chain = headers.longest_chain()
        headers.header_at_height(chain, height)
        if rng.random() < 0.5:
            headers.flush()
        ctx.n('collections dropped')
        if not reuse:
            del headers, chain
            os.unlink(path)
    ctx.case((i, raw))
    steady(ctx, 'collections of headers', once, 60, 600)


@workload(100, 4000)
def parts(ctx, rng, i):
    '''A small part that is kept does not keep alive the whole it came from.'''
    size = 400_000
    kind = i % 5
    large = rng.randbytes(size)
    small = rng.randbytes(30)
    t = (1, [(bytes(32), 0, large, 0), (rng.randbytes(32), 1, small, 0)], [(5, small), (6, large)], 0)
    raw = wire.tx_bytes(t)
    buffer = rng.choice([bytes, bytearray, memoryview])(raw)
    tracemalloc.start(1)
    try:
        gc.collect()
        before = tracemalloc.get_traced_memory()[0]
        if kind == 0:
            tx = Tx.from_bytes(buffer)
            kept = tx.inputs[1], tx.outputs[0]
        elif kind == 1:
            tx = Tx.read(BytesIO(raw).read)
            kept = tx.outputs[0].script_pubkey, tx.inputs[1].prev_hash
        elif kind == 2:
            tx = Script(bx.push_item(large) + bx.push_item(small) + b'\xac')
            kept = [op for op in tx.ops() if op == small]
        elif kind == 3:
            tx = Tx.from_hex(raw.hex())
            kept = tx.hash(), tx.hex_hash(), tx.outputs[0].to_bytes()
        else:
            tx = bx.PrivateKey(bytes(31) + b'\1').sign(large), bx.PrivateKey(bytes(31) + b'\1').sign_message(large)
            kept = tx
        tx = None
        gc.collect()
        held = tracemalloc.get_traced_memory()[0] - before
    finally:
        tracemalloc.stop()
    ctx.ok(bool(kept), 'nothing kept')
    ctx.n('parts kept')
    ctx.case((kind, small))
    ctx.ok(held < size // 4, 'part keeps the whole', f'{held:,d} bytes are held by a part of a few ({kind})')
