import os
import sys
import threading
import bitcoinx as bx
import engine
import tree
from bitcoinx import CheckPoint, Headers
from engine import case_rng, workload
from props import c29, c30
from props.c35 import Interleaver
from ref import work
from tree import Sim

PROP, LEVEL = 'C45', 'exploration'
FILES = ['chain.py', 'coin.py', 'work.py', 'util.py']
RULE = ('several trees alive at once in one process, of the same coin and genesis, the same checkpoint, or '
        'different coins, connected to in turns by one thread and each by a thread of its own, and two collections '
        'opened from one file; and one tree queried by 3 to 8 threads at once in every way (by hash, height, work, '
        'time, branch, required bits, headers already known, unknown or invalid), just opened or in use, with '
        'thread switches forced at random lines of the repository. Every answer is compared with the model tree '
        'of its own file, and all state again at the end. Distinct by (tree, query, thread).')
REQUIRE = {'queries in threads': 60000, 'line switches between threads': 20000, 'interleavings': 1000,
           'kinds of query': 19, 'refusals in threads': 4000, 'queries of a tree just opened': 10000,
           'trees side by side': 300, 'turns between trees': 8000, 'hashes of another tree': 1500,
           'same coin, different headers': 100, 'trees written by threads of their own': 100,
           'required bits in threads': 2500, 'twin histories': 12, 'one file opened twice': 60}
ASSUMPTIONS = ['no thread changes a tree while another reads it: the library has no locks and does not offer that',
               'threads are interleaved at lines of the repository and where native code releases the lock']


def outcome(fn, *args):
    try:
        return fn(*args), None
    except bx.ChainException as e:
        e.__traceback__ = None
        return None, e
    except Exception as e:
        return None, e


def in_threads(rng, bodies, rate):
    '''Run functions in threads of their own; the interleaver.  Exceptions come out.'''
    inter = Interleaver(rng, rate)
    gate = threading.Barrier(len(bodies))
    errors = []

    def run(fn):
        gate.wait()
        sys.settrace(inter.trace)
        try:
            fn()
        except BaseException as e:
            errors.append(e)
        finally:
            sys.settrace(None)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=run, args=(fn,), daemon=True) for fn in bodies]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    for e in errors:
        raise e
    return inter


def fields(header):
    return tuple(getattr(header, name) for name in tree.FIELDS)


def node_fields(node):
    return tree.HEADER.unpack(node.raw) + (node.hash, node.raw, node.height)


def rand_query(rng, sim):
    '''(kind, function of headers giving something comparable, what the model says).

    The answer is a plain value, or the type of a chain exception.'''
    t = sim.tree
    root = t.root.height
    model = rng.choice(t.chains)
    node = rng.choice(t.order)
    id_ = model.id
    k = rng.randrange(20)

    def chain_of(headers):
        return headers.chains()[id_]

    def found(pair, headers):
        return fields(pair[0]), headers.chains().index(pair[1])

    if k == 0:
        return 'lookup', lambda h: found(h.lookup(node.hash), h), (node_fields(node), node.chain.id)
    if k == 1:
        old = rng.choice(t.order[:10])
        return 'lookup of an old header', lambda h: found(h.lookup(old.hash), h), (node_fields(old), old.chain.id)
    if k == 2:
        hash_ = rng.choice([rng.randbytes(32), node.hash[:4] + rng.randbytes(28), node.hash[::-1]])
        return 'unknown hash', lambda h: h.lookup(hash_), bx.MissingHeader
    if k in (3, 4):
        height = rng.randrange(root, model.tip.height + 1)
        at = model.at(height)
        if k == 3:
            return 'header at height', lambda h: fields(h.header_at_height(chain_of(h), height)), node_fields(at)
        return 'raw header at height', lambda h: h.raw_header_at_height(chain_of(h), height), at.raw
    if k == 5:
        height = model.tip.height + rng.choice([1, 2, 50, 5000])
        return 'height above the tip', lambda h: h.header_at_height(chain_of(h), height), bx.MissingHeader
    if k == 6:
        height = rng.randrange(-3, root) if root else -rng.randrange(1, 4)
        raw = t.below.get(height)
        return ('height below the checkpoint', lambda h: h.raw_header_at_height(chain_of(h), height),
                raw or bx.MissingHeader)
    if k == 7:
        start = rng.randrange(root, model.tip.height + 1)
        end = min(start + rng.randrange(30), model.tip.height + 1)
        return ('work of a range', lambda h: h.chainwork_range(chain_of(h), start, end),
                sum(work.work(model.at(x).bits) for x in range(start, end)))
    if k == 8:
        height = max(root, model.tip.height - rng.randrange(20))
        return ('work to a height', lambda h: h.chainwork_to_height(chain_of(h), height), model.at(height).work)
    if k in (9, 10):
        other = rng.choice(t.chains)
        want = t.common(model, other)

        def common(h):
            chain, height = chain_of(h).common_chain_and_height(h.chains()[other.id])
            return h.chains().index(chain), height
        return 'common chain', common, want
    if k == 11:
        return ('parent heights', lambda h: {h.chains().index(c): x for c, x in chain_of(h).parent_heights().items()},
                t.fork_heights(model))
    if k == 12:
        return ('longest chain', lambda h: h.chains().index(h.longest_chain()), t.longest().id)
    if k == 13:
        height = rng.randrange(root, model.tip.height + 1)
        times, x = [], model.at(height)
        # Headers below the checkpoint may be missing
        while x is not None and len(times) < 11:
            times.append(x.time)
            x = x.parent
        height_of_last = height - len(times) + 1
        if len(times) < 11 and height_of_last > 0:
            raws = [t.below.get(y) for y in range(height_of_last - 1, max(-1, height - 11), -1)]
            if not all(raws):
                return 'median time', lambda h: h.median_time_past(chain_of(h), height), bx.MissingHeader
            times += [int.from_bytes(raw[68:72], 'little') for raw in raws]
        return ('median time', lambda h: h.median_time_past(chain_of(h), height), sorted(times)[len(times) // 2])
    if k == 14:
        height = rng.randrange(root, model.tip.height + 1)
        time = rng.getrandbits(32)
        return ('required bits', lambda h: h.required_bits(chain_of(h), height + 1, time),
                sim.required(model.at(height), time))
    if k == 15:
        return ('counts', lambda h: (len(h), h.chain_count(), len(h.chains())),
                (t.len(), len(t.chains), len(t.chains)))
    if k == 16:
        def shape(h):
            chain = chain_of(h)
            parent = None if chain.parent is None else h.chains().index(chain.parent)
            return fields(chain.tip), chain.height, chain.work, chain.first_height, parent
        want = (node_fields(model.tip), model.tip.height, model.tip.work, model.first_height,
                None if model.parent is None else model.parent.id)
        return 'chain', shape, want
    if k == 17 and node.parent is not None:
        return 'known header', lambda h: found(h.connect(node.raw), h), (node_fields(node), node.chain.id)
    if k == 18:
        raw = sim.child(rng.choice([rng.randbytes(32), node.hash[1:] + b'\1']))
        return 'header without a parent', lambda h: h.connect(raw), bx.MissingHeader
    bits = sim.required(node, 7)
    if rng.random() < 0.5:
        bad = rng.choice([b for b in tree.BITS if b != bits])
        raw = tree.make_raw(rng, node.hash, 7, bad)
        return 'header of wrong bits', lambda h: h.connect(raw), (bx.IncorrectBits, raw, bits)
    raw = sim.child(node, kind=tree.HIGH)
    return 'header without work', lambda h: h.connect(raw), (bx.InsufficientPoW, raw)


def judge(ctx, query, got, error, where):
    kind, _fn, want = query
    if isinstance(want, type):
        if type(error) is not want:
            ctx.fail(kind, f'{where} got {engine.short(got)} {error!r} want {want.__name__}')
    elif isinstance(want, tuple) and isinstance(want[0], type):
        if type(error) is not want[0] or error.header.raw != want[1]:
            ctx.fail(kind, f'{where} got {engine.short(got)} {error!r} want {want[0].__name__}')
        if len(want) > 2:
            ctx.eq(error.required_bits, want[2], 'required bits in the error', where)
    else:
        if error is not None:
            ctx.fail(kind, f'{where} raised {error!r}')
        ctx.eq(got, want, kind, where)
    ctx.n('oracle checks')


def set_below(rng, sim):
    root = sim.tree.root.height
    for h in {root - 1 - n for n in range(rng.choice([0, 3, 14]))}:
        if h >= 0:
            sim.tree.below[h] = raw = sim.child(rng.randbytes(32))
            sim.headers.set_one(h, raw)


def build(ctx, rng, name):
    height = rng.choice([0, 0, 1, 5, 40, 66000])
    alphabet = rng.choice([None, None, b'\0\1', b'\7'])
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, name), height, alphabet,
              rng.choice(['constant', 'timestamp', 'branch']), rng.choice([None, 0, 2, 10]),
              rng.random() < 0.15, rng.choice([0, rng.getrandbits(80)]))
    set_below(rng, sim)
    return sim


def grow(rng, sim, count):
    for _ in range(count):
        sim.connect(sim.child(c30.pick_parent(rng, sim.tree)))


@workload(64, 3600)
def readers(ctx, rng, i):
    '''One tree, several threads that ask.'''
    sim = build(ctx, rng, f'r{i}')
    grow(rng, sim, rng.choice([10, 40, 120]))
    headers = sim.headers
    fresh = rng.random() < 0.4
    if fresh:
        # Nothing was asked of this one before
        headers = sim.open()
        ctx.n('one file opened twice')
    queries = [rand_query(rng, sim) for _ in range(rng.choice([8, 60, 300]))]
    count = rng.choice([3, 4, 6, 8])
    jobs = [rng.choices(queries, k=rng.choice([150, 250])) for _ in range(count)]
    logs = [[] for _ in jobs]

    def body(n):
        def run():
            for query in jobs[n]:
                logs[n].append((query, *outcome(query[1], headers)))
        return run

    inter = in_threads(rng, [body(n) for n in range(count)], rng.choice([400, 3000, 20000]))
    for n, log in enumerate(logs):
        ctx.eq(len(log), len(jobs[n]), 'queries done')
        for query, got, error in log:
            judge(ctx, query, got, error, f'{count} threads, {len(sim.tree.order)} headers')
            ctx.seen('kinds of query', query[0])
            ctx.n('refusals in threads', error is not None)
        ctx.n('queries in threads', len(log))
        ctx.n('queries of a tree just opened', len(log) if fresh else 0)
        ctx.case((i, n))
    ctx.n('line switches between threads', inter.switches)
    for pair in inter.pairs:
        ctx.seen('interleavings', pair)
    tree.check_state(ctx, rng, headers, sim.tree, 40, 3, 8)
    if fresh:
        tree.close(headers)
    # and it can still be added to
    sim.extend(c30.pick_parent(rng, sim.tree), 2)
    tree.check_chains(ctx, sim.headers, sim.tree)
    ctx.sample(threads=count, switches=inter.switches, pairs=len(inter.pairs), headers=len(sim.tree.order))
    sim.close()


@workload(18, 900)
def real_rules(ctx, rng, i):
    '''The networks' difficulty rules and median times, asked by threads, several networks at a time.'''
    todo, opened = [], []
    for n in rng.sample(range(4), rng.choice([1, 2, 3])):
        coin, which = c29.NETS[n]
        top = c29.top_height(rng, which)
        past = c29.history(rng, top, 2180)
        c29.tune(rng, past)
        base = past[0].height
        first = max(1, base + 2170) if base else 1
        asked = [(rng.randrange(first, top + 2), rng.randrange(-2, 3) * 601) for _ in range(12)] if first <= top else []
        asked += [(top + 1, 600), (top + 1, 1201)] if asked else []
        salts = [rng.randbytes(32) for _ in past]
        for twin in range(rng.choice([1, 2, 3])):
            blocks = past
            if twin:
                # The last headers are the same, something before them is not
                changed = rng.choice([rng.randrange(1, 20), rng.randrange(100, 150), 2015, 2000])
                blocks, prev = [], None
                for b in past:
                    time, bits = b.time, b.bits
                    if top - b.height >= changed:
                        time = max(0, time - rng.choice([5000, 90000]))
                        bits = c29.LIMIT_BITS if rng.random() < 0.01 else bits
                    prev = work.Block(prev, b.height, time, bits)
                    blocks.append(prev)
                ctx.n('twin histories')
            path = os.path.join(ctx.tmp, f'd{i}-{n}-{twin}')
            raws = [c29.pack(b, salt, bytes(32)) for b, salt in zip(blocks, salts)]
            headers = Headers.from_file(coin, path, CheckPoint(raws[-1], top, 0))
            for b, raw in zip(blocks[:-1], raws):
                headers.set_one(b.height, raw)
            opened.append((headers, path))
            chain, = headers.chains()
            for height, later in asked:
                block = blocks[height - 1 - base]
                ts = max(0, min(past[height - 1 - base].time + later, 0xffffffff))
                todo.append((headers, chain, height, ts, which(block, ts, c29.LIMIT), work.median_time_past(block)
                             if block.height - base >= 10 or not base else None, coin.name))
    count = rng.choice([3, 4, 6])
    logs = [[] for _ in range(count)]
    jobs = [rng.choices(todo, k=60) for _ in range(count)] if todo else [[] for _ in range(count)]

    def body(n):
        def run():
            for headers, chain, height, ts, want, median, name in jobs[n]:
                got = outcome(headers.required_bits, chain, height, ts)
                time = outcome(headers.median_time_past, chain, height - 1) if median is not None else None
                logs[n].append((got, time, want, median, name, height, ts))
        return run

    inter = in_threads(rng, [body(n) for n in range(count)], rng.choice([400, 3000]))
    for log, job in zip(logs, jobs):
        ctx.eq(len(log), len(job), 'queries done')
        for got, time, want, median, name, height, ts in log:
            ctx.eq(got, (want, None), 'required bits', name, f'height {height} timestamp {ts}')
            if median is not None:
                ctx.eq(time, (median, None), 'median time past', name, f'height {height - 1}')
            ctx.n('required bits in threads')
            ctx.n('queries in threads')
        ctx.case((i, len(log), count, inter.switches))
    ctx.n('line switches between threads', inter.switches)
    for pair in inter.pairs:
        ctx.seen('interleavings', pair)
    for headers, path in opened:
        tree.close(headers)
        os.unlink(path)


def sibling(ctx, sim, name, kind):
    '''Another tree that could be confused with a tree.'''
    rng = sim.rng
    other = Sim.__new__(Sim)
    other.__dict__.update(sim.__dict__)
    other.path = os.path.join(ctx.tmp, name)
    if kind == 'same coin':
        t = sim.tree
        other.tree = tree.Tree(sim.coin, sim.required, t.root.raw, t.root.height, t.prev_work)
    else:
        # same coin object, another checkpoint
        raw = sim.child(rng.randbytes(32), bits=rng.choice(sim.table))
        height = max(0, sim.tree.root.height + rng.choice([-1, 0, 0, 3]))
        other.tree = tree.Tree(sim.coin, sim.required, raw, height, rng.getrandbits(70))
    other.headers = other.open()
    set_below(rng, other)
    return other


@workload(110, 7000)
def side_by_side(ctx, rng, i):
    '''Several trees, used in turns.'''
    sims = [build(ctx, rng, f's{i}')]
    for n in range(rng.choice([1, 2, 3, 5])):
        kind = rng.choice(['same coin', 'same coin', 'other checkpoint', 'other coin'])
        sims.append(build(ctx, rng, f's{i}-{n}') if kind == 'other coin' else
                    sibling(ctx, rng.choice(sims), f's{i}-{n}', kind))
        ctx.n('same coin, different headers', kind != 'other coin')
    ctx.n('trees side by side', len(sims))
    for step in range(rng.choice([40, 90, 160])):
        sim = rng.choice(sims)
        t = sim.tree
        k = rng.randrange(10)
        if k < 5:
            sim.connect(sim.child(c30.pick_parent(rng, t)))
        elif k < 6:
            # the same headers in both
            other = rng.choice(sims)
            for node in rng.sample(other.tree.order, min(3, len(other.tree.order))):
                if other.coin is sim.coin and node.parent is not None:
                    sim.connect(node.raw)
        elif k < 8:
            query = rand_query(rng, sim)
            judge(ctx, query, *outcome(query[1], sim.headers), f'{len(sims)} trees')
        else:
            other = rng.choice(sims)
            for node in rng.sample(other.tree.order, min(5, len(other.tree.order))):
                mine = t.by_hash.get(node.hash)
                if mine is not None:
                    tree.check_lookup(ctx, sim.headers, mine)
                else:
                    ctx.raises(bx.MissingHeader, 'hash of another tree', sim.headers.lookup, node.hash)
                    ctx.n('hashes of another tree')
        ctx.n('turns between trees')
        ctx.case((i, step))
        if rng.random() < 0.02:
            other = rng.choice(sims)
            again = other.open()
            tree.check_state(ctx, rng, again, other.tree, 5, 2, 3)
            tree.close(again)
            ctx.n('one file opened twice')
    for sim in sims:
        tree.check_state(ctx, rng, sim.headers, sim.tree, 20, 3, 8)
    # closing one leaves the others
    rng.shuffle(sims)
    sims.pop().close()
    for sim in sims:
        tree.check_state(ctx, rng, sim.headers, sim.tree, 5, 2, 4)
        sim.close()


class Quiet:
    '''A context for a thread: keeps what is counted, raises what fails.'''

    def __init__(self, ctx):
        self.ctx, self.counts = ctx, {}

    def n(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def seen(self, name, key):
        pass

    def case(self, key=None, nontrivial=True):
        pass

    def __getattr__(self, name):
        return getattr(self.ctx, name)


@workload(40, 2600)
def writers_apart(ctx, rng, i):
    '''Each thread has a tree of its own and adds to it.'''
    sims = [build(ctx, rng, f'w{i}')]
    for n in range(rng.choice([1, 2, 4])):
        kind = rng.choice(['same coin', 'same coin', 'other checkpoint', 'other coin'])
        sims.append(build(ctx, rng, f'w{i}-{n}') if kind == 'other coin' else
                    sibling(ctx, sims[0], f'w{i}-{n}', kind))
        ctx.n('same coin, different headers', kind != 'other coin')
    plans = []
    for n, sim in enumerate(sims):
        sim.rng = case_rng(ctx.seed, PROP, f'writer {i}', n)
        sim.ctx = Quiet(ctx)
        plans.append((sim, rng.choice([30, 60])))
    answers = [[] for _ in sims]

    def body(n):
        sim, count = plans[n]

        def run():
            for _ in range(count):
                if sim.rng.random() < 0.7:
                    sim.connect(sim.child(c30.pick_parent(sim.rng, sim.tree)))
                else:
                    query = rand_query(sim.rng, sim)
                    answers[n].append((query, *outcome(query[1], sim.headers)))
        return run

    inter = in_threads(rng, [body(n) for n in range(len(sims))], rng.choice([400, 3000, 20000]))
    for n, sim in enumerate(sims):
        for name, k in sim.ctx.counts.items():
            ctx.n(name, k)
        for query, got, error in answers[n]:
            judge(ctx, query, got, error, f'{len(sims)} writers')
            ctx.n('queries in threads')
        sim.ctx = ctx
        tree.check_state(ctx, rng, sim.headers, sim.tree, 40, 3, 8)
        again = sim.open()
        tree.check_state(ctx, rng, again, sim.tree, 10, 2, 3)
        tree.close(again)
        ctx.n('one file opened twice')
        ctx.n('trees written by threads of their own')
        ctx.n('trees side by side')
        ctx.case((i, n, inter.switches))
        sim.close()
    ctx.n('line switches between threads', inter.switches)
    for pair in inter.pairs:
        ctx.seen('interleavings', pair)
