import gc
import os
import signal
import sys
import time
import tracemalloc

import bitcoinx as bx
import tree
from engine import workload
from props import c44
from tree import HEADER, SimCoin, BITS

PROP, LEVEL = 'C46', 'exploration'
FILES = ['chain.py', 'coin.py']
RULE = ('collections of up to 32,000 headers (130,000 in the thorough tier) in one chain, with many branches, or '
        'branches of branches of branches, whose hashes begin at random, all alike or out of step, at checkpoints at '
        'and above zero. A meter counts the lines of the repository executed in each operation, a timer its CPU time '
        'and tracemalloc what the collection holds; the steps are compared with a budget in the headers or the '
        'chains, the time with that in a collection of a 16th of the size. Distinct by (shape, operation).')
REQUIRE = {'operations metered': 8000, 'operations by height': 3000, 'lookups': 1500, 'refused': 1500, 'connected': 300,
           'growths of time': 100, 'openings': 20, 'lines': 5, 'combs': 5, 'nests': 5, 'hashes alike': 8, 'memory': 4,
           'unknown hashes that begin like known ones': 300}

BY_HEIGHT = 400, 40          # lines, and for each chain
BY_HASH = 500, 120           # lines, and for each header
CONNECT = 6_000, 40
TIMES = 16
ALPHABETS = [None, b'\x11', b'\x11\x11\x11\x12', b'\x00\x01']


def build(rng, shape, size, alphabet, height, path):
    '''A file of headers and what is in it: [(raw, hash, parent position)], with the root first.'''
    bits = BITS[0]
    raw = tree.make_raw(rng, rng.randbytes(32), 1, bits)
    coin = SimCoin(raw, lambda headers, chain, height, timestamp: bits, alphabet)
    nodes = [(raw, coin.header_hash(raw), None)]

    def add(parent):
        raw = tree.make_raw(rng, nodes[parent][1], 1, bits)
        nodes.append((raw, coin.header_hash(raw), parent))
        return len(nodes) - 1

    branches = 0 if shape == 'line' else min(size // 4, 600 if alphabet is None or size < 5_000 else 20)
    tip = 0
    while len(nodes) < size - 2 * branches:
        tip = add(tip)
    main = tip
    before = 0
    for k in range(branches):
        if shape == 'comb':
            tip = add(tip) if k % 2 else add(main - rng.randrange(1, 50))
        else:
            # Each leaves the one before it below its tip
            before, tip = tip, add(main if k == 0 else before)
            before, tip = tip, add(tip)
    with open(path, 'wb') as f:
        f.write(bx.pack_le_uint16(8) + bytes(2) + bx.pack_le_uint32(height + len(nodes)) + bytes(80 * height))
        f.write(b''.join(node[0] for node in nodes))
    return coin, nodes, bx.CheckPoint(raw, height, 0)


def steps(ctx, name, fn, budget, *detail):
    '''Do it, and judge the lines executed.'''
    c44.install()
    mon = sys.monitoring
    ctx.n('operations metered')
    c44.lines = 0
    signal.setitimer(signal.ITIMER_PROF, 60)
    mon.set_events(c44.TOOL, mon.events.LINE)
    try:
        result, error = fn(), None
    except c44.TooLong:
        ctx.fail('time', f'{name} took over 60s of CPU time', *detail)
    except bx.MissingHeader as e:
        result, error = None, e
        ctx.n('refused')
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        mon.set_events(c44.TOOL, 0)
    ctx.n('lines metered', c44.lines)
    if os.environ.get('C44_TUNE'):
        print('TUNE', name, c44.lines, round(c44.lines / budget, 2), detail, flush=True)
    ctx.ok(c44.lines <= budget, 'steps', name, f'executed {c44.lines:,d} lines; at most {budget:,d} are expected', *detail)
    ctx.case((name, detail, c44.lines))
    return result, error


def alike(rng, hash_):
    return hash_[:4] + rng.randbytes(20) + bytes(8)


class Small(bx.Headers):
    max_cache_size = 20


def subject(rng, shape, size, alphabet, height, path, cls=Small):
    coin, nodes, checkpoint = build(rng, shape, size, alphabet, height, path)
    return coin, nodes, checkpoint, cls.from_file(coin, path, checkpoint)


@workload(24, 600)
def budgets(ctx, rng, i):
    shape = ['line', 'comb', 'nest'][i % 3]
    alphabet = ALPHABETS[i // 3 % 4]
    height = rng.choice([0, 1, 500])
    size = rng.choice([1_000, 3_000])
    ctx.n({'line': 'lines', 'comb': 'combs', 'nest': 'nests'}[shape])
    ctx.n('hashes alike', alphabet is not None)
    path = os.path.join(ctx.tmp, f'b{i}')
    coin, nodes, checkpoint, headers = subject(rng, shape, size, alphabet, height, path,
                                               rng.choice([Small, bx.Headers]))
    about = shape, len(nodes), headers.chain_count(), alphabet, height
    for _ in range(25):
        chains = headers.chains()
        by_height = BY_HEIGHT[0] + BY_HEIGHT[1] * len(chains)
        by_hash = BY_HASH[0] + BY_HASH[1] * len(nodes)
        chain, other = rng.choice([rng.choice(chains), chains[-1]]), rng.choice(chains)
        h = rng.choice([rng.randrange(height + len(nodes) + 5), chain.height, height, height + 1, -1, chain.height - 1])
        for name, fn in (
                ('header_at_height', lambda: headers.header_at_height(chain, h)),
                ('raw_header_at_height', lambda: headers.raw_header_at_height(chain, h)),
                ('longest_chain', headers.longest_chain), ('len', lambda: len(headers)),
                ('chain_count', headers.chain_count), ('chains', headers.chains),
                ('parent_heights', chain.parent_heights), ('desc', chain.desc),
                ('common_chain_and_height', lambda: chain.common_chain_and_height(other)),
                ('required_bits', lambda: headers.required_bits(chain, h, 1)),
                ('flush', headers.flush)):
            steps(ctx, name, fn, by_height, *about)
            ctx.n('operations by height')
        if chain.height >= height + 12:
            steps(ctx, 'median_time_past', lambda: headers.median_time_past(chain, chain.height), 12 * by_height, *about)
        low = max(height, chain.height - rng.randrange(20))
        steps(ctx, 'chainwork_range', lambda: headers.chainwork_range(chain, low, chain.height + 1),
              (chain.height + 2 - low) * by_height, *about)
        node = rng.choice(nodes)
        for hash_ in (rng.choice(nodes)[1], alike(rng, node[1]), rng.randbytes(32), nodes[-1][1]):
            steps(ctx, 'lookup', lambda: headers.lookup(hash_), by_hash, *about)
            ctx.n('lookups')
            ctx.n('unknown hashes that begin like known ones', hash_[:4] == node[1][:4])
        connect = CONNECT[0] + CONNECT[1] * (3 * len(nodes) + 50 * len(chains))
        fork = rng.choice(nodes[-50:])[1]
        for name, raw in (('of unknown parent', tree.make_raw(rng, alike(rng, node[1]), 1, BITS[0])),
                          ('known', rng.choice(nodes)[0] if node is nodes[0] else node[0]),
                          ('branch', tree.make_raw(rng, fork, 1, BITS[0])),
                          ('tip', tree.make_raw(rng, rng.choice(chains).tip.hash, 1, BITS[0]))):
            if raw is nodes[0][0]:
                continue
            at_tip = name == 'tip' and alphabet is None       # which is cached
            budget = CONNECT[0] + CONNECT[1] * len(chains) if at_tip else 2 * connect
            got, error = steps(ctx, 'connect ' + name, lambda: headers.connect(raw), budget, *about)
            ctx.eq(error is None, name != 'of unknown parent', 'connect', name, error)
            if name in ('branch', 'tip'):
                nodes.append((raw, got[0].hash, None))
                ctx.n('connected')
        for bits in (0x1b0404cb, 0x180696f4):
            bad = tree.make_raw(rng, nodes[-1][1], 1, bits)
            ctx.raises(bx.IncorrectBits, 'incorrect bits', headers.connect, bad)
    tree.close(headers)
    os.unlink(path)


def cpu(fn):
    signal.setitimer(signal.ITIMER_PROF, c44.PLAIN_SECONDS)
    start = time.thread_time()
    try:
        fn()
    except bx.MissingHeader:
        pass
    finally:
        end = time.thread_time()
        signal.setitimer(signal.ITIMER_PROF, 0)
    return end - start


def operations(rng, coin, nodes, checkpoint, headers, path):
    chains = headers.chains()
    first = len(nodes) // 10
    yield 'lookup of one unknown', lambda: headers.lookup(alike(rng, nodes[-1][1]))
    yield 'lookup of an early one', lambda: headers.lookup(nodes[first][1])
    yield 'lookup of a late one', lambda: headers.lookup(nodes[-first][1])
    yield 'lookup of any', lambda: headers.lookup(rng.randbytes(32))
    yield 'header of unknown parent', lambda: headers.connect(tree.make_raw(rng, alike(rng, nodes[-1][1]), 1, BITS[0]))
    yield 'known header', lambda: headers.connect(nodes[-first][0])
    yield 'branch', lambda: headers.connect(tree.make_raw(rng, nodes[first][1], 1, BITS[0]))
    yield 'heights', lambda: [headers.header_at_height(chains[-1], checkpoint.height + k) for k in range(50)]
    yield 'longest chain', headers.longest_chain
    yield 'common chain', lambda: chains[-1].common_chain_and_height(chains[len(chains) // 2])
    yield 'work', lambda: headers.chainwork_to_height(chains[0], checkpoint.height)


@workload(12, 72)
def growth(ctx, rng, i):
    shape = ['line', 'comb', 'nest'][i % 3]
    alphabet = ALPHABETS[i // 3 % 4]
    height = rng.choice([0, 1, 500])
    size = 8_000 if ctx.thorough and i % 4 == 0 else 2_000
    c44.install()
    ctx.n({'line': 'lines', 'comb': 'combs', 'nest': 'nests'}[shape])
    ctx.n('hashes alike', alphabet is not None)
    paths = [os.path.join(ctx.tmp, f'g{i}-{k}') for k in (0, 1)]
    sizes = [size, size * TIMES]
    subjects = []
    opening = []
    for k in (0, 1):
        coin, nodes, checkpoint = build(rng, shape, sizes[k], alphabet, height, paths[k])
        start = time.thread_time()
        headers = Small.from_file(coin, paths[k], checkpoint)
        opening.append(time.thread_time() - start)
        subjects.append((coin, nodes, checkpoint, headers))
        ctx.n('openings')
        ctx.eq(len(headers), height + len(nodes), 'length')
    if alphabet is None:
        # Branches from below what is cached are searched for
        ctx.ok(opening[1] < 1 or opening[1] < 5 * TIMES * opening[0], 'growth', 'opening', shape, alphabet, opening)
    ops = [list(operations(rng, *s, p)) for s, p in zip(subjects, paths)]
    for (name, small), (_name, large) in zip(*ops):
        ctx.n('growths of time')
        ctx.seen('operations timed', name)
        ctx.case((shape, alphabet, sizes[1], name))
        try:
            after = cpu(large)
            if after > 0.25:
                before = min(cpu(small) for _ in range(5))
                after = min([after] + [cpu(large) for _ in range(2)])
                ctx.ok(after < 0.25 or after < 5 * TIMES * before, 'growth', name, shape, alphabet,
                       f'took {before:.5f}s with {sizes[0]:,d} headers and {after:.5f}s with {sizes[1]:,d}')
        except c44.TooLong:
            ctx.fail('time', f'{name} took over {c44.PLAIN_SECONDS}s with {sizes[1]:,d} headers', shape, alphabet)
    for (coin, nodes, checkpoint, headers), path in zip(subjects, paths):
        tree.close(headers)
        os.unlink(path)


@workload(6, 48)
def memory(ctx, rng, i):
    '''What a collection holds for each header, beyond those it caches.'''
    shape = ['line', 'comb', 'nest'][i % 3]
    height = rng.choice([0, 500])
    path = os.path.join(ctx.tmp, f'm{i}')
    size = 40_000 if ctx.thorough else 12_000
    coin, nodes, checkpoint = build(rng, shape, size, None, height, path)
    gc.collect()
    tracemalloc.start()
    try:
        headers = bx.Headers.from_file(coin, path, checkpoint)
        tip = headers.longest_chain().tip
        for _ in range(2_000):
            tip, chain = headers.connect(tree.make_raw(rng, tip.hash, 1, BITS[0]))
        for node in rng.sample(nodes, 8_000):
            headers.lookup(node[1])
            headers.header_at_height(chain, height + rng.randrange(size - 1300))
        del node
        gc.collect()
        held, _ = tracemalloc.get_traced_memory()
    finally:
        tracemalloc.stop()
    chains = headers.chain_count()
    budget = 3_000_000 + 100 * len(headers) + 4_000 * chains
    ctx.n('memory')
    ctx.case((shape, len(headers), chains))
    if os.environ.get('C44_TUNE'):
        print('TUNE memory', shape, len(headers), chains, held, budget)
    ctx.ok(held <= budget, 'memory', shape, f'{held:,d} bytes held for {len(headers):,d} headers in {chains} chains')
    tree.close(headers)
    os.unlink(path)
