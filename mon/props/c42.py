import os
import stable
import tree
from tree import Sim, Tree
from engine import workload
from props import c30

PROP, LEVEL = 'C42', 'fault_enumeration'
FILES = ['chain.py', 'util.py']
RULE = ('random histories of connections, forks, headers set below the checkpoint, flushes and reopenings, about '
        'and beyond the points where the file grows. The memory maps and syncs the library makes are wrapped, so '
        'that what the system has been asked to write out is known at every moment; after each flush, and again '
        'after more headers that are not flushed, the power fails: a file of just what was written out is opened '
        'with the real code and compared with the model as of the flush. Where the system refuses to write out, flush '
        'must raise. Distinct by the file\'s content.')
REQUIRE = {'power failures': 1500, 'write-outs observed': 800, 'headers flushed': 40000, 'flushes with forks': 250,
           'flushes after growth': 6, 'failures with headers not flushed': 300, 'flushes after reopening': 150,
           'headers set below and flushed': 150, 'write-outs refused': 100, 'flushes with nothing new': 100}
ASSUMPTIONS = ['the system writes out what it has said it has written out',
               'at the failure, nothing written after the flush has reached the disk']


def snapshot(sim):
    '''A copy of the model.'''
    t = sim.tree
    new = Tree(sim.coin, sim.required, t.root.raw, t.root.height, t.prev_work)
    for node in t.order[1:]:
        parent = new.by_hash[node.raw[4:36]]
        new.add(tree.Node(node.raw, node.hash, node.height, parent, parent.work))
    new.below = dict(t.below)
    return new


def fail_power(ctx, rng, sim, model, what):
    data = stable.contents(sim.path)
    ctx.ok(data is not None, 'nothing was written out', what)
    path = sim.path + '-disk'
    with open(path, 'wb') as f:
        f.write(data)
    ctx.n('power failures')
    ctx.case((what, data[:200_000]))
    try:
        headers = sim.cls.from_file(sim.coin, path, model.checkpoint)
    except Exception as e:
        ctx.fail('cannot be opened', f'{e!r} opening what was written out, {what}, {len(model.order)} headers '
                 f'flushed, size {len(data)}')
    ctx.eq(len(headers), model.len(), 'headers on the disk', what)
    tree.check_state(ctx, rng, headers, model, 30, 2, 3)
    chain = headers.chains()[0]
    for h, raw in model.below.items():
        ctx.eq(headers.raw_header_at_height(chain, h), raw, 'header below the checkpoint', what)
        ctx.n('headers set below and flushed')
    tree.close(headers)
    stable.forget(path)
    os.unlink(path)


def flush(ctx, rng, sim, what):
    before = len(stable.events)
    sim.headers.flush()
    ctx.n('write-outs observed', len(stable.events) - before)
    ctx.n('headers flushed', len(sim.tree.order))
    ctx.n('flushes with forks', len(sim.tree.chains) > 1)
    model = snapshot(sim)
    fail_power(ctx, rng, sim, model, what)
    return model


def refused(ctx, rng, sim):
    '''The system cannot write out.'''
    stable.refuse = 1
    try:
        _, error = ctx.outcome(sim.headers.flush)
        asked = not stable.refuse
    finally:
        stable.refuse = 0
    ctx.n('write-outs refused', asked)
    if error is None:
        # Perhaps it was tried again
        fail_power(ctx, rng, sim, snapshot(sim), 'a flush returned though a write-out was refused')
    else:
        ctx.ok(isinstance(error, OSError), 'error of a refused write-out', error)
        ctx.n('flushes refused')
    tree.check_state(ctx, rng, sim.headers, sim.tree, 10, 2, 3)


def some(ctx, rng, sim, count):
    t = sim.tree
    for _ in range(count):
        k = rng.random()
        if k < 0.85:
            sim.connect(sim.child(c30.pick_parent(rng, t)))
        elif k < 0.92 and len(t.order) > 1:
            sim.connect(rng.choice(t.order[1:]).raw)
        elif t.root.height:
            h = rng.randrange(t.root.height)
            t.below[h] = raw = rng.randbytes(80)
            sim.headers.set_one(h, raw)


@workload(240, 9000)
def flushes(ctx, rng, i):
    stable.install()
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'f{i}'), rng.choice([0, 0, 1, 5, 60, 200]), None,
              rng.choice(['constant', 'timestamp', 'branch']), rng.choice([None, 5]))
    for n in range(rng.randrange(2, 7)):
        some(ctx, rng, sim, rng.choice([0, 1, 1, 2, 10, 60, 120]))
        if rng.random() < 0.25:
            refused(ctx, rng, sim)
        model = flush(ctx, rng, sim, 'flushed')
        if rng.random() < 0.15:
            flush(ctx, rng, sim, 'flushed again')
            ctx.n('flushes with nothing new')
        if rng.random() < 0.5:
            some(ctx, rng, sim, rng.choice([1, 2, 30]))
            fail_power(ctx, rng, sim, model, 'more connected but not flushed')
            ctx.n('failures with headers not flushed')
        if rng.random() < 0.3:
            tree.close(sim.headers)
            sim.headers = sim.open()
            flush(ctx, rng, sim, 'reopened and flushed')
            ctx.n('flushes after reopening')
    ctx.sample(headers=len(sim.tree.order), chains=len(sim.tree.chains), events=stable.events[-3:])
    stable.forget(sim.path)
    sim.close()
    stable.events.clear()


@workload(4, 40)
def growth(ctx, rng, i):
    '''Flushing before and after the file grows, and only after.'''
    stable.install()
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'g{i}'), [0, 1, 5, 60][i % 4], None, 'constant')
    sim.extend(sim.tree.root, 4990 - sim.tree.root.height)
    if i % 2:
        flush(ctx, rng, sim, 'flushed before growth')
    size = os.stat(sim.path).st_size
    for n in range(16):
        some(ctx, rng, sim, rng.choice([1, 2]))
        if os.stat(sim.path).st_size != size or rng.random() < 0.3:
            flush(ctx, rng, sim, 'flushed about growth')
            ctx.n('flushes after growth', os.stat(sim.path).st_size != size)
            if rng.random() < 0.2:
                size = os.stat(sim.path).st_size
    some(ctx, rng, sim, 30)
    flush(ctx, rng, sim, 'flushed about growth')
    ctx.n('flushes after growth', os.stat(sim.path).st_size != size)
    stable.forget(sim.path)
    sim.close()
    stable.events.clear()
