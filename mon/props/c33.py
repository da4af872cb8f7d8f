import gc
import os
import bitcoinx as bx
import tree
from bitcoinx import CheckPoint
from tree import Sim, Tree
from engine import workload
from props import c30

PROP, LEVEL = 'C33', 'exploration'
FILES = ['chain.py', 'util.py']
RULE = ('random histories of connections, forks, rejections and headers set below the checkpoint, cut at random '
        'points by closing, flushing or abandoning the collection and opening the file again, many times over, '
        'also around the file\'s growth steps and 65,536 headers; opening with a later or an earlier checkpoint of the stored chain, '
        'with one the file does not hold, and over files of other content and files with a larger reserved area. After each opening all observable '
        'state is compared with a model tree, and connecting goes on. Distinct by (history, cut).')
REQUIRE = {'reopened': 2000, 'reopened with forks': 1200, 'connect new': 15000, 'states compared': 2500,
           'later checkpoint': 300, 'later checkpoint with forks above': 150, 'earlier checkpoint': 100,
           'other checkpoint': 300, 'checkpoint at a shifted index': 80, 'file of other content': 200,
           'later checkpoint above a fork': 20, 'headers below kept': 500, 'closed': 500, 'abandoned': 500,
           'growth boundary': 20, 'more than 65536 headers': 2, 'larger reserved area': 60}
ASSUMPTIONS = ['the file is used by one collection at a time',
               'when opened with an earlier checkpoint, the headers between it and the old one are all present']


def reopen(ctx, rng, sim, checkpoint=None):
    how = rng.randrange(4)
    if how == 0:
        tree.close(sim.headers)
        ctx.n('closed')
    elif how == 1:
        sim.headers.flush()
        tree.close(sim.headers)
        ctx.n('closed')
    elif how == 2:
        sim.headers.flush()
        ctx.n('abandoned')
    else:
        ctx.n('abandoned')
    sim.headers = None
    if how == 3:
        gc.collect()
    cache = rng.choice([None, None, 0, 3, 50])
    sim.cls = bx.Headers if cache is None else type('Small', (bx.Headers,), {'max_cache_size': cache})
    try:
        sim.headers = sim.open(checkpoint)
    except Exception as e:
        ctx.fail('reopening', f'{e!r} with {len(sim.tree.order)} headers in {len(sim.tree.chains)} chains')
    ctx.n('reopened')
    ctx.n('reopened with forks', len(sim.tree.chains) > 1)


def grow(ctx, rng, sim, count):
    t = sim.tree
    for _ in range(count):
        k = rng.random()
        if k < 0.85:
            sim.connect(sim.child(c30.pick_parent(rng, t)))
        elif k < 0.9 and len(t.order) > 1:
            sim.connect(rng.choice(t.order[1:]).raw)
        elif k < 0.95:
            sim.connect(sim.child(rng.choice(t.order), kind=tree.HIGH))
        elif t.root.height:
            h = rng.randrange(t.root.height)
            t.below[h] = raw = rng.randbytes(80)
            sim.headers.set_one(h, raw)


def compare(ctx, rng, sim, nodes=None):
    tree.check_state(ctx, rng, sim.headers, sim.tree, nodes, 4, 6)
    t = sim.tree
    chain = sim.headers.chains()[0]
    for h, raw in list(t.below.items())[:10]:
        ctx.eq(sim.headers.raw_header_at_height(chain, h), raw, 'header below the checkpoint')
        ctx.n('headers below kept')
    longest = t.longest()
    ctx.ok(sim.headers.longest_chain() is sim.headers.chains()[longest.id], 'longest chain')


def new_sim(ctx, rng, i, name, height=None):
    height = rng.choice([0, 0, 1, 5, 60]) if height is None else height
    return Sim(ctx, rng, os.path.join(ctx.tmp, f'{name}{i}'), height,
               rng.choice([None, None, None, b'\x11\x22']), rng.choice(['constant', 'timestamp', 'branch']),
               rng.choice([None, 5]), i % 16 == 0, rng.choice([0, rng.getrandbits(80)]))


@workload(480, 24000)
def same_checkpoint(ctx, rng, i):
    sim = new_sim(ctx, rng, i, 's')
    for cut in range(rng.randrange(2, 9)):
        grow(ctx, rng, sim, rng.choice([0, 1, 1, 2, 5, 15, 40]))
        reopen(ctx, rng, sim)
        ctx.case((i, cut, len(sim.tree.order), len(sim.tree.chains)))
        compare(ctx, rng, sim, 60)
    grow(ctx, rng, sim, 10)
    compare(ctx, rng, sim)
    ctx.sample(headers=len(sim.tree.order), chains=len(sim.tree.chains), height=sim.tree.root.height)
    sim.close()


@workload(4, 24)
def growth(ctx, rng, i):
    '''Reopening about the points where the file grows.'''
    sim = new_sim(ctx, rng, 1, f'g{i}', [0, 1, 5, 60][i % 4])
    sim.extend(sim.tree.root, 4994)
    for cut in range(14):
        grow(ctx, rng, sim, rng.choice([1, 1, 2]))
        reopen(ctx, rng, sim)
        compare(ctx, rng, sim, 60)
        ctx.n('growth boundary')
        ctx.case((i, cut))
    sim.close()




@workload(1, 6)
def many(ctx, rng, i):
    '''More headers than 2^16 after the checkpoint, with branches at, below and above that many.'''
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'm{i}'), rng.choice([0, 1, 60]), None, 'timestamp')
    t = sim.tree
    start = t.root.height
    sim.close(unlink=False)
    sim.headers = None
    node, raws = t.root, []

    def add(parent):
        node = t.judge(sim.child(parent))[1]
        t.add(node)
        raws.append(node.raw)
        return node

    for k in range(65_400):
        node = add(node)
        if k in (100, 65_000) or rng.random() < 0.0003:
            for _ in range(rng.randrange(1, 4)):
                add(rng.choice(t.order[-50:]))
    while len(t.order) + start < 65_530:
        node = add(node)
    with open(sim.path, 'r+b') as f:
        f.seek(4)
        f.write((start + len(t.order)).to_bytes(4, 'little'))
        f.seek(8 + 80 * (start + 1))
        f.write(b''.join(raws))
    sim.headers = sim.open()
    compare(ctx, rng, sim, 300)
    for count in (6 + i % 2, 1, rng.choice([1, 30, 6000]), 100):
        for _ in range(count):
            parent = t.chains[0].tip if rng.random() < 0.9 else rng.choice(t.order[-100:])
            sim.connect(sim.child(parent))
        sim.connect(sim.child(rng.choice(t.order)))
        reopen(ctx, rng, sim)
        compare(ctx, rng, sim, 300)
        for node in t.order[65_490:]:
            tree.check_lookup(ctx, sim.headers, node)
        ctx.n('more than 65536 headers', len(t.order) > 65_536)
    ctx.case((i, len(t.order)))
    sim.close()


@workload(400, 21000)
def later_checkpoint(ctx, rng, i):
    '''Forks are stored only after the later checkpoint, and above it.'''
    sim = new_sim(ctx, rng, i, 'l')
    if rng.random() < 0.5 and sim.tree.root.height:
        grow(ctx, rng, sim, 0)
        h = rng.randrange(sim.tree.root.height)
        sim.tree.below[h] = raw = rng.randbytes(80)
        sim.headers.set_one(h, raw)
    t = sim.tree
    sim.extend(t.root, rng.randrange(1, 30))
    base = rng.choice(t.order[1:])
    for _ in range(rng.choice([0, 3, 20])):
        parent = rng.choice([n for n in t.order if n.height >= base.height])
        if rng.random() < 0.3:
            parent = t.chains[0].tip
        sim.connect(sim.child(parent))
    new = Tree(sim.coin, sim.required, base.raw, base.height, base.parent.work)
    new.below = dict(t.below)
    for node in t.order:
        if node.height < base.height:
            new.below[node.height] = node.raw
    # The branch-dependent rule stops at the checkpoint, so all that counts is the order of the headers
    for node in t.order:
        if node.height > base.height:
            parent = new.by_hash[node.parent.hash]
            new.add(tree.Node(node.raw, node.hash, node.height, parent, parent.work))
    sim.tree = new
    ctx.case((i, base.height, len(new.order)))
    reopen(ctx, rng, sim, new.checkpoint)
    ctx.n('later checkpoint')
    ctx.n('later checkpoint with forks above', len(new.chains) > 1)
    compare(ctx, rng, sim)
    for _ in range(rng.randrange(6)):
        sim.connect(sim.child(c30.pick_parent(rng, new)))
    reopen(ctx, rng, sim, new.checkpoint)
    compare(ctx, rng, sim)
    sim.close()


@workload(160, 8000)
def earlier_checkpoint(ctx, rng, i):
    '''The headers from the earlier checkpoint up have been set by height.'''
    sim = new_sim(ctx, rng, i, 'e', rng.choice([0, 1, 4]))
    t = sim.tree
    nodes = [t.root]
    for _ in range(rng.randrange(1, 25)):
        nodes.append(sim.connect(sim.child(nodes[-1]))[1])
    top = nodes[-1]
    sim.close()
    # From the top only
    sim.tree = Tree(sim.coin, sim.required, top.raw, top.height, top.parent.work)
    sim.headers = sim.open()
    for node in rng.sample(nodes[:-1], len(nodes) - 1):
        sim.headers.set_one(node.height, node.raw)
    grown = []
    for _ in range(rng.choice([0, 2, 15])):
        grown.append(sim.connect(sim.child(c30.pick_parent(rng, sim.tree)))[1])
    low = rng.choice(nodes[:-1])
    new = Tree(sim.coin, sim.required, low.raw, low.height, low.parent.work if low.parent else 0)
    for node in nodes:
        if node.height < low.height:
            new.below[node.height] = node.raw
    for node in [n for n in nodes if n.height > low.height] + grown:
        parent = new.by_hash[node.raw[4:36]]
        new.add(tree.Node(node.raw, node.hash, node.height, parent, parent.work))
    sim.tree = new
    ctx.case((i, low.height, top.height, len(new.order)))
    reopen(ctx, rng, sim, new.checkpoint)
    ctx.n('earlier checkpoint')
    compare(ctx, rng, sim)
    grow(ctx, rng, sim, 5)
    reopen(ctx, rng, sim)
    compare(ctx, rng, sim)
    sim.close()


@workload(400, 21000)
def other_checkpoint(ctx, rng, i):
    '''The file does not hold the checkpoint's header at its height: it is made anew.'''
    sim = new_sim(ctx, rng, i, 'o')
    t = sim.tree
    grow(ctx, rng, sim, rng.choice([0, 1, 10, 60]))
    last = t.len() - 1
    candidates = []
    shifted = [n for n in t.order if n.index != n.height]
    if shifted:
        candidates += [(n.raw, n.height) for n in rng.sample(shifted, min(3, len(shifted)))]
    fresh = sim.child(rng.randbytes(32))
    candidates += [(fresh, h) for h in (t.root.height, 0, last, last + 1, last + 2, last + 5000, last + 4998,
                                         rng.randrange(last + 1))]
    near = t.order[-1]
    if near is not t.root:
        k = rng.choice([*range(72), *range(76, 80)])    # not the bits; they must be an encoding
        changed = near.raw[:k] + bytes([near.raw[k] ^ 1 << rng.randrange(8)]) + near.raw[k + 1:]
        if sim.coin.header_hash(changed) != near.hash:
            candidates.append((changed, near.index))
        candidates.append((near.raw, near.index + 1))
    raw, height = candidates[0] if shifted and rng.random() < 0.4 else rng.choice(candidates)
    if raw == bytes(80):
        return
    sim.tree = Tree(sim.coin, sim.required, raw, height, rng.getrandbits(40))
    ctx.case((i, height, len(t.order)))
    reopen(ctx, rng, sim)
    ctx.n('other checkpoint')
    ctx.n('checkpoint at a shifted index', any(n.raw == raw for n in shifted))
    compare(ctx, rng, sim)
    for h in rng.sample(range(height), min(height, 20)):
        ctx.raises(bx.MissingHeader, 'header of the old file', sim.headers.raw_header_at_height,
                   sim.headers.chains()[0], h)
    grow(ctx, rng, sim, 5)
    reopen(ctx, rng, sim)
    compare(ctx, rng, sim)
    sim.close()


@workload(240, 11000)
def other_content(ctx, rng, i):
    '''What was in the file is no headers file.'''
    sim = new_sim(ctx, rng, i, 'c')
    grow(ctx, rng, sim, rng.choice([0, 5]))
    tree.close(sim.headers)
    with open(sim.path, 'rb') as f:
        data = f.read()
    k = i % 6
    if k == 0:
        data = data[:rng.choice([0, 1, 2, 4, 7, 8])]
    elif k == 1:
        data = data[:8 + 80 * sim.tree.root.height + rng.randrange(80)]
    elif k == 2:
        data = rng.randbytes(rng.randrange(1, 200))
    elif k == 3:
        data = data[:2] + rng.choice([b'\1\0', b'\0\1', b'\xff\xff']) + data[4:]
    elif k == 4:
        at = 8 + 80 * sim.tree.root.height + rng.randrange(80)
        data = data[:at] + bytes([data[at] ^ 1]) + data[at + 1:]
    else:
        data = bytes(rng.choice([8, 80, 88, 500]))
    with open(sim.path, 'wb') as f:
        f.write(data)
    sim.tree = Tree(sim.coin, sim.required, sim.tree.root.raw, sim.tree.root.height, sim.tree.prev_work)
    sim.headers = sim.open()
    ctx.n('file of other content')
    ctx.case((k, data[:200]))
    compare(ctx, rng, sim)
    grow(ctx, rng, sim, 5)
    reopen(ctx, rng, sim)
    compare(ctx, rng, sim)
    sim.close()


@workload(80, 3000)
def reserved(ctx, rng, i):
    '''A file with a larger reserved area, as a later version may make.'''
    sim = new_sim(ctx, rng, i, 'r')
    grow(ctx, rng, sim, rng.choice([1, 5, 30]))
    tree.close(sim.headers)
    sim.headers = None
    with open(sim.path, 'rb') as f:
        data = f.read()
    size = rng.choice([9, 10, 16, 20, 40, 88, 100, 255, 256, 1000, 65535])
    area = rng.randbytes(size - 8)
    with open(sim.path, 'wb') as f:
        f.write(size.to_bytes(2, 'little') + data[2:8] + area + data[8:])
    sim.headers = sim.open()
    ctx.n('larger reserved area')
    ctx.case((size, data[8:200], len(data)))
    compare(ctx, rng, sim)
    for _ in range(3):
        grow(ctx, rng, sim, rng.choice([1, 5, 30]))
        reopen(ctx, rng, sim)
        compare(ctx, rng, sim, 60)
    sim.headers.flush()
    with open(sim.path, 'rb') as f:
        data = f.read(size)
    ctx.ok(data[:2] == size.to_bytes(2, 'little') and data[8:] == area, 'reserved area changed', size)
    sim.close()


@workload(24, 540)
def later_checkpoint_above_a_fork(ctx, rng, i):
    '''A branch that leaves the base chain below the later checkpoint is stored above it.'''
    sim = new_sim(ctx, rng, i, 'k')
    t = sim.tree
    sim.extend(t.root, rng.randrange(3, 12))
    base = rng.choice(t.order[2:])
    fork = sim.connect(sim.child(t.chains[0].at(rng.randrange(t.root.height, base.height - 1) if
                                                base.height - 1 > t.root.height else t.root.height)))[1]
    ctx.n('later checkpoint above a fork')
    ctx.case((i, base.height, fork.height))
    checkpoint = CheckPoint(base.raw, base.height, base.parent.work)
    sim.close(unlink=False)
    try:
        headers = sim.open(checkpoint)
    except bx.MissingHeader as e:
        ctx.ok(sim.file_bytes()[8:8 + 80 * t.len()] ==
               bytes(80 * t.root.height) + b''.join(n.raw for n in t.order), 'file changed by a failed opening')
        os.unlink(sim.path)
        ctx.fail('later-checkpoint-above-a-fork', f'opening with a checkpoint at height {base.height}, when a '
                 f'branch at height {fork.height} is stored after it, raised {e!r}')
    chain = headers.chains()[0]
    tip = t.chains[0].tip
    ctx.eq((chain.tip.raw, chain.height, chain.work), (tip.raw, tip.height, tip.work), 'base chain kept')
    for height in range(base.height, tip.height + 1):
        tree.check_header(ctx, headers.header_at_height(chain, height), t.chains[0].at(height), 'header kept')
    tree.close(headers)
    os.unlink(sim.path)
