import os
import tree
from tree import Sim
from engine import workload

PROP, LEVEL = 'C30', 'exploration'
FILES = ['chain.py', 'coin.py']
RULE = ('random sequences of extensions, forks near and far below tips, forks of forks, duplicates, orphans and '
        'invalid headers, with checkpoints at height 0 to beyond 65,535, difficulty rules that depend on the '
        'timestamp or the branch, real hashes and hashes forced to share aligned and misaligned short hashes, '
        'cache sizes 0 to 1,000, thousands of headers, hundreds of chains and chains nested 1,500 deep; all '
        'observable state is compared with a model tree during and at the end. Distinct by (case, step).')
REQUIRE = {'connect new': 20000, 'connect known': 1500, 'connect missing': 300, 'connect bits': 200,
           'connect pow': 150, 'forks': 2500, 'forks of forks': 500, 'lookups': 30000, 'heights': 30000,
           'heights on a parent chain': 5000, 'heights above the tip': 2000,
           'heights below the checkpoint': 1000, 'unknown hashes': 3000, 'states compared': 700,
           'shared short hash': 5000, 'chains over 256': 1, 'headers over the default cache': 3,
           'file grown twice': 1, 'setting refused': 1000, 'nesting over 1000': 1, 'height over 65535': 20, 'real hashes': 20,
           'tiny cache': 50, 'chains over 65536': 1}


def pick_parent(rng, tree_):
    k = rng.randrange(10)
    if k < 5:
        return rng.choice(tree_.chains[-8:]).tip
    if k < 6:
        return tree_.order[-1]
    if k < 7:
        return rng.choice(tree_.chains).nodes[0]
    if k < 8:
        chain = rng.choice(tree_.chains)
        return chain.nodes[-1 - rng.randrange(min(len(chain.nodes), 8))]
    return rng.choice(tree_.order)


def step(ctx, rng, sim):
    t = sim.tree
    k = rng.randrange(100)
    if k < 70:
        parent = pick_parent(rng, t)
        fork = parent.chain.tip is not parent
        kind = tree.LOW
        raw = sim.child(parent, kind=kind)
        if not sim.real and rng.random() < 0.02:
            exact = sim.child(parent, kind=tree.EXACT)
            if sim.coin.header_hash(exact) not in t.by_hash:
                raw = exact
                ctx.n('hash exactly at the target')
        verdict, _node = sim.connect(raw)
        ctx.eq(verdict, 'new', 'generator')
        if fork:
            ctx.n('forks')
            ctx.n('forks of forks', parent.chain.id > 0)
        if rng.random() < 0.1:
            sim.connect(raw)
    elif k < 78:
        node = rng.choice(t.order[-20:] if rng.random() < 0.5 else t.order)
        if node is not t.root:
            sim.connect(node.raw)
    elif k < 82:
        sim.connect(sim.child(rng.choice([rng.randbytes(32), bytes(32), t.root.raw[4:36],
                                          rng.choice(t.order).hash[:-1] + b'\x7f'])))
    elif k < 86:
        parent = pick_parent(rng, t)
        bits = rng.choice([b for b in tree.BITS] + [0, 0x1d00ffff + 1, 0xffffffff, 0x207fffff])
        if bits != sim.required(parent, 7):
            sim.connect(sim.child(parent, time=7, bits=bits, kind=tree.LOW))
    elif k < 89:
        sim.connect(sim.child(pick_parent(rng, t), kind=rng.choice([tree.OVER, tree.HIGH])))
    elif k < 94:
        tree.check_lookup(ctx, sim.headers, rng.choice(t.order))
    elif k < 97:
        model = rng.choice(t.chains)
        tree.check_heights(ctx, sim.headers, t, model, tree.interesting_heights(rng, t, model, 3))
    else:
        tree.check_unknown(ctx, rng, sim.headers, t)
        tree.check_chains(ctx, sim.headers, t)
    ctx.seen('states', (len(t.order), len(t.chains), t.order[-1].hash))
    ctx.case((ctx.index, k, len(t.order)))


def refuse_set(ctx, rng, sim):
    '''Headers are set by height up to the checkpoint only.'''
    t = sim.tree
    size = len(sim.headers)
    top = t.root.height
    for h in {-1, -size, -size - 1, top + 1, size - 1, size, size + 1, rng.randrange(top + 1, size + 6)}:
        if h < 0 or h > top:
            ctx.n('setting refused')
            ctx.raises(ValueError, 'setting a header above the checkpoint', sim.headers.set_one, h,
                       rng.randbytes(80))
            ctx.eq(len(sim.headers), size, 'length after a refused setting', h)
    tree.check_lookup(ctx, sim.headers, t.order[-1])
    tree.check_lookup(ctx, sim.headers, rng.choice(t.order))


@workload(320, 24000)
def sequences(ctx, rng, i):
    height = rng.choice([0, 0, 0, 1, 2, 10, 100, 2015, 65534, 65535, 65536, 70000, 500000])
    alphabet = rng.choice([None, None, b'\x11\x22', b'\x00', b'\x00\x01', b'\x07\x08\x09'])
    cache = rng.choice([None, None, 0, 1, 2, 3, 5, 16, 64])
    real = i % 8 == 0
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f's{i}'), height, alphabet,
              rng.choice(['constant', 'timestamp', 'branch', 'branch']), cache, real,
              rng.choice([0, 0, rng.getrandbits(90)]))
    ctx.n('height over 65535', height > 65534)
    ctx.n('real hashes', real)
    ctx.n('tiny cache', cache is not None)
    for _ in range(rng.choice([10, 40, 100, 250])):
        step(ctx, rng, sim)
        if rng.random() < 0.02:
            tree.check_state(ctx, rng, sim.headers, sim.tree, 20, 2, 5)
            refuse_set(ctx, rng, sim)
    if height and rng.random() < 0.5:
        for h in rng.sample(range(height), min(height, 5)):
            sim.tree.below[h] = raw = rng.randbytes(80)
            sim.headers.set_one(h, raw)
        step(ctx, rng, sim)
    refuse_set(ctx, rng, sim)
    tree.check_state(ctx, rng, sim.headers, sim.tree)
    tree.check_state(ctx, rng, sim.headers, sim.tree)
    shorts = {}
    for node in sim.tree.order:
        shorts[node.hash[:4]] = shorts.get(node.hash[:4], 0) + 1
    ctx.n('shared short hash', sum(n for n in shorts.values() if n > 1))
    ctx.sample(headers=len(sim.tree.order), chains=len(sim.tree.chains), height=height, cache=cache,
               alphabet=alphabet, real=real)
    sim.close()


@workload(8, 200)
def long_chains(ctx, rng, i):
    '''Beyond the default cache size and past the file's growth steps.'''
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'l{i}'), rng.choice([0, 1, 3, 50000]), None,
              rng.choice(['constant', 'timestamp', 'branch']))
    size = [1200, 2500, 10300, 3000, 1001, 5002, 1500, 999][i % 8]
    t = sim.tree
    while len(t.order) < size:
        roll = rng.random()
        parent = t.order[-1]
        if roll < 0.01:
            parent = rng.choice(t.order)
        elif roll < 0.02:
            parent = rng.choice(t.chains).tip
        elif roll < 0.03:
            sim.connect(rng.choice(t.order[1:] or [sim.tree.root]).raw) if len(t.order) > 1 else None
            continue
        elif roll < 0.035:
            tree.check_lookup(ctx, sim.headers, rng.choice(t.order))
        sim.connect(sim.child(parent))
    ctx.n('headers over the default cache', size > 1000)
    ctx.n('file grown twice', size > 10002)
    ctx.case((i, size))
    tree.check_state(ctx, rng, sim.headers, t, None if size < 3500 else 300, 20, 40)
    sim.close()


@workload(4, 24)
def many_chains(ctx, rng, i):
    '''Many short branches.'''
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'm{i}'), rng.choice([0, 7, 65535]), None, 'timestamp',
              rng.choice([None, 10, 300]))
    count = [300, 700, 1100, 260][i % 4]
    t = sim.tree
    sim.extend(t.root, 5)
    while len(t.chains) < count:
        sim.connect(sim.child(rng.choice(t.order if rng.random() < 0.7 else t.order[:6])))
        if rng.random() < 0.02:
            tree.check_lookup(ctx, sim.headers, rng.choice(t.order))
    ctx.n('chains over 256', count > 256)
    ctx.n('forks', count - 1)
    ctx.case((i, count))
    tree.check_state(ctx, rng, sim.headers, t, 400, 3, 60)
    sim.close()


@workload(2, 8)
def nested(ctx, rng, i):
    '''Each chain forks from the previous chain.'''
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'n{i}'), [0, 12][i % 2], None, 'constant')
    node = sim.extend(sim.tree.root, 2)
    for _ in range(1300):
        # fork below the tip of the newest chain
        tip = sim.tree.chains[-1].tip
        node = sim.connect(sim.child(tip.parent))[1]
        sim.extend(node, 1)
    ctx.n('nesting over 1000', len(sim.tree.chains) > 1000)
    ctx.n('forks', 1300)
    ctx.case(i)
    tree.check_state(ctx, rng, sim.headers, sim.tree, 50, 3, 3)
    sim.close()


@workload(1, 1, single=True)
def very_many_chains(ctx, rng, i):
    '''More chains than 16 bits count.'''
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'v{i}'), 0, None, 'constant', 1_000_000)
    node = sim.extend(sim.tree.root, 2)
    first = node.parent
    for _ in range(65700):
        sim.connect(sim.child(first))
    for model in rng.sample(sim.tree.chains, 200) + sim.tree.chains[-20:]:
        sim.extend(model.tip, 1)
    sim.headers.max_cache_size = 10
    sim.extend(sim.tree.chains[0].tip, 4)
    ctx.n('chains over 65536')
    ctx.case(i)
    tree.check_state(ctx, rng, sim.headers, sim.tree, 100, 3, 30)
    sim.close()
