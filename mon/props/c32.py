import hashlib
import math
import os
import bitcoinx as bx
import tree
from tree import Sim
from engine import workload
from lib import COINS
from props import c30
from ref import work

PROP, LEVEL = 'C32', 'exploration'
FILES = ['chain.py', 'coin.py']
RULE = ('random trees (forks of forks, equal work, very unequal work, deep nesting, checkpoints above zero); for '
        'pairs of chains, ranges and heights around forks, roots and tips every query is compared with a model '
        'tree that works on parent links; raw headers of random and extreme bytes are compared field by field. '
        'Distinct by (tree, query).')
REQUIRE = {'header replaced': 3000, 'queries below the checkpoint': 10000, 'pairs of chains': 10000, 'pairs with a common parent only': 3000, 'a chain with itself': 1000,
           'ancestor and descendant': 1500, 'parent heights': 3000, 'work ranges': 8000,
           'ranges across a fork': 2000, 'empty ranges': 800, 'work to a height': 6000,
           'work below the checkpoint': 300, 'longest chains': 3000, 'longest not first': 500,
           'ties for longest': 200, 'raw headers': 4000, 'deep nesting': 1}


def check_pairs(ctx, rng, sim, count):
    t, chains = sim.tree, sim.headers.chains()
    models = t.chains
    pairs = [(a, b) for a in models for b in models]
    for a, b in rng.sample(pairs, min(count, len(pairs))):
        chain, height = chains[a.id].common_chain_and_height(chains[b.id])
        want = t.common(a, b)
        ctx.ok(chain is chains[want[0]], 'common chain', f'chains {a.id} {b.id} want {want}')
        ctx.eq(height, want[1], 'common height', f'chains {a.id} {b.id}')
        ctx.n('pairs of chains')
        ctx.case((ctx.index, a.id, b.id, len(t.order)))
        ctx.n('a chain with itself', a is b)
        ctx.n('ancestor and descendant', a is not b and want[0] in (a.id, b.id))
        ctx.n('pairs with a common parent only', want[0] not in (a.id, b.id))


def check_parents(ctx, rng, sim, models):
    t, chains = sim.tree, sim.headers.chains()
    for model in models:
        got = chains[model.id].parent_heights()
        want = {chains[id_]: height for id_, height in t.fork_heights(model).items()}
        ctx.eq(got, want, 'parent heights', f'chain {model.id}')
        ctx.n('parent heights')
        if rng.random() < 0.3:
            # it is the caller's
            got[rng.choice(chains)] = -5
            ctx.eq(chains[model.id].parent_heights(), want, 'parent heights again', f'chain {model.id}')


def check_work(ctx, rng, sim, models):
    t, chains, headers = sim.tree, sim.headers.chains(), sim.headers
    for model in models:
        heights = [h for h in tree.interesting_heights(rng, t, model, 6)
                   if t.root.height <= h <= model.tip.height]
        ends = heights + [model.tip.height + 1]
        for _ in range(4):
            start, end = rng.choice(heights), rng.choice(ends)
            want, crossed = 0, False
            for height in range(start, end):
                node = model.at(height)
                want += work.work(node.bits)
                crossed |= node.chain is not model
            ctx.eq(headers.chainwork_range(chains[model.id], start, end), want, 'work of a range',
                   f'chain {model.id} [{start}, {end})')
            ctx.n('work ranges')
            ctx.n('ranges across a fork', crossed and want > 0)
            ctx.n('empty ranges', start >= end)
            ctx.case((ctx.index, model.id, start, end, len(t.order)))
        for height in rng.sample(heights, min(3, len(heights))):
            ctx.eq(headers.chainwork_to_height(chains[model.id], height), model.at(height).work,
                   'work to a height', f'chain {model.id} height {height}')
            ctx.n('work to a height')
        if t.root.height:
            ctx.eq(headers.chainwork_to_height(chains[model.id], t.root.height - 1), t.prev_work,
                   'work before the checkpoint')
        if t.root.height - 1 in t.below and t.root.height > 2 and t.root.height - 2 in t.below:
            first = t.root.height - 2
            want = sum(work.work(tree.header_bits(t.below[h])) for h in (first, first + 1))
            want += work.work(t.root.bits)
            ctx.eq(headers.chainwork_range(chains[model.id], first, first + 3), want,
                   'work of a range below the checkpoint')
            ctx.n('work below the checkpoint')
        ctx.ok(abs(chains[model.id].log2_work() - math.log2(model.tip.work)) < 1e-9, 'log2 of the work')


def check_longest(ctx, sim):
    t = sim.tree
    best = max(c.tip.work for c in t.chains)
    tied = [c for c in t.chains if c.tip.work == best]
    want = t.longest()
    got = sim.headers.longest_chain()
    ctx.ok(got is sim.headers.chains()[want.id], 'longest chain', f'want {want.id}',
           f'works {[c.tip.work for c in t.chains][:20]}')
    ctx.n('longest chains')
    ctx.n('longest not first', want.id > 0)
    ctx.n('ties for longest', len(tied) > 1)


@workload(2700, 160000)
def queries(ctx, rng, i):
    height = rng.choice([0, 0, 1, 3, 40, 66000])
    rule = rng.choice(['constant', 'constant', 'timestamp', 'branch'])
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'q{i}'), height, None, rule, rng.choice([None, None, 2, 10]),
              i % 10 == 0, rng.choice([0, rng.getrandbits(60), rng.getrandbits(100)]))
    t = sim.tree
    if height >= 3:
        for h in (height - 1, height - 2):
            t.below[h] = raw = sim.child(rng.randbytes(32))
            sim.headers.set_one(h, raw)
    balanced = rng.random() < 0.4
    for n in range(rng.choice([8, 25, 60, 150])):
        if balanced and rng.random() < 0.8:
            # keep the shorter branches growing, so that work ties
            parent = min(t.chains, key=lambda c: (c.tip.height, c.id)).tip
        else:
            parent = c30.pick_parent(rng, t)
        sim.connect(sim.child(parent))
        check_longest(ctx, sim)
        if rng.random() < 0.05:
            models = rng.sample(t.chains, min(len(t.chains), 4))
            check_parents(ctx, rng, sim, models)
            check_work(ctx, rng, sim, models[:2])
            check_pairs(ctx, rng, sim, 10)
    models = rng.sample(t.chains, min(len(t.chains), 20))
    check_parents(ctx, rng, sim, models)
    check_work(ctx, rng, sim, models)
    check_pairs(ctx, rng, sim, 100)
    ctx.sample(chains=len(t.chains), headers=len(t.order), longest=t.longest().id)
    sim.close()


@workload(1, 4)
def deep(ctx, rng, i):
    '''Chains nested beyond the recursion limit.'''
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'd{i}'), 2, None, 'timestamp')
    t = sim.tree
    sim.extend(t.root, 2)
    for _ in range(1200):
        tip = t.chains[-1].tip
        sim.extend(sim.connect(sim.child(tip.parent))[1])
    check_longest(ctx, sim)
    models = [t.chains[-1], t.chains[0], t.chains[600]]
    check_parents(ctx, rng, sim, models)
    check_work(ctx, rng, sim, models)
    chains = sim.headers.chains()
    for _ in range(60):
        a, b = rng.choice(t.chains), rng.choice(t.chains)
        chain, height = chains[a.id].common_chain_and_height(chains[b.id])
        ctx.eq((chain.tip.raw, height), (t.chains[t.common(a, b)[0]].tip.raw, t.common(a, b)[1]),
               'common chain of deep chains')
    ctx.n('deep nesting')
    ctx.case(i)
    sim.close()


@workload(2300, 200000)
def header_fields(ctx, rng, i):
    '''What a raw header's fields are.'''
    for _ in range(5):
        raw = rng.randbytes(80)
        if rng.random() < 0.3:
            fields = [rng.choice([b'\0\0\0\0', b'\xff\xff\xff\xff', b'\0\0\0\x80', b'\xff\xff\xff\x7f', b'\1\0\0\0',
                                  raw[k:k + 4]]) for k in range(4)]
            raw = fields[0] + raw[4:68] + b''.join(fields[1:])
        coin = rng.choice(COINS)
        height = rng.choice([-1, 0, rng.randrange(10**7)])
        header = coin.deserialized_header(raw, height)
        hash_ = hashlib.sha256(hashlib.sha256(raw).digest()).digest()
        want = (int.from_bytes(raw[:4], 'little', signed=True), raw[4:36], raw[36:68],
                int.from_bytes(raw[68:72], 'little'), int.from_bytes(raw[72:76], 'little'),
                int.from_bytes(raw[76:], 'little'), hash_, raw, height)
        ctx.eq(tuple(getattr(header, name) for name in tree.FIELDS), want, 'header fields', raw.hex())
        ctx.eq(coin.header_hash(raw), hash_, 'header hash', raw.hex())
        ctx.eq(coin.header_prev_hash(raw), raw[4:36], 'previous hash', raw.hex())
        ctx.eq(coin.header_timestamp(raw), want[3], 'timestamp', raw.hex())
        ctx.eq(coin.header_bits(raw), want[4], 'bits', raw.hex())
        ctx.eq(header.hash_value(), int.from_bytes(hash_, 'little'), 'hash value', raw.hex())
        ctx.eq(header.hex_str(), hash_[::-1].hex(), 'hash in hex', raw.hex())
        target = work.canonical(want[4])
        if target is None:
            ctx.raises(ValueError, 'meaningless bits', coin.header_work, raw)
        else:
            ctx.eq(coin.header_work(raw), work.work(want[4]), 'header work', raw.hex())
        ctx.ok(hash_[::-1].hex() in str(header) and raw[4:36][::-1].hex() in str(header), 'header as text')
        ctx.n('raw headers')
        ctx.case(raw)
    bad = rng.choice([b'', raw[:79], raw + b'\0'])
    _result, error = ctx.outcome(coin.deserialized_header, bad, 0)
    ctx.ok(error is not None, 'header of the wrong length read', len(bad))
    ctx.eq(bx.Bitcoin.deserialized_header(raw, height), header, 'equal headers')


@workload(150, 9000)
def replaced(ctx, rng, i):
    '''Headers below the checkpoint set again and again; every query sees the ones last set.'''
    height = rng.choice([3, 12, 30, 60])
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'r{i}'), height, None, 'constant')
    t, headers = sim.tree, sim.headers
    sim.extend(t.root, 3)
    sim.extend(t.root, 2)
    below = t.below

    def median(chain, h):
        times = sorted(int.from_bytes(below[k][68:72], 'little') for k in range(max(0, h - 10), h + 1))
        ctx.eq(headers.median_time_past(chain, h), times[len(times) // 2],
               'median time past below the checkpoint', h)

    at, walked = 0, headers.chains()[0]
    for step in range(60):
        heights = [rng.randrange(height)] if step else range(height)
        if step and rng.random() < 0.5:
            heights = [rng.randrange(max(0, at - 9), at + 1)]
        for h in heights:
            ctx.n('header replaced', h in below)
            below[h] = raw = sim.child(rng.randbytes(32))
            headers.set_one(h, raw)
        # walking up, whatever was replaced behind
        at = at + 1 if at + 1 < height else 0
        median(walked, at)
        if step % 2:
            continue
        for chain in headers.chains():
            start = rng.randrange(height)
            end = rng.randrange(start, height)
            want = sum(work.work(tree.header_bits(below[h])) for h in range(start, end))
            ctx.eq(headers.chainwork_range(chain, start, end), want, 'work of a range below the checkpoint',
                   f'[{start}, {end})')
            for h in {heights[-1], rng.randrange(height)}:
                raw = below[h]
                ctx.eq(headers.raw_header_at_height(chain, h), raw, 'header below the checkpoint', h)
                got = headers.header_at_height(chain, h)
                ctx.eq((got.raw, got.height, got.timestamp, got.merkle_root),
                       (raw, h, int.from_bytes(raw[68:72], 'little'), raw[36:68]),
                       'fields of a header below the checkpoint', h)
                median(chain, h)
                ctx.n('queries below the checkpoint')
        ctx.case((i, step))
        median(walked, at)
    sim.close()
