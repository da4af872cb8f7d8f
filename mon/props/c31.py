import os
import bitcoinx as bx
import tree
from tree import Sim
from engine import workload
from props import c29, c30
from ref import work

PROP, LEVEL = 'C31', 'exploration'
FILES = ['chain.py', 'work.py', 'coin.py']
RULE = ('on random trees with timestamp- and branch-dependent bits, invalid headers of every combination of '
        'unknown or known parent, required, valid-elsewhere, wrong or meaningless bits, and hash below, at, one '
        'above or far above the target, at tips, forks and the root; each rejection is judged by error type, by '
        'the full observable state and the file\'s bytes before and after, and by a twin collection given only '
        'the valid headers; also histories whose holes leave the required bits unknown. Distinct by '
        '(combination, position, tree).')
REQUIRE = {'rejected missing': 1500, 'rejected bits': 3000, 'rejected pow': 1200, 'combinations': 60,
           'connect new': 8000, 'one over the target': 500, 'exactly at the target': 200, 'twins compared': 300,
           'bits valid on another branch': 150, 'rejected then connected': 400, 'first action': 200,
           'rejected for holes': 40, 'malformed lengths': 300, 'real hashes': 30, 'at a file growth boundary': 5}
BAD_BITS = [0, 1, 0xffffffff, 0x1d00ffff, 0x01003456, 0x1d800000, 0x2100ffff, 0x21010000, 0x207fffff, 0x1d00fffd,
            0x03000000, 0xff7fffff, 0x04923456, 0x1d000001]
KINDS = {'missing': bx.MissingHeader, 'bits': bx.IncorrectBits, 'pow': bx.InsufficientPoW}


def reject(ctx, rng, sim, where=None):
    '''Offer one invalid header.  Returns the parent, if known.'''
    t = sim.tree
    node = where or c30.pick_parent(rng, t)
    time = rng.getrandbits(32)
    required = sim.required(node, time)
    which_parent = rng.choice(['known', 'known', 'known', 'unknown'])
    which_bits = rng.choice(['required', 'required', 'elsewhere', 'near', 'bad', 'parent'])
    kind = rng.choice([tree.LOW, tree.EXACT, tree.OVER, tree.HIGH])
    if sim.real:
        kind = rng.choice([tree.LOW, tree.HIGH])
    parent = node
    if which_parent == 'unknown':
        hash_ = rng.choice([rng.randbytes(32), bytes(32), node.raw[36:68], node.hash[::-1],
                            node.hash[:4] + rng.randbytes(8) + bytes(20), t.root.raw[4:36]])
        if hash_ in t.by_hash:
            return
        parent = hash_
    if which_bits == 'required':
        bits = required
    elif which_bits == 'elsewhere':
        bits = sim.required(rng.choice(t.order), time)
        if bits != required:
            ctx.n('bits valid on another branch')
    elif which_bits == 'near':
        bits = required + rng.choice([-1, 1, 1 << 24, -(1 << 24), 0x100])
    elif which_bits == 'parent':
        bits = node.bits
    else:
        bits = rng.choice(BAD_BITS)
    bits &= 0xffffffff
    raw = sim.child(parent, time, kind, bits)
    verdict, _node, _bits = t.judge(raw)
    if verdict in ('new', 'known'):
        return
    sample = rng.sample(t.order, min(len(t.order), 25))
    hashes = [n.hash for n in sample] + [t.order[-1].hash, t.root.hash]
    file_before = sim.file_bytes()
    before = tree.snapshot(sim.headers, hashes)
    sim.connect(raw)
    ctx.n('rejected ' + verdict)
    ctx.seen('combinations', (verdict, which_parent, which_bits, kind, node.chain.tip is node, node is t.root))
    ctx.case((ctx.index, verdict, which_parent, which_bits, kind, len(t.order)))
    ctx.n('one over the target', verdict == 'pow' and kind == tree.OVER)
    ctx.ok(tree.snapshot(sim.headers, hashes) == before, 'state changed by a rejection', verdict)
    ctx.ok(sim.file_bytes() == file_before, 'file changed by a rejection', verdict)
    own = sim.coin.header_hash(raw)
    if own not in t.by_hash:
        ctx.raises(bx.MissingHeader, 'rejected header can be looked up', sim.headers.lookup, own)
    # A header on the rejected one is an orphan
    if rng.random() < 0.2 and own not in t.by_hash:
        sim.connect(sim.child(own))
    if rng.random() < 0.2:
        sim.connect(raw)
    if verdict == 'pow' and kind == tree.OVER and rng.random() < 0.5:
        exact = raw[:76] + bytes([raw[76] & 0xfc | tree.EXACT]) + raw[77:]
        if sim.coin.header_hash(exact) not in t.by_hash:
            verdict, _node = sim.connect(exact)
            ctx.eq(verdict, 'new', 'generator')
            ctx.n('exactly at the target')
    if verdict in ('bits', 'pow') and rng.random() < 0.3:
        verdict, _node = sim.connect(sim.child(node))
        ctx.eq(verdict, 'new', 'generator')
        ctx.n('rejected then connected')


def malformed(ctx, rng, sim):
    node = rng.choice(sim.tree.order)
    raw = sim.child(node)
    bad = rng.choice([raw[:-1], raw + b'\0', b'', raw[:40], raw + raw, raw[1:]])
    before = tree.snapshot(sim.headers, [node.hash])
    file_before = sim.file_bytes()
    _result, error = ctx.outcome(sim.headers.connect, bad)
    ctx.ok(error is not None, 'header of the wrong length accepted', len(bad))
    ctx.ok(tree.snapshot(sim.headers, [node.hash]) == before and sim.file_bytes() == file_before,
           'state changed by a malformed header')
    ctx.n('malformed lengths')


def twin(ctx, sim, path):
    '''A collection that saw only the valid headers has the same file.'''
    headers = sim.cls.from_file(sim.coin, path, sim.tree.checkpoint)
    for node in sim.tree.order[1:]:
        headers.connect(node.raw)
    with open(path, 'rb') as f:
        ctx.ok(f.read() == sim.file_bytes(), 'file differs from that of valid headers only')
    hashes = [n.hash for n in sim.tree.order]
    ctx.ok(tree.snapshot(headers, hashes) == tree.snapshot(sim.headers, hashes),
           'state differs from that of valid headers only')
    tree.close(headers)
    os.unlink(path)
    ctx.n('twins compared')


@workload(1900, 110000)
def rejections(ctx, rng, i):
    height = rng.choice([0, 0, 1, 5, 300])
    real = i % 10 == 0
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'r{i}'), height, rng.choice([None, None, b'\x11\x22', b'\x00\x01']),
              rng.choice(['constant', 'timestamp', 'branch', 'branch']), rng.choice([None, None, 1, 4, 20]), real)
    ctx.n('real hashes', real)
    if rng.random() < 0.6:
        reject(ctx, rng, sim)
        ctx.n('first action')
    for _ in range(rng.choice([10, 30, 60])):
        k = rng.random()
        if k < 0.5:
            parent = c30.pick_parent(rng, sim.tree)
            sim.connect(sim.child(parent))
        elif k < 0.54:
            malformed(ctx, rng, sim)
        else:
            reject(ctx, rng, sim)
    tree.check_state(ctx, rng, sim.headers, sim.tree, 40, 3, 8)
    twin(ctx, sim, os.path.join(ctx.tmp, f't{i}'))
    ctx.sample(headers=len(sim.tree.order), chains=len(sim.tree.chains), real=real)
    sim.close()


@workload(3, 12)
def growth(ctx, rng, i):
    '''Rejections just before and after the file grows.'''
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'g{i}'), rng.choice([0, 2]), None, 'timestamp')
    node = sim.tree.root
    for n in range(5010):
        if n < 3 or n > 4995:
            reject(ctx, rng, sim, node)
            ctx.n('at a file growth boundary')
            node = sim.tree.order[-1]
        node = sim.connect(sim.child(node))[1]
    tree.check_state(ctx, rng, sim.headers, sim.tree, 100, 5, 5)
    sim.close()


@workload(46, 3500)
def holes(ctx, rng, i):
    '''The required bits depend on headers below the checkpoint that are missing.'''
    coin = c29.relaxed([bx.Bitcoin, bx.BitcoinTestnet][i % 2])
    which = [work.mainnet, work.testnet][i % 2]
    top = [504032 + rng.randrange(500), 1188698 + rng.randrange(500)][i % 2]
    blocks = c29.history(rng, top, 160)
    prev, raws = bytes(32), []
    for b in blocks:
        raws.append(c29.pack(b, prev, bytes(32)))
        prev = coin.header_hash(raws[-1])
    path = os.path.join(ctx.tmp, f'o{i}')
    headers = bx.Headers.from_file(coin, path, bx.CheckPoint(raws[-1], top, 0))
    used = range(top - 146, top)       # what the 144-block rule reads, apart from the checkpoint
    hole = rng.choice([top - 146, top - 145, top - 144, top - 1, top - 2, rng.choice(used)])
    for b, raw in zip(blocks, raws):
        if b.height != hole and b.height in used:
            headers.set_one(b.height, raw)
    ts = min(blocks[-1].time + 600, 0xffffffff)
    want = which(blocks[-1], ts, c29.LIMIT)
    block = work.Block(blocks[-1], top + 1, ts, want)
    raw = c29.pack(block, prev, rng.randbytes(32))

    def data():
        with open(path, 'rb') as f:
            f.seek((top - 200) * 80)
            return f.read()
    before = data(), tree.snapshot(headers, [prev])
    # Blocks between the two medians are all read; the two that are not the median are read also
    ctx.raises(bx.MissingHeader, 'bits required of a history with a hole', headers.connect, raw)
    ctx.ok((data(), tree.snapshot(headers, [prev])) == before, 'state changed by a rejection for a hole')
    ctx.n('rejected for holes')
    ctx.n('rejected for holes')
    headers.set_one(hole, raws[hole - blocks[0].height])
    header, chain = headers.connect(raw)
    ctx.eq((header.height, header.raw, len(headers)), (top + 1, raw, top + 2), 'connect after filling the hole')
    ctx.case((i, hole))
    tree.close(headers)
    os.unlink(path)
