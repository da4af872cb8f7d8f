import os
import struct
import bitcoinx as bx
from bitcoinx import CheckPoint, Headers
from engine import workload
from ref import work

PROP, LEVEL = 'C29', 'exploration'
FILES = ['work.py', 'chain.py', 'coin.py']
RULE = ('histories of up to 2,200 headers at each activation height, multiples of 2016 and near the start, for '
        'each network, with bits at, near and far below the limit and hostile timestamps (steady, jittered, '
        'plateaus, decreasing, extremes, and spans tuned to the clamps plus and minus one); and trees forked '
        'inside the averaging windows, each branch extended with headers the rules require. Oracle: an '
        'independent port of the nodes\' rules run on a linked list of blocks. Distinct by (network, height, '
        'recent history).')
REQUIRE = {'retargets': 150, 'retarget low clamp': 20, 'retarget high clamp': 20, 'EDA triggered': 200,
           'EDA not triggered': 200, 'EDA boundary': 20, 'DAA': 2000, 'DAA low clamp': 100,
           'DAA high clamp': 100, 'DAA tie in median of three': 100, 'limited to the maximum': 100,
           'testnet slow': 500, 'testnet exactly 20 minutes': 100, 'testnet walk-back': 500,
           'median time past': 2000, 'median near the start': 100, 'median near the start on a fork': 100, 'connected on a fork': 800,
           'rejected on a fork': 200, 'wrong branch would differ': 50,
           'history replaced': 150, 'retargets on a long fork': 60, 'branches retargeted differently': 12}
ASSUMPTIONS = ['the regression test network follows the testnet rules, as the library defines it',
               'targets in histories are at least 2^100, so that work sums stay below 2^256 as on any network']

LIMIT = 0xffff << 208
LIMIT_BITS = 0x1d00ffff
NETS = [(bx.Bitcoin, work.mainnet), (bx.BitcoinTestnet, work.testnet), (bx.BitcoinRegtest, work.testnet),
        (bx.BitcoinScalingTestnet, work.scaling)]
HEADER = struct.Struct('<I32s32sIII')


def rand_bits(rng, mood):
    if mood == 'limit' or (mood == 'mixed' and rng.random() < 0.4):
        return LIMIT_BITS
    if mood == 'near' or rng.random() < 0.2:
        return work.encode(LIMIT * rng.randrange(1, 1000) // 1000)
    return rng.randrange(0x10, 0x1d) << 24 | rng.randrange(0x8000, 0x800000)


def next_time(rng, mood, t, k):
    if mood == 'steady':
        t += k
    elif mood == 'jitter':
        t += k + rng.randrange(-k, k + 1)
    elif mood == 'plateau':
        t += rng.choice([0, 0, 0, k * 4])
    elif mood == 'near':
        t += k + rng.choice([0] * 60 + [-1, 1])
    elif mood == 'down':
        t -= rng.randrange(-3 * k, k * 4)
    elif mood == 'wild':
        t = rng.choice([0, 1, 0xffffffff, 0x7fffffff, 0x80000000, rng.getrandbits(32), t, t])
    elif mood == 'slow':
        t += rng.choice([1199, 1200, 1201, 1, 600, 2400])
    return max(0, min(t, 0xffffffff))


def history(rng, top, count):
    '''Blocks up to height top.'''
    time_mood = rng.choice(['steady', 'jitter', 'plateau', 'near', 'near', 'down', 'wild', 'slow'])
    bits_mood = rng.choice(['limit', 'near', 'mixed', 'mixed', 'far', 'same', 'runs'])
    k = rng.choice([150, 300, 300, 300, 600, 1200, 1200, 1200, 2400, 7200, 7200, 7200, 7199, 7201, 30,
                    301, 299, 1199, 1201])
    t = rng.randrange(10**9, 2 * 10**9)
    bits = rand_bits(rng, bits_mood)
    block, blocks = None, []
    for height in range(max(0, top - count + 1), top + 1):
        if bits_mood == 'runs':
            if rng.random() < 0.003:
                bits = rand_bits(rng, 'mixed')
        elif bits_mood != 'same':
            bits = rand_bits(rng, bits_mood)
        t = next_time(rng, time_mood, t, k)
        block = work.Block(block, height, t, bits)
        blocks.append(block)
    return blocks


def tune(rng, blocks):
    '''Make spans hit the clamps exactly.'''
    top = blocks[-1].height
    for _ in range(rng.randrange(4)):
        height = rng.randrange(max(blocks[0].height, top - 30), top + 1)
        b = blocks[height - blocks[0].height]
        n, spans = rng.choice([(144, (43200, 172800, 86400)), (6, (43200,)),
                               (2015, (302400, 4838400, 1209600))])
        if (height + 1) % 2016 == 0 or rng.random() < 0.1:
            n, spans = 2015, (302400, 4838400, 1209600)
        if height - n >= blocks[0].height:
            span = rng.choice(spans) + rng.choice([-1, 0, 0, 1])
            first = blocks[height - n - blocks[0].height]
            t = b.time - span
            if 0 <= t < 1 << 32:
                first.time = t


def top_height(rng, which):
    near = rng.randrange(-3, 20)
    if which is work.mainnet:
        choices = [478557 + near, 478700, 504030 + near, 504200, 503900, 2016 * rng.randrange(1, 300) + near,
                   2016 * 238 + near, 2016 * 249 + near, 2016 * 260 + near, rng.randrange(5, 5000),
                   rng.randrange(478560, 504020)]
    elif which is work.testnet:
        choices = [1188696 + near, 1188900, 2016 * rng.randrange(1, 580) + near, 2016 * 589 + near,
                   rng.randrange(5, 5000), 2016 + near]
    else:
        choices = [2199 + near, 2016 + near, 2300, 2016 * 2 + near, rng.randrange(5, 5000),
                   2016 * rng.randrange(1, 50) + near]
    return max(rng.choice(choices), 4)


def pack(block, prev_hash, salt):
    return HEADER.pack(1, prev_hash, salt, block.time, block.bits, block.height)


def note(ctx, coin, which, block, ts, want):
    '''What the case exercised, from the model.'''
    height = block.height + 1
    limited = want == LIMIT_BITS
    if height % 2016 == 0 and (which is work.mainnet and height <= 504031 or which is work.testnet
                               and height <= 1188697 or which is work.scaling and height <= 2200):
        ctx.n('retargets')
        span = block.time - block.ancestor(block.height - 2015).time
        ctx.n('retarget low clamp', span < 302400)
        ctx.n('retarget high clamp', span > 4838400)
        ctx.n('limited to the maximum', limited)
    elif which is work.mainnet and height < 478558:
        ctx.n('unchanged between retargets')
    elif which is work.mainnet and height <= 504031:
        gap = work.median_time_past(block) - work.median_time_past(block.ancestor(block.height - 6))
        ctx.n('EDA triggered' if gap >= 43200 else 'EDA not triggered')
        ctx.n('EDA boundary', abs(gap - 43200) <= 1)
        ctx.n('limited to the maximum', limited)
    elif which is work.mainnet or height > (1188697 if which is work.testnet else 2200):
        slow = ts > block.time + 1200
        if which is work.testnet and slow:
            ctx.n('testnet slow')
            return
        if which is work.scaling and slow:
            ctx.n('slow but not excepted')
        ctx.n('DAA')
        last, first = work.suitable(block), work.suitable(block.ancestor(block.height - 144))
        span = last.time - first.time
        ctx.n('DAA low clamp', span < 43200)
        ctx.n('DAA high clamp', span > 172800)
        times = {block.time, block.prev.time, block.prev.prev.time}
        ctx.n('DAA tie in median of three', len(times) < 3)
        ctx.n('limited to the maximum', limited)
    else:
        if ts > block.time + 1200:
            ctx.n('testnet slow')
        elif block.bits == LIMIT_BITS and block.height % 2016:
            ctx.n('testnet walk-back')
    if ts == block.time + 1200 and which is not work.mainnet:
        ctx.n('testnet exactly 20 minutes')


def rand_ts(rng, block):
    ts = block.time + rng.choice([1200, 1201, 1199, 600, 0, -1, 10**6, -10**6, 1300, 7200])
    return max(0, min(ts, 0xffffffff))




@workload(1280, 47000)
def histories(ctx, rng, i):
    coin, which = NETS[i % 4]
    top = top_height(rng, which)
    blocks = history(rng, top, 2180)
    tune(rng, blocks)
    base = blocks[0].height
    path = os.path.join(ctx.tmp, f'h{i}')
    raws = [pack(b, rng.randbytes(32), bytes(32)) for b in blocks]
    headers = Headers.from_file(coin, path, CheckPoint(raws[-1], top, rng.getrandbits(80)))
    for b, raw in zip(blocks[:-1], raws):
        headers.set_one(b.height, raw)
    chain, = headers.chains()
    first = max(1, base + 2170) if base else 1
    heights = {h for h in range(top - 25, top + 2) if h >= first}
    heights |= {rng.randrange(first, top + 2) for _ in range(8)} if top + 2 > first else set()
    if not base:
        heights |= set(range(1, 14)) | {h for h in (2015, 2016, 2017, 4032) if h <= top + 1}
        if which is work.mainnet:
            ctx.eq(headers.required_bits(chain, 0, 0), LIMIT_BITS, 'genesis bits')
    ask(ctx, rng, i, headers, blocks, sorted(heights))
    if i % 16 in (1, 6, 11, 12):
        # other headers are set for the same heights
        others = history(rng, top, len(blocks))
        tune(rng, others)
        others[-1].time, others[-1].bits = blocks[-1].time, blocks[-1].bits
        for b in others[:-1]:
            headers.set_one(b.height, pack(b, rng.randbytes(32), bytes(32)))
        ctx.n('history replaced')
        ask(ctx, rng, i, headers, others, sorted(heights))
    os.unlink(path)


def ask(ctx, rng, i, headers, blocks, heights):
    coin, which = NETS[i % 4]
    chain, = headers.chains()
    base, top = blocks[0].height, blocks[-1].height
    for height in sorted(heights):
        if height > top + 1:
            continue
        block = blocks[height - 1 - base]
        ts = rand_ts(rng, block)
        want = which(block, ts, LIMIT)
        note(ctx, coin, which, block, ts, want)
        ctx.case((i % 4, height, block.time, block.bits, ts))
        got = headers.required_bits(chain, height, ts)
        ctx.eq(got, want, 'required bits', coin.name, f'height {height} timestamp {ts} after {block.time}')
        if which is work.mainnet and height % 5 == 0:
            ctx.eq(headers.required_bits(chain, height), want, 'required bits without a timestamp')
        ctx.n('median time past')
        ctx.n('median near the start', block.height < 10)
        ctx.eq(headers.median_time_past(chain, block.height), work.median_time_past(block),
               'median time past', f'height {block.height}')
        ctx.sample(network=coin.name, height=height, bits=hex(got))


class Relaxed(bx.Coin):
    '''A coin with a network's difficulty rules for which any nonce will do.'''

    def header_hash(self, raw_header):
        return super().header_hash(raw_header)[:10] + bytes(22)


def relaxed(coin):
    return Relaxed(coin.name, coin.genesis_header.hex(), coin.required_bits, coin.P2PKH_verbyte,
                   coin.P2SH_verbyte, coin.WIF_byte, coin.xpub_verbytes, coin.xprv_verbytes,
                   coin.cashaddr_prefix)


@workload(160, 9700)
def forks(ctx, rng, i):
    '''Several branches after the checkpoint, each with its own history.'''
    coin, which = NETS[i % 4]
    coin = relaxed(coin)
    top = rng.randrange(12) if i // 4 % 4 == 3 else top_height(rng, which)
    blocks = history(rng, top, 2180)
    tune(rng, blocks)
    base = blocks[0].height
    path = os.path.join(ctx.tmp, f'f{i}')
    prev, raws = bytes(32), []
    for b in blocks:
        raws.append(pack(b, prev, bytes(32)))
        prev = coin.header_hash(raws[-1])
    headers = Headers.from_file(coin, path, CheckPoint(raws[-1], top, 0))
    for b, raw in zip(blocks[:-1], raws):
        headers.set_one(b.height, raw)
    hashes = {blocks[-1]: prev}
    tips = [blocks[-1]]
    known = [blocks[-1]]
    mood = rng.choice(['steady', 'jitter', 'plateau', 'near', 'down', 'slow', 'wild'])
    k = rng.choice([30, 300, 600, 1200, 1201, 2400, 7200, 7201])
    for step in range(rng.choice([60, 120, 200])):
        if rng.random() < 0.06:
            parent = rng.choice(known[-40:])
        else:
            parent = rng.choice(tips)
        if base and parent.height - base > 2178 + 100:
            break
        ts = next_time(rng, mood, parent.time, k)
        if rng.random() < 0.1:
            ts = rand_ts(rng, parent)
        want = which(parent, ts, LIMIT)
        note(ctx, coin, which, parent, ts, want)
        ctx.case((i, step))
        other = rng.choice(tips)
        if other.height == parent.height and other is not parent and which(other, ts, LIMIT) != want:
            ctx.n('wrong branch would differ')
            bad = which(other, ts, LIMIT)
        else:
            bad = rng.choice([LIMIT_BITS, want + 1, want - 1, parent.bits, 0x207fffff])
        salt = rng.randbytes(32)
        if bad != want and rng.random() < 0.4:
            raw = pack(work.Block(parent, parent.height + 1, ts, bad), hashes[parent], salt)
            e = ctx.raises(bx.IncorrectBits, 'wrong bits', headers.connect, raw)
            ctx.eq(e.required_bits, want, 'required bits in the error')
            ctx.n('rejected on a fork')
        block = work.Block(parent, parent.height + 1, ts, want)
        raw = pack(block, hashes[parent], salt)
        try:
            header, chain = headers.connect(raw)
        except bx.IncorrectBits as e:
            ctx.fail('required bits', f'{coin.name} height {block.height}: {e} want {want:#x}')
        hashes[block] = header.hash
        ctx.n('connected on a fork')
        if parent in tips:
            tips.remove(parent)
        tips.append(block)
        known.append(block)
        if len(tips) > 5:
            tips.pop(0)
        ctx.eq(headers.median_time_past(chain, block.height), work.median_time_past(block),
               'median time past on a fork')
        ctx.n('median time past')
        below = block.ancestor(max(block.height - rng.choice([1, 2, 5, 10, 11, 40]), base))
        if below.height - base >= 10 or not base:
            ctx.eq(headers.median_time_past(chain, below.height), work.median_time_past(below),
                   'median time past on a fork, below its tip')
            ctx.n('median near the start on a fork', below.height < 10 and chain.parent is not None)
        ts2 = rand_ts(rng, block)
        ctx.eq(headers.required_bits(chain, block.height + 1, ts2), which(block, ts2, LIMIT),
               'required bits of the next header')
    ctx.n('branches', headers.chain_count())
    os.unlink(path)


@workload(24, 1400)
def long_forks(ctx, rng, i):
    '''Branches longer than the retarget interval: each is retargeted over its own headers.'''
    coin, which = NETS[i % 3]
    mult = rng.choice([1, 2, 100, 236]) if i % 2 or which is not work.mainnet else rng.randrange(238, 248)
    top = 2016 * mult - rng.randrange(1, 6)
    bits = work.encode(LIMIT * rng.randrange(100, 900) // 1000)
    t, prev = rng.randrange(10**9, 2 * 10**9), None
    blocks = []
    for height in range(max(0, top - 2016), top + 1):
        prev = work.Block(prev, height, t, bits)
        blocks.append(prev)
        t += 600
    blocks[max(0, 2016 * mult - 2016 - blocks[0].height)].time -= rng.choice([0, 1000, 86400])
    coin = relaxed(coin)
    path = os.path.join(ctx.tmp, f'l{i}')
    raws = [pack(b, rng.randbytes(32), bytes(32)) for b in blocks]
    headers = Headers.from_file(coin, path, CheckPoint(raws[-1], top, 0))
    for b, raw in zip(blocks[:-1], raws):
        headers.set_one(b.height, raw)
    # Branches at different paces, growing in turns of many headers
    start = (blocks[-1], coin.header_hash(raws[-1]))
    paces = rng.sample([120, 151, 300, 400, 500, 599, 600, 601, 700, 1000, 1199], 2)
    tips = [start, start]
    end = 2016 * mult + 2016 + rng.randrange(1, 4)
    required = [{}, {}]
    while any(block.height < end for block, _hash in tips):
        n = rng.randrange(2)
        block, prev_hash = tips[n]
        for _ in range(rng.choice([1, 50, 700])):
            if block.height == end:
                break
            ts = min(block.time + paces[n] + rng.choice([0, 0, 1]), 0xffffffff)
            want = which(block, ts, LIMIT)
            block = work.Block(block, block.height + 1, ts, want)
            try:
                header, chain = headers.connect(pack(block, prev_hash, bytes([n]) * 32))
            except bx.IncorrectBits as e:
                ctx.fail('required bits on a long fork', f'{coin.name} height {block.height}: {e} want {want:#x}')
            prev_hash = header.hash
            if block.height % 2016 == 0:
                required[n][block.height] = want
                ctx.n('retargets on a long fork')
                ctx.case((i, n, block.height, want))
            ctx.ok(chain.tip.hash == prev_hash and chain.height == block.height, 'tip of the branch')
        tips[n] = block, prev_hash
    for height in required[0]:
        ctx.n('branches retargeted differently', required[0][height] != required[1][height])
    ctx.eq(headers.chain_count(), 2, 'branches')
    os.unlink(path)
