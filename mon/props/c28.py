import bitcoinx as bx
from bitcoinx import bits_to_target, bits_to_work, target_to_bits
from engine import workload
from lib import COINS
from ref import work

PROP, LEVEL = 'C28', 'exploration'
FILES = ['work.py', 'coin.py']
RULE = ('bits of every size byte 0 to 255 with mantissas at the limits and random, all mantissas for small '
        'sizes in slices, out-of-range and negative bits; targets at each power of two plus and minus one, '
        'at representable values and one either side, 0 and the ends of the range; ordered pairs. '
        'Oracle: the reference compact codec. Distinct by bits or target.')
REQUIRE = {'bits accepted': 20000, 'bits refused': 20000, 'targets': 8000, 'ordered pairs': 4000,
           'size bytes': 256, 'difficulties': 1000}
WORDS = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0x8001, 0xffff, 0x10000, 0x7fffff, 0x800000,
         0x800001, 0xffffff, 0x008000, 0x7f0000, 0x800000 | 0x8000, 0x010000, 0x012300, 0x7fff00]
MAX_TARGET = 0xffff << 208


def judge_bits(ctx, bits):
    want = work.canonical(bits)
    ctx.case(bits)
    if want is None:
        ctx.n('bits refused')
        ctx.raises(ValueError, 'bits that are no encoding', bits_to_target, bits)
        ctx.raises(ValueError, 'bits that are no encoding', bits_to_work, bits)
        return
    ctx.n('bits accepted')
    ctx.eq(bits_to_target(bits), want, 'target', hex(bits))
    ctx.eq(target_to_bits(want), bits, 'bits again', hex(bits))
    ctx.eq(bits_to_work(bits), (1 << 256) // (want + 1), 'work', hex(bits))


@workload(8200, 300000)
def bits_values(ctx, rng, i):
    size = i % 256
    ctx.seen('size bytes', size)
    for word in WORDS + [rng.getrandbits(24) for _ in range(6)] + \
            [rng.randrange(0x8000, 0x800000) for _ in range(6)]:
        judge_bits(ctx, size << 24 | word)
    for _ in range(30):
        judge_bits(ctx, rng.randrange(3, 0x21) << 24 | rng.randrange(0x8000, 0x800000))
        judge_bits(ctx, rng.choice([1, 2]) << 24 | rng.getrandbits(16) << 8)
    for bits in (-1, -rng.getrandbits(31) - 1, 1 << 32, 0x2100ffff + rng.randrange(1, 1 << 24),
                 0x21010000, rng.getrandbits(40) | 1 << 32, 0x21008000 + rng.getrandbits(17)):
        judge_bits(ctx, bits)


@workload(130, 15000)
def small_exhaustive(ctx, rng, i):
    '''All mantissas in a slice of a small or the largest size.'''
    size = [0, 1, 2, 3, 4, 0x20, 0x21, 0x22][i % 8]
    low = (i // 8 * 2654435761 + i) % 4096
    good = bad = 0
    for word in range(low, 1 << 24, 4096):
        bits = size << 24 | word
        want = work.canonical(bits)
        try:
            got = bits_to_target(bits)
        except ValueError:
            got = None
        if got != want:
            ctx.fail('target', f'bits {bits:#x} got {got} want {want}')
        good += want is not None
        bad += want is None
    ctx.n('bits accepted', good)
    ctx.n('bits refused', bad)
    ctx.n('oracle checks', good + bad)
    ctx.case((size, low))


def rand_target(rng):
    kind = rng.randrange(6)
    if kind == 0:
        return max(0, min((1 << rng.randrange(257)) + rng.choice([-2, -1, 0, 1, 2]), work.MAX256))
    if kind == 1:
        t = work.decode(rng.randrange(1, 0x21) << 24 | rng.randrange(0x8000, 0x800000))[0]
        return max(0, min(t + rng.choice([-1, 0, 1]), work.MAX256))
    if kind == 2:
        return rng.getrandbits(rng.randrange(1, 257))
    if kind == 3:
        n = 8 * rng.randrange(0, 30)
        return min(rng.choice([0x7fffff, 0x800000, 0x7fff, 0x8000, 0xffffff, 0x8080]) << n |
                   rng.getrandbits(n), work.MAX256)
    if kind == 4:
        return rng.choice([0, 1, 0x7f, 0x80, 0xff, 0x100, work.MAX256, work.MAX256 - 1, MAX_TARGET,
                           MAX_TARGET + 1, MAX_TARGET - 1, 1 << 255])
    return rng.getrandbits(256)


@workload(24000, 1500000)
def targets(ctx, rng, i):
    ts = [rand_target(rng) for _ in range(4)]
    if i <= 256:
        ts += [t for t in ((1 << i) - 1, min(1 << i, work.MAX256), min((1 << i) + 1, work.MAX256))]
    for t in ts:
        ctx.n('targets')
        ctx.case(t)
        bits = target_to_bits(t)
        ctx.eq(bits, work.encode(t), 'bits', hex(t))
        back = bits_to_target(bits)
        ctx.ok(back <= t, 'encoding above the target', hex(t), hex(bits))
        above = work.successor(bits)
        ctx.ok(above is None or above > t, 'not the largest representable', hex(t), hex(bits))
        if above is not None:
            ctx.eq(bits_to_target(target_to_bits(above)), above, 'next representable', hex(above))
    ts.sort()
    previous = None
    for t in ts:
        w = bits_to_work(target_to_bits(t))
        ctx.eq(w, (1 << 256) // (work.decode(work.encode(t))[0] + 1), 'work', hex(t))
        if previous is not None:
            ctx.n('ordered pairs')
            ctx.ok(w <= previous, 'a lower target has less work', [hex(x) for x in ts])
        previous = w
    for bad in (-1, -t - 1, 1 << 256, (1 << 256) + t, 1 << 300):
        ctx.raises(ValueError, 'target out of range', target_to_bits, bad)


@workload(12000, 600000)
def headers(ctx, rng, i):
    '''What headers and coins report.'''
    bits = rng.randrange(1, 0x21) << 24 | rng.randrange(0x8000, 0x800000)
    if work.canonical(bits) is None:
        bits = rng.choice([0x1d00ffff, 0x207fffff, 0x03008000, 0x2100ffff, 0x01010000, 0x1b0404cb])
    target = work.canonical(bits)
    raw = rng.randbytes(72) + bits.to_bytes(4, 'little') + rng.randbytes(4)
    coin = COINS[rng.randrange(4)]
    header = coin.deserialized_header(raw, rng.randrange(10**6))
    ctx.case(bits)
    ctx.n('difficulties')
    ctx.eq(header.bits, bits, 'header bits')
    ctx.eq(header.target(), target, 'header target', hex(bits))
    ctx.eq(header.work(), (1 << 256) // (target + 1), 'header work', hex(bits))
    ctx.eq(coin.header_work(raw), (1 << 256) // (target + 1), 'raw header work', hex(bits))
    ctx.eq(coin.header_bits(raw), bits, 'raw header bits', hex(bits))
    ctx.eq(header.difficulty(), MAX_TARGET / target, 'header difficulty', hex(bits))
    ctx.eq(coin.bits_to_difficulty(bits), MAX_TARGET / target, 'difficulty', hex(bits))
    ctx.eq(coin.max_target, MAX_TARGET, 'maximum target')
    ctx.eq(bx.Bitcoin.bits_to_difficulty(0x1d00ffff), 1.0, 'difficulty of the genesis block')
