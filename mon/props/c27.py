import taps
from bitcoinx import ElectrumMnemonic, Wordlists
from engine import workload
from ref import mnemonics as mn

PROP, LEVEL = 'C27', 'exploration'
FILES = ['mnemonic.py']
RULE = ('seeds at and around the ends of each 32-bit group and random, all groups of words at the end of the '
        'range, respelled; phrases with wrong counts, unlisted words and groups of value 2^32 and more; '
        'generation with lists of 2048 to 4000 words in several prefixes and sizes, incl. lists whose '
        'phrases are nearly always old seeds too, under recorded and scripted entropy. Oracle: '
        'independent old-seed codec and HMAC prefix. Distinct by seed or phrase.')
REQUIRE = {'old seeds': 1500, 'phrases refused': 1500, 'groups at or above 2^32': 200,
           'generated': 300, 'scripted entropy': 100, 'old seeds avoided': 30, 'prefixes': 5, 'validity judged': 1500,
           'positions with varied words': 12,
           'numbers that are not hex': 1000}
OLD = Wordlists.original_electrum_wordlist()
ENGLISH = Wordlists.bip39_wordlist('english.txt')
N = len(OLD)
EDGE = [0, 1, N - 1, N, N + 1, N * N - 1, N * N, N * N + 1, 2**32 - 1, 2**32 - 2, 2**31]


def respell(rng, text):
    out = rng.choice(['', ' ', '\n\t'])
    for p in text.split(' '):
        out += rng.choice([p, p.upper(), p.capitalize()]) + rng.choice([' ', '  ', '\t', '\n'])
    return out if rng.random() < .5 else out.strip()


@workload(3100, 130000)
def old_seeds(ctx, rng, i):
    groups = [rng.choice(EDGE) if rng.random() < .3 else rng.getrandbits(32)
              for _ in range(rng.choice([4, 8]))]
    seed = ''.join(f'{g:08x}' for g in groups)
    words = mn.old_encode(seed, OLD)
    text = ' '.join(words)
    ctx.n('old seeds')
    ctx.case(seed)
    ctx.eq(mn.old_decode(words, OLD), seed, 'model disagrees with itself')
    ctx.eq(ElectrumMnemonic.hex_seed_to_old(seed), text, 'words of the seed', seed)
    ctx.eq(ElectrumMnemonic.hex_seed_to_old(seed.upper()), text, 'words of the seed', seed.upper())
    ctx.eq(ElectrumMnemonic.old_to_hex_seed(text), seed, 'seed of the words', text)
    other = respell(rng, text)
    ctx.eq(ElectrumMnemonic.old_to_hex_seed(other), seed, 'seed of respelled words', other)
    for t in (text, other, seed, seed.upper()):
        ctx.eq(ElectrumMnemonic.is_valid_old(t), True, 'valid old seed', t)
    ctx.eq(ElectrumMnemonic.normalize_old(other), text, 'normalized', other)
    ctx.sample(seed=seed, words=text)


@workload(3100, 130000)
def old_phrases(ctx, rng, i):
    words = [rng.choice(OLD) for _ in range(rng.choice([12, 24]))]
    if i % 16 == 7:
        words = [rng.choice(OLD) for _ in range(rng.choice([0, 3, 6, 9, 15, 18, 21, 27, 30, 36, 48, 72, 120]))] or ['']
    kind = rng.randrange(5)
    if kind == 0:
        words = [rng.choice(OLD) for _ in range(i % 30)]
    elif kind == 1:
        w = rng.choice(OLD)
        words[rng.randrange(len(words))] = rng.choice(['zzzz', w + 'x', w[:-1], '1', 'abandon', 'zoo'])
    elif kind == 2:           # a group at or above 2^32
        v = rng.choice([1 << 32, (1 << 32) + 1, N**3 - 1, rng.randrange(1 << 32, N**3), (1 << 32) - 1])
        if v >= 1 << 32:
            ctx.n('groups at or above 2^32')
        a = v % N
        b = (v // N + a) % N
        c = (v // N // N + b) % N
        p = 3 * rng.randrange(len(words) // 3) if len(words) > 2 else 0
        words[p:p + 3] = [OLD[a], OLD[b], OLD[c]]
    want = mn.old_decode(words, OLD)
    text = ' '.join(words)
    ctx.case(text)
    if want is None:
        ctx.n('phrases refused')
        ctx.raises(ValueError, 'phrase of no seed', ElectrumMnemonic.old_to_hex_seed, text)
    else:
        ctx.eq(ElectrumMnemonic.old_to_hex_seed(text), want, 'seed', text)
        ctx.eq(ElectrumMnemonic.hex_seed_to_old(want), text, 'words again', want)
    ctx.eq(ElectrumMnemonic.is_valid_old(text), want is not None, 'is_valid_old', text)
    # hex of other sizes
    n = rng.choice([0, 1, 15, 17, 31, 33, 64, rng.randrange(70)])
    if n not in (16, 32):
        t = rng.randbytes(n).hex()
        ctx.n('phrases refused')
        ctx.eq(ElectrumMnemonic.is_valid_old(t), False, 'hex of wrong size', t)
        ctx.raises(ValueError, 'hex of wrong size', ElectrumMnemonic.hex_seed_to_old, t)
    t = rng.randbytes(16).hex()
    p = rng.randrange(32)
    bad = t[:p] + rng.choice('ghz*.\u00e9') + t[p + 1:]
    ctx.eq(ElectrumMnemonic.is_valid_old(bad), False, 'not hex', bad)
    ctx.raises(ValueError, 'not hex', ElectrumMnemonic.hex_seed_to_old, bad)
    # what int() takes in base 16 and is not hex
    t = rng.randbytes(rng.choice([16, 32])).hex()
    g = 8 * rng.randrange(len(t) // 8)
    p = g + rng.randrange(8)
    bad = rng.choice([
        t[:g] + rng.choice('+- ') + t[g + 1:], t[:g] + rng.choice(['0x', '0X']) + t[g + 2:],
        t[:g + 1] + '_' + t[g + 2:], t[:g + 7] + rng.choice(' \n\t') + t[g + 8:],
        t[:p] + rng.choice('\u0663\uff15\u0967') + t[p + 1:], t[:g] + ' ' * 3 + t[g + 3:],
        ' ' * 2 + t[2:], t[:-2] + '\n\n'])
    ctx.n('numbers that are not hex')
    ctx.raises(ValueError, 'not hex', ElectrumMnemonic.hex_seed_to_old, bad)


@workload(190, 6500)
def old_generation(ctx, rng, i):
    for kw in ({}, {'word_count': 12}, {'word_count': 24}):
        with taps.entropy(rng.choice([rng.randbytes, lambda n: bytes(n), lambda n: b'\xff' * n])) as log:
            seed = ElectrumMnemonic.generate_old_seed(**kw)
        ctx.case(seed)
        ctx.eq(seed, b''.join(log).hex(), 'seed is not the entropy drawn')
        count = kw.get('word_count', 12)
        words = ElectrumMnemonic.hex_seed_to_old(seed)
        ctx.eq(len(words.split()), count, 'word count', seed)
        ctx.eq(words.split(), mn.old_encode(seed, OLD), 'words')
    bad = i % 60
    if bad not in (12, 24):
        ctx.raises(ValueError, 'word count', ElectrumMnemonic.generate_old_seed, word_count=bad)


LISTS = [ENGLISH, Wordlists.bip39_wordlist('japanese.txt'), [f'w{n}' for n in range(4000)],
         [f'x{n:x}' for n in range(2049)]]
NEARLY_OLD = (OLD + OLD)[:2000] + [f'word{n}' for n in range(48)]
PREFIXES = ['01', '01', '100', '101', '', '0', 'ff', 'a']


def judge_new(ctx, text, prefix):
    ctx.n('validity judged')
    ctx.eq(ElectrumMnemonic.is_valid_new(text, prefix), mn.new_valid(text, prefix), 'is_valid_new',
           text, prefix)


@workload(480, 17000)
def new_generation(ctx, rng, i):
    words = LISTS[i % len(LISTS)]
    prefix = rng.choice(PREFIXES)
    bits = rng.choice([132, 133, 143, 144, 160, 200, 256, 264, rng.randrange(132, 300)])
    kw = {}
    if prefix != '01' or rng.random() < .5:
        kw['prefix'] = prefix
    if bits != 132 or rng.random() < .5:
        kw['bits'] = bits
    with taps.entropy(rng.randbytes) as log:
        text = ElectrumMnemonic.generate_new(words, **kw)
    given = text.split(' ')
    ctx.n('generated')
    ctx.seen('prefixes', prefix)
    ctx.case(text)
    ctx.ok(mn.new_valid(text, prefix), 'prefix of the HMAC', text, prefix)
    ctx.eq(ElectrumMnemonic.is_valid_new(text, prefix), True, 'own validity', text, prefix)
    ctx.ok(set(given) <= set(words), 'words of the list', text)
    ctx.ok(len(words) ** len(given) >= 1 << bits, 'too few words', len(given), bits, len(words))
    ctx.ok(len(words) ** (len(given) - 1) < 1 << bits, 'too many words', len(given), bits, len(words))
    ctx.ok(8 * sum(map(len, log)) >= bits, 'too little entropy drawn', bits, [len(x) for x in log])
    ctx.ok(mn.old_decode(given, OLD) is None, 'also an old seed', text)
    ctx.sample(mnemonic=text, prefix=prefix, bits=bits)
    # other phrases judged for validity
    for _ in range(3):
        t = ' '.join(rng.choice(words) for _ in range(rng.randrange(14)))
        for t2 in (t, t.upper(), ' ' + t, t + '\n', text.upper(), '\u00c9' + t):
            judge_new(ctx, t2, rng.choice(PREFIXES))
    mac = taps.real_hmac_digest(b'Seed version', text.encode(), 'sha512').hex()
    for n in (0, 1, 2, 5, 64, 128):
        ctx.eq(ElectrumMnemonic.is_valid_new(text, mac[:n]), True, 'longer prefix', text, mac[:n])
    bad = mac[:3] + ('0' if mac[3] != '0' else '1')
    ctx.eq(ElectrumMnemonic.is_valid_new(text, bad), False, 'wrong prefix', text, bad)
    ctx.eq(ElectrumMnemonic.is_valid_new(text, mac + '0'), False, 'too long a prefix')


@workload(120, 4300)
def not_also_old(ctx, rng, i):
    prefix = rng.choice(['', '', '0', '01'])
    words = NEARLY_OLD
    kw = rng.choice([{}, {'bits': 132}, {'bits': rng.randrange(254, 265)}])      # 12 or 24 words
    state = rng.getrandbits(64)

    def source():
        import random
        return random.Random(state).randbytes
    with taps.entropy(source()):
        text = ElectrumMnemonic.generate_new(words, prefix=prefix, **kw)
    with taps.entropy(source()):
        same = ElectrumMnemonic.generate_new(words, prefix=prefix, skip_old=True, **kw)
    with taps.entropy(source()):
        maybe = ElectrumMnemonic.generate_new(words, prefix=prefix, skip_old=False, **kw)
    ctx.case(text)
    ctx.n('generated')
    ctx.eq(same, text, 'same entropy')
    ctx.ok(mn.new_valid(text, prefix) and mn.new_valid(maybe, prefix), 'prefix', text, maybe)
    ctx.ok(mn.old_decode(text.split(), OLD) is None, 'also an old seed', text)
    if mn.old_decode(maybe.split(), OLD) is not None:
        ctx.n('old seeds avoided')
    else:
        ctx.eq(text, maybe, 'skipped though not an old seed')


@workload(310, 13000)
def edge_entropy(ctx, rng, i):
    '''Entropy that lands on and around the values at which the number of words changes.'''
    words = LISTS[i % len(LISTS)]
    size, bits = len(words), rng.choice([132, 143, 256])
    count = 1
    while size ** count < 1 << bits:
        count += 1
    top, low = size ** count, size ** (count - 1)
    value = rng.choice([0, 1, size - 1, size, low // size, low // 2, low // 2 + 2, low - 1, low, low + 1, low + 2,
                        low + 3, 2 * low, (low + top) // 2 - 1, (low + top) // 2, (low + top) // 2 + 1,
                        top - 2, top - 1, low // 2 + rng.randrange(low // 2), rng.randrange(low),
                        low + rng.randrange(low)])
    left = [value]

    def source(n):
        if left and top <= 256 ** n:
            ctx.n('scripted entropy')
            v = left.pop()
            room = (256 ** n - 1 - v) // top
            return (v + top * rng.randrange(room + 1)).to_bytes(n, 'big')
        return rng.randbytes(n)
    prefix = rng.choice(['', '0'])
    with taps.entropy(source):
        text = ElectrumMnemonic.generate_new(words, prefix=prefix, bits=bits)
    given = text.split(' ')
    ctx.case((i % len(LISTS), bits, value))
    ctx.eq(len(given), count, 'words generated', text, hex(value), size, bits)
    ctx.ok(set(given) <= set(words), 'words of the list', text)
    ctx.ok(mn.new_valid(text, prefix), 'prefix of the HMAC', text, prefix)
    ctx.ok(mn.old_decode(given, OLD) is None, 'also an old seed', text)


@workload(1, 1)
def variety(ctx, rng, i):
    '''Every position of generated phrases varies as random words do.'''
    with taps.entropy(rng.randbytes):
        rows = [ElectrumMnemonic.generate_new(ENGLISH, prefix='0').split() for _ in range(120)]
    for p in range(12):
        ctx.case(p)
        kinds = len({r[p] for r in rows})
        ctx.ok(kinds >= 90, 'little variety at a position', p, kinds)
        ctx.seen('positions with varied words', p)
    ctx.eq(len({' '.join(r) for r in rows}), 120, 'repeated phrase')


@workload(1, 1)
def refusals(ctx, rng, i):
    for bits in range(-1, 132):
        ctx.case(bits)
        ctx.raises(ValueError, 'bits', ElectrumMnemonic.generate_new, ENGLISH, bits=bits)
    for bad in ([], ENGLISH[:2047], OLD):
        ctx.raises(ValueError, 'short list', ElectrumMnemonic.generate_new, bad)
