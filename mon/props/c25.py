import unicodedata

import taps
from bitcoinx import BIP39Mnemonic, Wordlists
from engine import workload
from ref import mnemonics as mn

PROP, LEVEL = 'C25', 'exploration'
FILES = ['mnemonic.py']
RULE = ('all sizes with the bundled and made-up 2048-word lists, entropy recorded and scripted (zeros, ones, '
        'single bits); phrases with one word changed, swapped, dropped or repeated, every count 0 to 30, '
        'spelled in other case, spacing and Unicode forms, with unlisted words; normalization of every '
        'single code point and of random strings; seeds for phrases and passphrases in several scripts. '
        'Oracle: independent BIP39 and PBKDF2. Distinct by phrase and list.')
REQUIRE = {'generated': 500, 'valid': 1500, 'invalid': 2000, 'bad words': 500, 'respelled': 1000,
           'code points normalized': 1000000, 'seeds': 60, 'word counts': 25, 'lists': 5}
FILES_ = ['english.txt', 'spanish.txt', 'japanese.txt', 'chinese_simplified.txt']
LISTS = [Wordlists.bip39_wordlist(name) for name in FILES_]
LISTS.append([f'w{n * 7919 % 2048:x}q' for n in range(2048)])
INDEX = [{w: n for n, w in enumerate(words)} for words in LISTS]
SPACES = [' ', '  ', '\t', '\n', '\u3000', ' \u00a0', '\r\n']


def judge(ctx, number, given):
    '''given: words.'''
    words, index = LISTS[number], INDEX[number]
    text = ' '.join(given)
    ctx.case((number, text))
    ctx.seen('word counts', len(given))
    ctx.seen('lists', number)
    bad = [w for w in given if w not in index]
    if len(given) in (12, 15, 18, 21, 24) and bad:
        ctx.n('bad words')
        e = ctx.raises(BIP39Mnemonic.BadWords, 'unlisted words', BIP39Mnemonic.is_valid, text, words)
        ctx.eq(e.args[0], bad, 'words reported', text)
        return
    want = not bad and mn.bip39_valid([index[w] for w in given])
    ctx.n('valid' if want else 'invalid')
    ctx.eq(BIP39Mnemonic.is_valid(text, words), want, 'is_valid', text)


def respell(rng, text):
    parts = text.split(' ')
    parts = [rng.choice([p, p.upper(), p.capitalize(), p.swapcase(), unicodedata.normalize('NFC', p),
                         unicodedata.normalize('NFKC', p),
                         ''.join(chr(ord(c) + 0xfee0) if '!' <= c <= '~' and rng.random() < .3 else c
                                 for c in p)]) for p in parts]
    out = rng.choice(['', ' ', '\n'])
    for p in parts:
        out += p + rng.choice(SPACES)
    return out if rng.random() < .5 else out.strip()


@workload(2300, 200000)
def generate(ctx, rng, i):
    number = i % len(LISTS)
    words = LISTS[number]
    bits = [128, 160, 192, 224, 256][i // 5 % 5]
    kind = rng.randrange(5)
    if kind == 0:
        source = lambda n: bytes(n)                         # noqa: E731
    elif kind == 1:
        source = lambda n: b'\xff' * n                      # noqa: E731
    elif kind == 2:
        bit = rng.randrange(bits)
        source = lambda n: (1 << bit % (8 * n)).to_bytes(n, 'big')    # noqa: E731
    else:
        source = rng.randbytes
    with taps.entropy(source) as log:
        if bits == 128 and rng.random() < .5:
            text = BIP39Mnemonic.generate(words)
        else:
            text = BIP39Mnemonic.generate(words, bits)
    ctx.n('generated')
    entropy = b''.join(log)
    ctx.eq(len(entropy) * 8, bits, 'entropy drawn')
    want = mn.bip39_encode(entropy, words)
    ctx.eq(text, ' '.join(want), 'encoding of the entropy', entropy.hex())
    ctx.ok(mn.bip39_valid([INDEX[number][w] for w in want]), 'model disagrees with itself')
    judge(ctx, number, want)
    ctx.sample(entropy=entropy.hex(), mnemonic=text)
    other = respell(rng, text)
    if mn.normalize(other) == mn.normalize(text):
        ctx.n('respelled')
        ctx.eq(BIP39Mnemonic.is_valid(other, words), True, 'respelled', other)
        ctx.eq(BIP39Mnemonic.normalize(other), mn.normalize(text), 'normalize', other)
    # a list in any sequence type
    ctx.eq(BIP39Mnemonic.is_valid(text, tuple(words)), True, 'tuple of words')


@workload(3500, 320000)
def phrases(ctx, rng, i):
    number = rng.randrange(len(LISTS))
    words, index = LISTS[number], INDEX[number]
    good = mn.bip39_encode(rng.randbytes(rng.choice([16, 20, 24, 28, 32])), words)
    judge(ctx, number, good)
    for _ in range(4):
        given = list(good)
        kind = rng.randrange(9)
        p = rng.randrange(len(given))
        if kind == 0:
            given[p] = rng.choice(words)
        elif kind == 1:
            q = rng.randrange(len(given))
            given[p], given[q] = given[q], given[p]
        elif kind == 2:
            given = [rng.choice(words) for _ in range(i % 31)]
        elif kind == 3:
            given = given[:rng.randrange(len(given) + 1)]
        elif kind == 4:
            given += [rng.choice(words) for _ in range(rng.choice([1, 3, 3, 6]))]
        elif kind == 5:
            for _ in range(rng.randrange(1, 5)):
                w = rng.choice(words)
                given[rng.randrange(len(given))] = rng.choice(
                    ['zzzz', w + 's', w[:-1] or 'q', 'x' + w, '1', '-', 'nota', w + w])
        elif kind == 7:         # none is listed, or all but one
            given = [rng.choice(['zzzz', w + 's', 'x' + w, 'nota', w + w]) for w in given]
            if rng.random() < .5:
                given[p] = rng.choice([words[0], words[-1], rng.choice(words)])
        elif kind == 8:         # one word, or two by turns
            pair = [rng.choice(['zzzz', 'x' + given[p], given[p], words[0], words[-1]]), rng.choice(['nota', given[0], given[p]])]
            given = [pair[k % rng.choice([1, 1, 2])] for k in range(len(given))]
        else:
            given[-1] = words[(index[given[-1]] + rng.choice([1, -1, 16, 128])) % 2048]
        if all(mn.normalize(w) == w for w in given):
            judge(ctx, number, given)
        if kind not in (5, 7, 8):
            text = respell(rng, ' '.join(given))
            if mn.normalize(text) == ' '.join(given):
                ctx.n('respelled')
                want = mn.bip39_valid([index[w] for w in given])
                ctx.eq(BIP39Mnemonic.is_valid(text, words), want, 'respelled', text)


@workload(1, 1)
def refusals(ctx, rng, i):
    words = LISTS[0]
    for bits in list(range(-32, 0, 32)) + list(range(0, 600)):
        if bits not in (128, 160, 192, 224, 256):
            ctx.case(bits)
            ctx.raises(ValueError, 'bits', BIP39Mnemonic.generate, words, bits)
    for bad in ([], words[:-1], words + ['zzzz'], words[:1626]):
        ctx.raises(ValueError, 'list size', BIP39Mnemonic.generate, bad)
        ctx.raises(ValueError, 'list size', BIP39Mnemonic.generate, bad, 256)
        ctx.raises(ValueError, 'list size', BIP39Mnemonic.is_valid, ' '.join(words[:12]), bad)
    for text in ('', ' ', '\n', 'abandon'):
        ctx.eq(BIP39Mnemonic.is_valid(text, words), False, 'short', text)


def check_normal(ctx, text):
    once = BIP39Mnemonic.normalize(text)
    ctx.eq(once, mn.normalize(text), 'normalize', text)
    ctx.eq(BIP39Mnemonic.normalize(once), once, 'normalization is not idempotent', text)


@workload(34, 34)
def code_points(ctx, rng, i):
    '''Every code point, alone and between letters.'''
    norm = BIP39Mnemonic.normalize
    span = range(i * 0x8000, (i + 1) * 0x8000)
    for v in span:
        if 0xd800 <= v < 0xe000:
            continue
        for text in (chr(v), 'A' + chr(v) + 'b'):
            once = norm(text)
            if once != mn.normalize(text) or norm(once) != once:
                check_normal(ctx, text)
    ctx.case(i)
    ctx.n('oracle checks', 2 * len(span))
    ctx.n('code points normalized', len(span))


@workload(2300, 240000)
def normalization(ctx, rng, i):
    pool = rng.choice([(0, 0x80), (0x80, 0x600), (0x300, 0x370), (0x1e00, 0x2100), (0x3000, 0x3200),
                       (0xac00, 0xd7a4), (0xf900, 0xfb50), (0x1d400, 0x1d800), (0, 0x110000)])
    for _ in range(5):
        text = ''
        for _ in range(rng.randrange(1, 12)):
            v = rng.choice([rng.randrange(*pool), rng.randrange(*pool), 0x41, 0x20, 0x3a3, 0x130,
                            0x301, 0x323, rng.randrange(0x300, 0x370)])
            text += chr(v) if not 0xd800 <= v < 0xe000 else 'x'
        ctx.case(text)
        check_normal(ctx, text)


@workload(250, 12000)
def seeds(ctx, rng, i):
    number = i % len(LISTS)
    mnemonic = ' '.join(mn.bip39_encode(rng.randbytes(rng.choice([16, 24, 32])), LISTS[number]))
    if rng.random() < .2:
        mnemonic = rng.choice(['', 'x', 'not a valid phrase at all', '\u00e9\u00c9 \u212b'])
    passphrase = rng.choice(['', 'TREZOR', 'P\u00e4ssword', 'e\u0301', '\u30d1\u30b9', ' spaced  out ', 'UPPER',
                             '\u212b', 'x' * 200, '\ufb01', 'a\nb'])
    other = respell(rng, mnemonic)
    if mn.normalize(other) != mn.normalize(mnemonic):
        other = mnemonic
    want = mn.bip39_seed(mnemonic, passphrase)
    ctx.case((mnemonic, passphrase))
    ctx.n('seeds')
    ctx.eq(BIP39Mnemonic.to_seed(mnemonic, passphrase), want, 'seed', mnemonic, passphrase)
    ctx.eq(BIP39Mnemonic.to_seed(other, passphrase), want, 'seed of respelled phrase', other)
    ctx.eq(BIP39Mnemonic.to_seed(mnemonic, unicodedata.normalize('NFC', passphrase)), want,
           'seed with composed passphrase', passphrase)
