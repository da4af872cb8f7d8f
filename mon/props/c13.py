from bitcoinx import Address, P2PKH_Address, P2SH_Address, cashaddr
from engine import workload
from lib import COINS
from ref import base58 as b58, cash

PROP, LEVEL = 'C13', 'exploration'
FILES = ['cashaddr.py', 'address.py']
RULE = ('encodings of every hash size and both kinds under coin, printable and single-character '
        'prefixes in both cases; texts with a right checksum but every version byte, wrong sizes, '
        'padding and lengths; every one-character error, case flip, transposition, and non-ASCII '
        'look-alikes; address parsing with and without prefix for each coin. Oracle: an '
        'independent codec from the specification. Distinct by text (and coin).')
REQUIRE = {'decoded': 1500, 'refused': 10000, 'addresses parsed': 1000, 'addresses refused': 1000,
           'well-summed malformed texts': 1000}
PREFIXES = {0: 'bitcoincash', 1: 'bchtest', 2: 'bchtest', 3: 'bchtest'}
PRINTABLE = [chr(c) for c in range(33, 127) if chr(c) != ':' and not chr(c).isupper()]


def judge(ctx, text):
    want = cash.decode(text)
    ctx.case(text.encode('utf-8', 'surrogatepass'))
    if want is None:
        ctx.n('refused')
        ctx.raises(ValueError, 'invalid cash address decoded or wrong error', cashaddr.decode, text)
    else:
        ctx.n('decoded')
        got = cashaddr.decode(text)
        ctx.eq((got[0], int(got[1]), bytes(got[2])), want, 'decoding', text)
    return want


def judge_address(ctx, text, k):
    '''Address.from_string on anything cash-address-like.'''
    coin = COINS[k]
    ctx.case((text.encode('utf-8', 'surrogatepass'), k))
    prefix = PREFIXES[k]
    candidates = {text, prefix + ':' + text, prefix.upper() + ':' + text}
    want = None
    for c in candidates:
        got = cash.decode(c)
        if got and got[0].lower() == prefix and len(got[2]) == 20:
            want = got
    if want is None and b58.decode_check(text) is None:
        ctx.n('addresses refused')
        ctx.raises(ValueError, 'invalid address accepted or wrong error', Address.from_string, text,
                   coin)
    elif want is not None:
        ctx.n('addresses parsed')
        address = Address.from_string(text, coin)
        ctx.ok(type(address) is (P2PKH_Address, P2SH_Address)[want[1]], 'kind', text, type(address))
        ctx.eq(address.hash160(), want[2], 'hash', text)
        ctx.ok(address.coin() is coin, 'coin', text)


def rand_prefix(rng):
    r = rng.random()
    if r < .4:
        return PREFIXES[rng.randrange(4)]
    if r < .6:
        return rng.choice(PRINTABLE)
    return ''.join(rng.choice(PRINTABLE) for _ in range(rng.randrange(1, 20)))


def rand_hash(rng, n):
    return rng.choice([rng.randbytes(n), rng.randbytes(n), rng.randbytes(n), bytes(n), b'\xff' * n])


@workload(3400, 360000)
def valid(ctx, rng, i):
    n = cash.SIZES[i % 8]
    kind = rng.randrange(2)
    prefix = rand_prefix(rng)
    h = rand_hash(rng, n)
    text = cash.encode(prefix, kind, h)
    for t in (text, text.upper()):
        ctx.ok(judge(ctx, t) is not None, 'model rejects its encoding', t)
    ctx.sample(text=text)
    # mixed case
    pos = [p for p, c in enumerate(text) if c.isalpha()]
    if len(pos) > 1:
        p = rng.choice(pos)
        judge(ctx, text[:p] + text[p].upper() + text[p + 1:])
        up = text.upper()
        judge(ctx, up[:p] + up[p].lower() + up[p + 1:])
        cut = text.index(':')
        judge(ctx, text[:cut].upper() + text[cut:])
        judge(ctx, text[:cut] + text[cut:].upper())


@workload(140, 12000)
def one_character_errors(ctx, rng, i):
    prefix = rand_prefix(rng)
    text = cash.encode(prefix, rng.randrange(2), rand_hash(rng, rng.choice(cash.SIZES)))
    if rng.random() < .3:
        text = text.upper()
    for p in range(len(text)):
        for c in {rng.choice(cash.CHARSET), rng.choice('1bio:qp '), rng.choice(
                '\u212a\u017f\u0131\u0130\uff11\u00e9\n\x00\ud800')}:
            judge(ctx, text[:p] + c + text[p + 1:])
        judge(ctx, text[:p] + text[p + 1:])
        judge(ctx, text[:p] + rng.choice(cash.CHARSET) + text[p:])
        if p:
            judge(ctx, text[:p - 1] + text[p] + text[p - 1] + text[p + 1:])
    for bad in (text + '\n', ' ' + text, text + ' ', ':' + text, text.replace(':', ''), text[:-1],
                text[:-8], text.split(':')[1], ':' + text.split(':')[1], text + ':', '', ':',
                prefix + ':', prefix + ':' + text, text.replace(':', '::'), prefix):
        judge(ctx, bad)
    # a prefix with the separator in it
    p = rng.randrange(len(prefix) + 1)
    for odd in (prefix[:p] + ':' + prefix[p:], ':' + prefix, prefix + ':', ':', '::'):
        judge(ctx, cash.encode(odd, rng.randrange(2), rand_hash(rng, 20)))
    # several characters
    for _ in range(20):
        t = list(text)
        for _ in range(rng.randrange(2, 6)):
            t[rng.randrange(len(t))] = rng.choice(cash.CHARSET)
        judge(ctx, ''.join(t))


@workload(3400, 360000)
def well_summed(ctx, rng, i):
    '''The checksum is right but the payload need not be.'''
    prefix = rand_prefix(rng)
    kind = rng.randrange(6)
    if kind == 0:      # any length of five-bit values
        values = [rng.randrange(32) for _ in range(rng.randrange(0, 118))]
        if values and rng.random() < .5:
            values[0] = rng.choice([0, 1])
    elif kind == 1:    # any version byte
        n = rng.choice(cash.SIZES)
        values = cash.to5(bytes([rng.randrange(256)]) + rng.randbytes(n))
    elif kind == 2:    # wrong size
        n = rng.choice(cash.SIZES) + rng.choice([-4, -1, 0, 1, 4, -20])
        values = cash.to5(bytes([rng.randrange(16)]) + rng.randbytes(max(n, 0)))
    elif kind == 3:    # non-zero padding
        n = rng.choice(cash.SIZES)
        values = cash.to5(bytes([rng.randrange(2) << 3 | cash.SIZES.index(n)]) + rng.randbytes(n))
        values[-1] ^= rng.randrange(32)
    elif kind == 4:    # excess padding
        n = rng.choice(cash.SIZES)
        values = cash.to5(bytes([rng.randrange(2) << 3 | cash.SIZES.index(n)]) + rng.randbytes(n))
        values += [0] * rng.randrange(1, 9)
    else:              # too short
        values = [rng.randrange(32) for _ in range(rng.randrange(0, 4))]
    text = cash.seal(prefix, values)
    if rng.random() < .2:
        text = text.upper()
    ctx.n('well-summed malformed texts')
    judge(ctx, text)
    if len(text) > 35:
        judge_address(ctx, cash.seal(PREFIXES[0], values), 0)


@workload(4, 4)
def all_versions(ctx, rng, i):
    for version in range(256):
        for n in cash.SIZES:
            judge(ctx, cash.seal('bitcoincash', cash.to5(bytes([version]) + rng.randbytes(n))))


# Characters whose upper or lower case form is ASCII, or that look like ASCII
LOOKALIKES = [chr(c) for c in range(128, 0x2fa20)
              if any(x.isascii() for x in (chr(c).lower(), chr(c).upper(), chr(c).casefold()))]


@workload(450, 24000)
def lookalikes(ctx, rng, i):
    text = cash.encode(rng.choice([PREFIXES[0], PREFIXES[1], 'ksi', 'ssk']), rng.randrange(2),
                       rng.randbytes(20))
    for t in (text, text.upper()):
        for look in LOOKALIKES:
            for form in {look.lower(), look.upper()}:
                if form.isascii() and form in t:
                    ctx.n('look-alikes placed')
                    judge(ctx, t.replace(form, look))
                    judge(ctx, t.replace(form, look, 1))
                    judge_address(ctx, t.replace(form, look), 0)


@workload(1800, 180000)
def addresses(ctx, rng, i):
    k = rng.randrange(4)
    n = 20 if rng.random() < .8 else rng.choice(cash.SIZES)
    h = rand_hash(rng, n)
    prefix = PREFIXES[k] if rng.random() < .8 else rng.choice(['bitcoincash', 'bchtest', 'bchreg',
                                                               'simpleledger', rand_prefix(rng)])
    text = cash.encode(prefix, rng.randrange(2), h)
    bare = text.split(':')[1]
    for t in (text, text.upper(), bare, bare.upper()):
        for c in range(4):
            judge_address(ctx, t, c)
    p = rng.randrange(len(bare))
    for t in (bare[:p] + rng.choice(cash.CHARSET) + bare[p + 1:], bare[:-1], bare + 'q',
              bare[:p] + bare[p].swapcase() + bare[p + 1:], prefix.upper() + ':' + bare,
              prefix + ':' + bare.upper(), text + ' ', '\n' + text, prefix + ':' + text,
              bare.replace('k', '\u212a'), bare.upper().replace('K', '\u212a'),
              text.upper().replace('K', '\u212a'), ':' + bare):
        judge_address(ctx, t, k)


@workload(10, 20)
def not_text(ctx, rng, i):
    text = cash.encode('bitcoincash', 0, rng.randbytes(20))
    for bad in (text.encode(), None, 5, [text]):
        ctx.raises(TypeError, 'not text', cashaddr.decode, bad)
    ctx.case(text)
