import bitcoinx as bx
from bitcoinx import PrivateKey
import taps
from engine import workload
from lib import COINS
from ref import base58 as b58, ec
from ref.hashing import sha

PROP, LEVEL = 'C14', 'exploration'
FILES = ['keys.py', 'base58.py', 'coin.py']
RULE = ('scalars at the ends of the range, with leading zero bytes, and random, through every '
        'constructor and encoder for each coin and compression; out-of-range values, all payload '
        'lengths and version bytes with right checksums, real and near-miss minikeys; recorded and '
        'scripted entropy. Oracle: range and format rules restated. Distinct by input.')
REQUIRE = {'keys': 1000, 'refused': 5000, 'minikeys': 20, 'random keys': 100, 'retries': 20,
           'malformed hex': 500}
WIF = {0x80: 0, 0xef: 1}
RANGE = (ValueError, OverflowError)


def check_key(ctx, key, secret, compressed, coin, *info):
    raw = secret.to_bytes(32, 'big')
    ctx.eq(key.to_bytes(), raw, 'key bytes', *info)
    ctx.ok(type(key.to_bytes()) is bytes, 'type of key bytes')
    ctx.eq(key.to_int(), secret, 'key integer', *info)
    ctx.eq(key.to_hex(), raw.hex(), 'key hex', *info)
    ctx.eq(bool(key.is_compressed()), compressed, 'compression', *info)
    ctx.ok(key.coin() is coin, 'coin', key.coin().name, *info)
    wif = b58.encode_check(bytes([coin.WIF_byte]) + raw + (b'\1' if compressed else b''))
    ctx.eq(key.to_WIF(), wif, 'WIF', *info)


@workload(2700, 250000)
def forms(ctx, rng, i):
    secret = ec.EDGE_SCALARS[i] if i < len(ec.EDGE_SCALARS) else ec.rand_scalar(rng)
    raw = secret.to_bytes(32, 'big')
    coin = COINS[rng.randrange(4)]
    compressed = rng.random() < .5
    ctx.n('keys')
    ctx.case((secret, compressed, coin.name))
    key = PrivateKey(raw, compressed, coin)
    check_key(ctx, key, secret, compressed, coin, hex(secret))
    for k2 in (PrivateKey(raw), PrivateKey.from_int(secret), PrivateKey.from_hex(raw.hex()),
               PrivateKey.from_hex(raw.hex().upper()), PrivateKey.from_text(raw.hex()),
               PrivateKey.from_text(raw.hex().upper())):
        ctx.ok(k2 == key, 'key not equal', hex(secret))
        check_key(ctx, k2, secret, True, bx.Bitcoin, hex(secret))
    for c in (True, False, None):
        for other in COINS + [None]:
            use = coin if other is None else other
            comp = compressed if c is None else c
            text = b58.encode_check(bytes([use.WIF_byte]) + raw + (b'\1' if comp else b''))
            ctx.eq(key.to_WIF(compressed=c, coin=other), text, 'WIF', hex(secret))
            back = PrivateKey.from_WIF(text)
            ctx.ok(back == key, 'key from WIF not equal', text)
            check_key(ctx, back, secret, comp, COINS[WIF[use.WIF_byte]], text)
            again = PrivateKey.from_text(text)
            check_key(ctx, again, secret, comp, COINS[WIF[use.WIF_byte]], text)
    ctx.ok(raw.hex() not in str(key) and raw.hex() not in repr(key), 'key text shows the secret')
    ctx.sample(secret=hex(secret), compressed=compressed, coin=coin.name)
    # arbitrary bytes are reduced modulo the order
    data = rng.randbytes(rng.choice([0, 1, 16, 31, 32, 33, 64, 65, 100, 128, 129, 1000]))
    if rng.random() < .3:
        data = (ec.N * rng.randrange(1, 5) + rng.choice([0, 1, ec.N - 1])).to_bytes(40, 'big')
    v = int.from_bytes(data, 'big') % ec.N
    if v:
        ctx.eq(PrivateKey.from_arbitrary_bytes(data).to_int(), v, 'arbitrary bytes', data.hex())
    else:
        ctx.raises(ValueError, 'zero key from arbitrary bytes', PrivateKey.from_arbitrary_bytes, data)


def refused(ctx, types, key, fn, *args):
    ctx.n('refused')
    ctx.raises(types, key, fn, *args)


@workload(680, 40000)
def out_of_range(ctx, rng, i):
    for v in (0, ec.N, ec.N + 1, ec.N + rng.randrange(2**128), 2**256 - 1,
              rng.randrange(ec.N, 2**256)):
        raw = v.to_bytes(32, 'big')
        ctx.case(v)
        refused(ctx, ValueError, 'out-of-range key', PrivateKey, raw)
        refused(ctx, RANGE, 'out-of-range key', PrivateKey.from_int, v)
        refused(ctx, ValueError, 'out-of-range key', PrivateKey.from_hex, raw.hex())
        refused(ctx, ValueError, 'out-of-range key', PrivateKey.from_text, raw.hex())
        for ver in (0x80, 0xef):
            for tail in (b'', b'\1'):
                text = b58.encode_check(bytes([ver]) + raw + tail)
                refused(ctx, ValueError, 'out-of-range key', PrivateKey.from_WIF, text)
                refused(ctx, ValueError, 'out-of-range key', PrivateKey.from_text, text)
    for v in (-1, -ec.N, 2**256, 2**256 + 1, 2**300, -rng.getrandbits(255) - 1):
        refused(ctx, RANGE, 'out-of-range integer', PrivateKey.from_int, v)
    for n in list(range(0, 32)) + [33, 34, 64]:
        raw = rng.randbytes(n)
        refused(ctx, ValueError, 'key of wrong length', PrivateKey, raw)
        refused(ctx, ValueError, 'key of wrong length', PrivateKey.from_hex, raw.hex())
    raw = ec.rand_scalar(rng).to_bytes(32, 'big')
    for bad in (bytearray(raw), memoryview(raw), raw.hex(), 5, None, list(raw), 1.0, object()):
        refused(ctx, TypeError, 'key of wrong type', PrivateKey, bad)


@workload(680, 40000)
def bad_wif(ctx, rng, i):
    raw = ec.rand_scalar(rng).to_bytes(32, 'big')
    payloads = [bytes([v]) + raw + rng.choice([b'', b'\1']) for v in
                {0, 5, 0x6f, 0xc4, 0x7f, 0x81, 0xee, 0xf0, 0xff, rng.randrange(256)}
                if v not in (0x80, 0xef)]
    for ver in (0x80, 0xef):
        payloads += [bytes([ver]) + raw + bytes([v]) for v in (0, 2, 3, 0x10, 0x81, 0xff)]
        payloads += [bytes([ver]) + raw + b'\1\1', bytes([ver]) + raw + b'\1\0',
                     bytes([ver]) + raw[:-1], bytes([ver]) + raw[:31] + b'', bytes([ver]),
                     bytes([ver]) + raw + rng.randbytes(rng.randrange(2, 9)),
                     bytes([ver]) + raw[:-1] + b'']
    payloads += [b'', b'\1', raw, raw + b'\1']
    for payload in payloads:
        if len(payload) == 33 and payload[0] in WIF or \
                len(payload) == 34 and payload[0] in WIF and payload[33] == 1:
            continue
        text = b58.encode_check(payload)
        ctx.case(text)
        refused(ctx, ValueError, 'malformed WIF', PrivateKey.from_WIF, text)
        refused(ctx, ValueError, 'malformed text', PrivateKey.from_text, text)
    # Hex is of 64 characters, with nothing between the digits
    t = raw.hex()
    p = 2 * rng.randrange(1, 32)
    for bad in (t[:p] + ' ' + t[p:], ' ' + t, t + ' ', t + '\n', t[:p] + '  ' + t[p:], ' '.join(t[p:p + 2] for p in range(0, 64, 2)),
                '0x' + t, '00' + t, t + '01', '80' + t, t[:62] + '  ', t[:p] + '  ' + t[p + 2:], t[:-1], t + '0'):
        ctx.n('malformed hex')
        refused(ctx, ValueError, 'malformed hex', PrivateKey.from_text, bad)
    text = b58.encode_check(b'\x80' + raw + b'\1')
    for _ in range(10):
        p = rng.randrange(len(text))
        bad = rng.choice([text[:p] + rng.choice(b58.ALPHABET + '0OIl') + text[p + 1:],
                          text[:p] + text[p + 1:], text[:p] + 'z' + text[p:], text + '\n', ''])
        if b58.decode_check(bad) is None:
            refused(ctx, ValueError, 'malformed WIF', PrivateKey.from_WIF, bad)
            refused(ctx, ValueError, 'malformed text', PrivateKey.from_text, bad)
    for _ in range(4):
        p = rng.randrange(64)
        refused(ctx, ValueError, 'malformed hex', PrivateKey.from_text,
                raw.hex()[:p] + rng.choice('ghz-_ .') + raw.hex()[p + 1:])


@workload(55, 2500)
def minikeys(ctx, rng, i):
    n = rng.choice([22, 30])
    while True:
        text = 'S' + ''.join(rng.choice(b58.ALPHABET) for _ in range(n - 1))
        ok = sha((text + '?').encode())[0] == 0
        ctx.eq(bool(bx.is_minikey(text)), ok, 'is_minikey', text)
        if ok:
            break
        if rng.random() < .05:
            refused(ctx, ValueError, 'bad minikey', PrivateKey.from_minikey, text)
            refused(ctx, ValueError, 'bad minikey text', PrivateKey.from_text, text)
    ctx.n('minikeys')
    ctx.case(text)
    secret = int.from_bytes(sha(text.encode()), 'big')
    for fn in (PrivateKey.from_minikey, PrivateKey.from_text):
        check_key(ctx, fn(text), secret, False, bx.Bitcoin, text)
    # near misses which still hash to a leading zero byte
    for kind in ('length', 'letter', 'alphabet'):
        while True:
            m = rng.choice([20, 21, 23, 26, 29, 31, 32]) if kind == 'length' else n
            bad = ('S' if kind != 'letter' else rng.choice('sTt1'))
            bad += ''.join(rng.choice(b58.ALPHABET) for _ in range(m - 1))
            if kind == 'alphabet':
                p = rng.randrange(1, m)
                bad = bad[:p] + rng.choice('0OIl+ \u00e9') + bad[p + 1:]
            if sha((bad + '?').encode())[0] == 0:
                break
        ctx.eq(bool(bx.is_minikey(bad)), False, 'is_minikey', kind, bad)
        refused(ctx, ValueError, 'bad minikey', PrivateKey.from_minikey, bad)


@workload(680, 40000)
def random_keys(ctx, rng, i):
    # the operating system's entropy, as recorded
    with taps.entropy(rng.randbytes) as log:
        key = PrivateKey.from_random()
    ctx.n('random keys')
    ctx.eq(key.to_bytes(), log[-1] if log else None, 'random key is not the entropy drawn')
    ctx.case(key.to_bytes())
    # a supplied source with unusable values first
    draws = [v.to_bytes(32, 'big') for v in rng.choices(
        [0, ec.N, ec.N + 1, 2**256 - 1, ec.N + rng.randrange(2**100)], k=rng.randrange(0, 5))]
    ctx.n('retries', len(draws))
    good = ec.rand_scalar(rng).to_bytes(32, 'big')
    extra = ec.rand_scalar(rng).to_bytes(32, 'big')
    sizes = []
    feed = iter(draws + [good, extra])

    def source(n):
        sizes.append(n)
        return next(feed)
    key = PrivateKey.from_random(source=source)
    ctx.eq(key.to_bytes(), good, 'first usable draw', [d.hex() for d in draws])
    ctx.eq(sizes, [32] * (len(draws) + 1), 'draws')
    ctx.ok(key.is_compressed(), 'random keys are compressed')
