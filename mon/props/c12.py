import bitcoinx as bx
from bitcoinx import Address, P2PKH_Address, P2SH_Address, PrivateKey, PublicKey, Script
from engine import workload
from lib import COINS
from ref import base58 as b58, ec
from ref.hashing import hash160

PROP, LEVEL = 'C12', 'exploration'
FILES = ['address.py', 'base58.py', 'keys.py', 'coin.py']
RULE = ('hashes (random, zero, leading zeros) for every coin and kind; every version byte; payloads '
        'of 0 to 40 bytes with right checksums; every one-character error; keys of both '
        'compressions. Oracle: independent base58, version bytes from the network parameters. '
        'Distinct by text and coin.')
REQUIRE = {'addresses': 1000, 'strings refused': 3000, 'versions': 200, 'keys': 100}
VERSIONS = {0: (0, 5), 1: (0x6f, 0xc4), 2: (0x6f, 0xc4), 3: (0x6f, 0xc4)}


def rand_hash(rng):
    r = rng.random()
    if r < .05:
        return bytes(20)
    if r < .1:
        return b'\xff' * 20
    if r < .4:
        z = rng.randrange(1, 20)
        return bytes(z) + rng.randbytes(20 - z)
    return rng.randbytes(20)


def judge(ctx, text, k):
    '''Compare Address.from_string with the network's rules.'''
    coin = COINS[k]
    payload = b58.decode_check(text)
    ctx.case((text, k))
    ok = payload is not None and len(payload) == 21 and payload[0] in VERSIONS[k]
    if not ok:
        ctx.n('strings refused')
        ctx.raises(ValueError, 'bad address accepted or wrong error', Address.from_string, text, coin)
        return None
    address = Address.from_string(text, coin)
    cls = (P2PKH_Address, P2SH_Address)[VERSIONS[k].index(payload[0])]
    ctx.ok(type(address) is cls, 'kind of address', text, k, type(address))
    ctx.eq(address.hash160(), payload[1:], 'address hash', text)
    ctx.ok(address.coin() is coin, 'address coin', text)
    ctx.eq(address.to_string(), text, 'address text')
    ctx.eq(str(address), text, 'address text')
    return address


@workload(8300, 490000)
def round_trips(ctx, rng, i):
    k = i % 4
    coin, h = COINS[k], rand_hash(rng)
    for cls, ver, pre, post in ((P2PKH_Address, VERSIONS[k][0], b'\x76\xa9\x14', b'\x88\xac'),
                                (P2SH_Address, VERSIONS[k][1], b'\xa9\x14', b'\x87')):
        ctx.n('addresses')
        address = cls(h, coin)
        text = b58.encode_check(bytes([ver]) + h)
        ctx.eq(address.to_string(), text, 'address text', h.hex(), k)
        back = judge(ctx, text, k)
        ctx.ok(back == address and hash(back) == hash(address), 'address not equal', text)
        for a in (address, back):
            ctx.eq(a.to_script_bytes(), pre + h + post, 'address script', text)
            ctx.ok(a.to_script() == Script(pre + h + post), 'address script', text)
            ctx.ok(a.coin() is coin, 'address coin', text)
        ctx.sample(text=text, hash=h.hex(), coin=coin.name)
        for other in range(4):
            judge(ctx, text, other)
    ctx.ok(P2PKH_Address(h, coin) != P2SH_Address(h, coin), 'kinds equal')


@workload(1400, 21000)
def versions(ctx, rng, i):
    h = rand_hash(rng)
    ctx.n('versions')
    text = b58.encode_check(bytes([i % 256]) + h)
    for k in range(4):
        judge(ctx, text, k)


@workload(1100, 41000)
def lengths(ctx, rng, i):
    for n in list(range(0, 41)) + [49, 50, 77, 78, 79]:
        k = rng.randrange(4)
        ver = rng.choice(VERSIONS[k])
        judge(ctx, b58.encode_check(bytes([ver]) + rng.randbytes(n)), k)
    judge(ctx, b58.encode_check(b''), 0)


@workload(560, 24000)
def errors(ctx, rng, i):
    k = rng.randrange(4)
    text = b58.encode_check(bytes([rng.choice(VERSIONS[k])]) + rand_hash(rng))
    for pos in range(len(text)):
        for c in (rng.choice(b58.ALPHABET), rng.choice('0OIl \n\u00e9')):
            judge(ctx, text[:pos] + c + text[pos + 1:], k)
        judge(ctx, text[:pos] + text[pos + 1:], k)
        judge(ctx, text[:pos] + rng.choice(b58.ALPHABET) + text[pos:], k)
        if pos:
            judge(ctx, text[:pos - 1] + text[pos] + text[pos - 1] + text[pos + 1:], k)
    for bad in (text + '\n', ' ' + text, text + ' ', text + '1', '1' + text, text.lower(),
                text.upper(), text[::-1], '', '1', text + text, text + ':' + text,
                text[:10], 'bitcoincash:' + text, 'x' * 60, '1' * 36, '\u212a' * 36):
        judge(ctx, bad, k)


@workload(1100, 49000)
def keys(ctx, rng, i):
    k = rng.randrange(4)
    coin = COINS[k]
    secret = ec.rand_scalar(rng)
    pt = ec.mul_g(secret)
    compressed = rng.random() < .5
    ctx.n('keys')
    ctx.case((secret, compressed, k))
    priv = PrivateKey(secret.to_bytes(32, 'big'), compressed, coin)
    for pub in (priv.public_key, PublicKey.from_bytes(ec.ser(pt, compressed))):
        for c in (None, True, False):
            ser = ec.ser(pt, compressed if c is None else c)
            h = hash160(ser)
            ctx.eq(pub.hash160(compressed=c), h, 'key hash', ser.hex())
            for other in COINS:
                address = pub.to_address(compressed=c, coin=other)
                ctx.eq(address.to_string(), b58.encode_check(
                    bytes([VERSIONS[COINS.index(other)][0]]) + h), 'key address', ser.hex())
                ctx.ok(address.coin() is other, 'coin of key address')
                ctx.ok(Address.from_string(address.to_string(), other) == address, 'address parses')
        h = hash160(ec.ser(pt, compressed))
        own = coin if pub is priv.public_key else bx.Bitcoin
        ctx.ok(pub.to_address().coin() is own, 'default coin of the key\'s address')
        ctx.eq(pub.to_address().hash160(), h, 'default address')
        ctx.eq(bytes(pub.P2PKH_script()), b'\x76\xa9\x14' + h + b'\x88\xac', 'P2PKH script')
        ser = ec.ser(pt, compressed)
        ctx.eq(bytes(pub.P2PK_script()), bytes([len(ser)]) + ser + b'\xac', 'P2PK script')
        ctx.eq(bytes(pub.complement().P2PKH_script()),
               b'\x76\xa9\x14' + hash160(ec.ser(pt, not compressed)) + b'\x88\xac',
               'P2PKH script of the complement')
