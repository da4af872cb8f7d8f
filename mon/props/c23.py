import bitcoinx as bx
from bitcoinx import (BIP32PrivateKey, BIP32PublicKey, Base58Error, bip32_build_chain_string,
                      bip32_decompose_chain_string, bip32_is_valid_chain_string,
                      bip32_key_from_string, bip32_validate_derivation)
from engine import workload
from lib import COINS
from ref import base58 as b58, bip32, ec
from ref.bip32 import HARD
from ref.hashing import sha

PROP, LEVEL = 'C23', 'exploration'
FILES = ['bip32.py', 'coin.py', 'base58.py']
RULE = ('payloads with every version, depths 0 to 255, indices and fingerprints at and off boundaries, '
        'odd chain codes, edge scalars and points; payloads altered in one respect with the checksum '
        'made right; changed characters; derivation lists of 0 to 255 entries and near-miss texts '
        'judged by an independent grammar. Distinct by text.')
REQUIRE = {'strings': 800, 'strings refused': 6000, 'derivations': 1500, 'texts refused': 3000,
           'depths': 200}
XVER = {v: (coin, public) for coin in COINS[:2]
        for v, public in ((coin.xpub_verbytes, True), (coin.xprv_verbytes, False))}


def judge(ctx, payload, text=None):
    '''The library's verdict on a payload with a right checksum, against the rules.'''
    text = b58.encode_check(payload) if text is None else text
    ctx.case(text)
    good = len(payload) == 78 and payload[:4] in XVER
    if good:
        public = XVER[payload[:4]][1]
        if public:
            point = ec.parse(payload[45:])
            good = point is not None
        else:
            secret = int.from_bytes(payload[46:], 'big')
            good = payload[45] == 0 and 0 < secret < ec.N
    if not good:
        ctx.n('strings refused')
        ctx.raises(ValueError, 'malformed extended key', bip32_key_from_string, text)
        return
    coin = XVER[payload[:4]][0]
    key = bip32_key_from_string(text)
    ctx.n('strings')
    ctx.seen('depths', payload[4])
    d = key.derivation()
    ctx.eq((d.depth, d.parent_fingerprint, d.n, d.chain_code),
           (payload[4], payload[5:9], int.from_bytes(payload[9:13], 'big'), payload[13:45]),
           'metadata', text)
    ctx.ok(key.coin() is coin, 'coin', text)
    ctx.eq(key.to_extended_key_string(), text, 'printed again')
    if public:
        ctx.ok(isinstance(key, BIP32PublicKey), 'kind', text)
        ctx.eq(key.to_bytes(), payload[45:], 'key', text)
        ctx.eq(str(key), text, 'str')
    else:
        ctx.ok(isinstance(key, BIP32PrivateKey), 'kind', text)
        ctx.eq(key.to_bytes(), payload[46:], 'key', text)
        ctx.eq(str(key), sha(payload[46:]).hex(), 'str')
        ctx.ok(text not in repr(key) and payload[46:].hex() not in repr(key), 'repr shows the secret')
        pub = coin.xpub_verbytes + payload[4:45] + ec.ser(ec.mul_g(secret))
        ctx.eq(key.public_key.to_extended_key_string(), b58.encode_check(pub), 'public string', text)
    again = bip32_key_from_string(key.to_extended_key_string())
    ctx.ok(again == key and hash(again) == hash(key), 'not equal after the round trip', text)
    ctx.eq(again.derivation(), d, 'derivations differ', text)


def rand_payload(rng):
    node = bip32.rand_node(rng, rng.random() < .5)
    node.depth = rng.choice([0, 1, 255, rng.randrange(256)])
    if not node.depth:
        node.index, node.parent_fingerprint = 0, bytes(4)
    return node.payload(COINS[rng.randrange(2)])


@workload(1200, 62000)
def strings(ctx, rng, i):
    payload = rand_payload(rng)
    if i < 256:
        payload = payload[:4] + bytes([i]) + payload[5:]
    judge(ctx, payload)
    ctx.sample(text=b58.encode_check(payload))
    b = bytearray(payload)
    other = rng.choice([c for c in XVER if c != payload[:4]])
    variants = [other + payload[4:], payload[:-1], payload + b'\0', payload[:45] + payload[46:],
                payload[:rng.randrange(78)], payload + rng.randbytes(rng.randrange(1, 5)), b'',
                payload[1:], bytes(78)]
    b[rng.randrange(4)] ^= 1 << rng.randrange(8)
    variants.append(bytes(b))
    for prefix in (0, 1, 2, 3, 4, 5, 6, 0x80, 0xff, rng.randrange(256)):
        variants.append(payload[:45] + bytes([prefix]) + payload[46:])
    for v in (0, ec.N, ec.N + 1, ec.N - 1, ec.P, ec.P - 1, 2**256 - 1, 5, 1):
        for head in (b'\0', b'\2', b'\3'):
            variants.append(payload[:45] + head + v.to_bytes(32, 'big'))
    variants.append(payload[:45] + payload[46:] + b'\0')
    for bad in rng.sample(variants, 20):
        judge(ctx, bad)
    text = b58.encode_check(payload)
    for _ in range(4):
        p = rng.randrange(len(text))
        bad = rng.choice([text[:p] + rng.choice(b58.ALPHABET + 'O0lI') + text[p + 1:],
                          text[:p] + text[p + 1:], text[:p] + rng.choice(b58.ALPHABET) + text[p:],
                          text + '\n', ' ' + text, text[:p]])
        decoded = b58.decode_check(bad)
        if decoded is None:
            ctx.n('strings refused')
            ctx.raises(ValueError, 'bad checksum or character', bip32_key_from_string, bad)
        else:
            judge(ctx, decoded, bad)


@workload(300, 15000)
def coins(ctx, rng, i):
    '''Version bytes printed for each coin.'''
    coin = COINS[i % 4]
    seed = rng.randbytes(32)
    node, key = bip32.master(seed), BIP32PrivateKey.from_seed(seed, coin)
    for n in (bip32.rand_index(rng, True), bip32.rand_index(rng, True)):
        node, key = node.child(n), key.child(n)
        ctx.case((seed, n))
        ctx.n('strings')
        ctx.eq(key.to_extended_key_string(), node.text(coin), 'string', coin.name)
        ctx.eq(key.public_key.to_extended_key_string(), node.neuter().text(coin), 'string', coin.name)
        back = bip32_key_from_string(key.to_extended_key_string())
        ctx.ok(back == key and back.derivation() == key.derivation(), 'round trip', coin.name)
        ctx.eq(back.coin().xprv_verbytes, coin.xprv_verbytes, 'version bytes')


def parse_chain(text):
    '''The derivation, or None.'''
    parts = text.split('/')
    if parts[0] != 'm':
        return None
    result = []
    for part in parts[1:]:
        hard = part.endswith("'")
        digits = part[:-1] if hard else part
        if not digits or any(c not in '0123456789' for c in digits) or len(digits) > 4000:
            return None
        v = int(digits)
        if v >= HARD:
            return None
        result.append(v + HARD * hard)
    return result


def judge_chain(ctx, text):
    want = parse_chain(text)
    ctx.case(text)
    if want is None:
        ctx.n('texts refused')
        ctx.raises(ValueError, 'malformed derivation', bip32_decompose_chain_string, text)
    else:
        ctx.eq(bip32_decompose_chain_string(text), want, 'derivation', text)
    ctx.eq(bip32_is_valid_chain_string(text), want is not None, 'is_valid', text)


CHARS = "m/'0123456789hHM -+_.x\n\t\u0661\u00b2\uff11\u2019\0"


@workload(2500, 120000)
def derivations(ctx, rng, i):
    length = rng.choice([0, 1, 2, 3, 4, 5, rng.randrange(255)]) if i else 0
    path = [bip32.rand_index(rng, True) for _ in range(length)]
    text = '/'.join(['m'] + [f"{n - HARD}'" if n >= HARD else str(n) for n in path])
    ctx.n('derivations')
    ctx.case(text)
    for form in (path, tuple(path), iter(path)):
        ctx.eq(bip32_build_chain_string(form), text, 'text', path)
    ctx.eq(bip32_decompose_chain_string(text), path, 'parsed', text)
    ctx.eq(bip32_is_valid_chain_string(text), True, 'valid', text)
    ctx.eq(bip32_validate_derivation(iter(path)), path, 'validated', path)
    # texts near to one
    for _ in range(4):
        t = text[:60]
        for _ in range(rng.randrange(1, 4)):
            p = rng.randrange(len(t) + 1)
            t = rng.choice([t[:p] + rng.choice(CHARS) + t[p:], t[:p] + t[p + 1:],
                            t[:p] + rng.choice(CHARS) + t[p + 1:], t + rng.choice(["/", "'", "\n", "/0", " "]),
                            t + '/' + str(rng.choice([HARD, HARD - 1, HARD + 1, 1 << 32, 10**30])),
                            t + '/' + str(rng.choice([HARD, HARD - 1, (1 << 32) - 1])) + "'"])
        judge_chain(ctx, t)
    bad = list(path) + [0]
    bad[rng.randrange(len(bad))] = rng.choice([-1, 1 << 32, (1 << 32) + 5, -HARD, 1 << 70])
    ctx.n('texts refused')
    ctx.raises(ValueError, 'bad number', bip32_build_chain_string, bad)
    ctx.raises(ValueError, 'bad number', bip32_validate_derivation, iter(bad))
    bad[rng.randrange(len(bad))] = rng.choice(['1', None, 1.0, b'1', "1'"])
    ctx.raises((TypeError, ValueError), 'bad entry', bip32_validate_derivation, bad)


@workload(1, 1, single=True)
def fixed_texts(ctx, rng, i):
    for t in ('', 'm', 'm/', '/', '/1', '1', 'M', 'M/1', 'm//1', 'm/1//2', "m/'", "m/''", "m/1''", "m/'1",
              'm/1h', 'm/1H', 'm/-1', 'm/+1', 'm/1_0', 'm/ 1', 'm/1 ', ' m/1', 'm /1', 'm/1\n', 'm\n',
              'm/0x10', 'm/1.0', 'm/\u0661', 'm/\u00b2', 'mm/1', 'm/m', 'm/2147483647', 'm/2147483648',
              "m/2147483647'", "m/2147483648'", 'm/4294967295', 'm/00', 'm/1\r', "m/1'\n", '\nm/1',
              'm/' + '9' * 5000, 'm\\1', 'm/1,2', 'm/1\u2019', 'm/1/'):
        judge_chain(ctx, t)
    for bad in (None, 5, b'm/1', ['m']):
        ctx.raises(TypeError, 'not text', bip32_decompose_chain_string, bad)
    ctx.raises(Base58Error, 'empty', bip32_key_from_string, '')
    ctx.ok(bx.bip32_key_from_string is bip32_key_from_string, 'export')
