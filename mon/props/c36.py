import bitcoinx as bx
from bitcoinx import (
    BIP32PrivateKey, P2MultiSig_Output, P2PK_Output, P2PKH_Address, P2SH_Address, OP_RETURN_Output, PrivateKey,
    PublicKey, Script, Signature, Unknown_Output,
)
from engine import workload
from lib import COINS, lib_tx, lib_txin, lib_txout
from ref import bip32, ec, scripts, wire

PROP, LEVEL = 'C36', 'exploration'
FILES = ['keys.py', 'address.py', 'script.py', 'signature.py', 'bip32.py', 'tx.py']
RULE = ('pools of about 70 values, several of each identity made in different ways (constructed, parsed, derived, '
        'classified, other coin or compression) beside near misses (one bit apart, negated points, swapped keys, '
        'other threshold or kind, a prefix) and values of unrelated types; ==, != and hash() over all ordered '
        'pairs, and use in sets and as keys of dictionaries. Oracle: the identity each value was made from. '
        'Distinct by pair of identities and ways of making.')
REQUIRE = {'pairs': 500000, 'equal pairs': 40000, 'equal pairs made differently': 20000, 'unrelated pairs': 50000,
           'near misses': 60000, 'hashes compared': 30000, 'sets': 100, 'ways of making': 40,
           'transactions': 500}
P = ec.P
N = ec.N


class Bytes:
    '''Something with a representation as bytes.'''

    def __init__(self, data):
        self.data = data

    def __bytes__(self):
        return self.data

    __hash__ = None


class Alien:
    pass


def flip(data, rng):
    k = rng.randrange(len(data))
    return data[:k] + bytes([data[k] ^ 1 << rng.randrange(8)]) + data[k + 1:]


def keys(rng, secrets):
    '''(identity, way, value)'''
    for s in secrets:
        raw = s.to_bytes(32, 'big')
        coin = rng.choice(COINS)
        node = bip32.rand_node(rng, True)
        privs = {
            'secret': PrivateKey(raw), 'uncompressed': PrivateKey(raw, False, coin), 'integer': PrivateKey.from_int(s),
            'hex': PrivateKey.from_hex(raw.hex()), 'WIF': PrivateKey.from_WIF(PrivateKey(raw, False, coin).to_WIF()),
            'sum': PrivateKey(((s - 5) % N or 1).to_bytes(32, 'big')).add((5).to_bytes(32, 'big'))
            if s != 5 else PrivateKey(raw),
        }
        master = BIP32PrivateKey.from_seed(rng.randbytes(32), coin)
        if rng.random() < 0.5:
            tweak = (s - master.to_int()) % N
            if tweak:
                privs['extended'] = master.add(tweak.to_bytes(32, 'big'))
        for way, k in privs.items():
            yield ('priv', s), way, k
        pub = privs['secret'].public_key
        pubs = {'from private': pub, 'uncompressed': privs['uncompressed'].public_key, 'complement': pub.complement(),
                'bytes': PublicKey.from_bytes(pub.to_bytes()),
                'long bytes': PublicKey.from_bytes(pub.to_bytes(compressed=False)),
                'hex': PublicKey.from_hex(pub.to_hex()), 'point': PublicKey.from_point(*pub.to_point()),
                'combined': PublicKey.combine_keys([pub])}
        for way, k in rng.sample(list(pubs.items()), 5):
            yield ('pub', pub.to_bytes(compressed=True)), way, k
        del node


def extended(rng):
    '''The same extended key in several ways.'''
    coin = rng.choice(COINS)
    master = BIP32PrivateKey.from_seed(rng.randbytes(32), coin)
    n = rng.randrange(1 << 31)
    child = master.child(n)
    for way, k in {'child': child, 'again': master.child(n),
                   'text': bx.bip32_key_from_string(child.to_extended_key_string()),
                   'plain': PrivateKey(child.to_bytes())}.items():
        yield ('priv', child.to_int()), 'extended ' + way, k
    pub = child.public_key
    for way, k in {'of private': pub, 'child': master.public_key.child(n),
                   'text': bx.bip32_key_from_string(pub.to_extended_key_string()),
                   'plain': PublicKey.from_bytes(pub.to_bytes())}.items():
        yield ('pub', pub.to_bytes(compressed=True)), 'extended ' + way, k
    yield ('priv', master.to_int()), 'extended seed', master


def addresses(rng, hashes):
    for h in hashes:
        for coin in rng.sample(COINS, 2):
            for kind, cls in (('p2pkh', P2PKH_Address), ('p2sh', P2SH_Address)):
                a = cls(h, coin)
                yield (kind, h), 'made', a
                yield (kind, h), 'classified', bx.classify_output_script(a.to_script(), coin)
        yield ('p2pkh', h), 'parsed', bx.Address.from_string(P2PKH_Address(h, bx.Bitcoin).to_string(), bx.Bitcoin)
        yield ('p2sh', h), 'parsed', bx.Address.from_string(P2SH_Address(h, bx.Bitcoin).to_string(), bx.Bitcoin)


def outputs(rng, pubs):
    points = [p.to_bytes(compressed=True) for p in pubs]
    for p, point in zip(pubs[:3], points):
        yield ('p2pk', point), 'made', P2PK_Output(p, rng.choice(COINS))
        yield ('p2pk', point), 'other form', P2PK_Output(p.complement(), rng.choice(COINS))
        yield ('p2pk', point), 'hex', P2PK_Output(p.to_hex(), rng.choice(COINS))
        yield ('p2pk', point), 'classified', bx.classify_output_script(p.P2PK_script(), bx.Bitcoin)
    a, b, c = rng.sample(range(len(pubs)), 3)
    for order in ((a, b), (b, a), (a, b, c), (a,), (a, a), (b, a, c)):
        for threshold in range(1, len(order) + 1):
            ident = ('multisig', tuple(points[k] for k in order), threshold)
            m = P2MultiSig_Output([pubs[k] for k in order], threshold)
            yield ident, 'made', m
            if rng.random() < 0.4:
                yield ident, 'bytes', P2MultiSig_Output([points[k] for k in order], threshold)
            if rng.random() < 0.4:
                yield ident, 'classified', bx.classify_output_script(m.to_script(), bx.Bitcoin)
    yield ('op_return',), 'made', OP_RETURN_Output()
    yield ('op_return',), 'classified', bx.classify_output_script(Script(b'\x6a\x01a'), bx.Bitcoin)
    unknown = Unknown_Output()
    yield ('unknown', id(unknown)), 'made', unknown


def buffers(rng, sigs):
    datas = []
    for _ in range(3):
        data = scripts.rand_script(rng) or b'\x51'
        datas += [data, flip(data, rng)]
    datas += [datas[0][:-1], datas[0] + b'\0', b'', rng.randbytes(32), b'\xff']
    for data in datas:
        yield ('buffer', data), 'Script', Script(data)
        yield ('buffer', data), 'hex Script', Script.from_hex(data.hex())
        way, value = rng.choice([('bytes', data), ('bytearray', bytearray(data)), ('memoryview', memoryview(data)),
                                 ('__bytes__', Bytes(data)), ('Script of buffer', Script(bytearray(data)))])
        yield ('buffer', data), way, value
    # the longest encodings there are, and what begins like them
    big = rng.choice([0, 1, 2]) << 253 | 1 << 255 | rng.getrandbits(250), 1 << 255 | rng.getrandbits(250)
    long = bytes([0x30, 70, 2, 33, 0]) + big[0].to_bytes(32, 'big') + bytes([2, 33, 0]) + big[1].to_bytes(32, 'big') + b'\x41'
    for raw in (sigs[0], long):
        for other in (raw + b'\x41', raw + raw, raw[:-1]):
            yield ('buffer', other), 'bytes', rng.choice([bytes, bytearray, memoryview])(other)
    for raw in sigs + [long]:
        yield ('buffer', raw), 'Signature', Signature(raw)
        yield ('buffer', raw), 'hex Signature', Signature.from_hex(raw.hex())
        yield ('buffer', raw), 'Script', Script(raw)
        yield ('buffer', raw), 'bytes', raw
        yield ('buffer', raw), 'bytearray', bytearray(raw)
    yield ('buffer', b'\xff'), 'missing Signature', Signature.MISSING


def aliens(rng, pubs):
    values = [None, True, 0, 1.5, 'text', '', (), (1,), [], {}, set(), object(), Alien(), Alien, NotImplemented,
              pubs[0].to_hex(), range(3), rng.getrandbits(256), lambda: 0]
    for n, v in enumerate(values):
        yield ('alien', n), type(v).__name__, v


def hashed(value):
    try:
        return hash(value)
    except TypeError:
        return None


HASHABLE = (PrivateKey, PublicKey, bx.Address, P2PK_Output, P2MultiSig_Output, OP_RETURN_Output, Script, Signature,
            Unknown_Output)


@workload(960, 86000)
def pools(ctx, rng, i):
    secrets = [ec.rand_scalar(rng) for _ in range(2)]
    secrets += [N - secrets[0], secrets[1] ^ 1 << rng.randrange(200) or 1]
    secrets = [s for s in dict.fromkeys(secrets) if 0 < s < N]
    pubs = [PrivateKey.from_int(s).public_key for s in secrets] + \
        [PrivateKey.from_int(s, ).public_key.complement() for s in secrets[:2]]
    hashes = [rng.randbytes(20)]
    hashes += [flip(hashes[0], rng), pubs[0].hash160()]
    sigs = [PrivateKey.from_int(secrets[0]).sign(b'm') + b'\x41']
    sigs += [sigs[0][:-1] + b'\x01', PrivateKey.from_int(secrets[1]).sign(b'm') + b'\x41']
    pool = list(keys(rng, secrets)) + list(extended(rng)) + list(addresses(rng, hashes)) + \
        list(outputs(rng, pubs)) + list(buffers(rng, sigs))
    pool = rng.sample(pool, min(len(pool), 85)) + list(aliens(rng, pubs))
    hashes = [hashed(v) for _i, _w, v in pool]
    for (ident, way, v), h in zip(pool, hashes):
        ctx.seen('ways of making', (ident[0], way))
        if isinstance(v, HASHABLE):
            ctx.ok(h is not None, 'value has no hash', type(v).__name__)
            ctx.ok(hash(v) == h, 'hash changed', type(v).__name__)
        ctx.ok(v == v and not v != v, 'not equal to itself', type(v).__name__)
    count = near = equal = differently = unrelated = compared = 0
    for k, (a, away, x) in enumerate(pool):
        for m, (b, bway, y) in enumerate(pool):
            if a[0] == 'alien' == b[0]:
                continue
            if not (isinstance(x, HASHABLE) or isinstance(y, HASHABLE)):
                continue      # of Python's own types
            want = a == b
            try:
                same, different = x == y, x != y
            except Exception as e:
                ctx.fail('comparison raised', f'{type(x).__name__} ({away}) with {type(y).__name__} ({bway}): {e!r}')
            if same is not want or different is want:
                ctx.fail('equality', f'{type(x).__name__} ({away}) {a} == {type(y).__name__} ({bway}) {b} gives '
                         f'{same!r}, != gives {different!r}')
            count += 1
            if want:
                equal += 1
                differently += away != bway
                if hashes[k] is not None and hashes[m] is not None:
                    compared += 1
                    if hashes[k] != hashes[m]:
                        ctx.fail('equal values with different hashes', f'{type(x).__name__} ({away}) and '
                                 f'{type(y).__name__} ({bway}) of {a}')
            elif a[0] == b[0]:
                near += 1
            elif 'alien' in (a[0], b[0]):
                unrelated += 1
        ctx.case((a, away))
    for name, k in (('pairs', count), ('equal pairs', equal), ('equal pairs made differently', differently),
                    ('near misses', near), ('unrelated pairs', unrelated), ('hashes compared', compared),
                    ('oracle checks', 2 * count + compared)):
        ctx.n(name, k)
    # As elements and keys
    good = [(a, v) for (a, _w, v), h in zip(pool, hashes) if h is not None and a[0] != 'alien'
            and not isinstance(v, memoryview)]
    rng.shuffle(good)
    ctx.eq(len({v for _a, v in good}), len({a for a, _v in good}), 'size of a set')
    table = {}
    for a, v in good:
        table[v] = a
    for a, v in good:
        ctx.ok(v in table and table[v] == a, 'lookup in a dictionary', type(v).__name__)
    ctx.n('sets')
    ctx.sample(pool=len(pool), pairs=count, identities=len({a for a, _w, _v in pool}))


@workload(400, 29000)
def transactions(ctx, rng, i):
    '''Transactions, inputs and outputs are equal if all their fields are.'''
    t = wire.rand_tx(rng)
    while not t[1] or not t[2]:
        t = wire.rand_tx(rng)
    variants = [t]
    version, ins, outs, locktime = t
    k, m = rng.randrange(len(ins)), rng.randrange(len(outs))
    ph, pi, ss, seq = ins[k]
    for new in ((flip(ph, rng), pi, ss, seq), (ph, pi ^ 1, ss, seq), (ph, pi, ss + b'\0', seq),
                (ph, pi, ss, seq ^ 1)):
        variants.append((version, ins[:k] + [new] + ins[k + 1:], outs, locktime))
    value, spk = outs[m]
    for new in ((value ^ 1, spk), (value, spk + b'\0')):
        variants.append((version, ins, outs[:m] + [new] + outs[m + 1:], locktime))
    variants += [(version ^ 1, ins, outs, locktime), (version, ins, outs, locktime ^ 1), (version, ins[:-1], outs, locktime),
                 (version, ins, outs + outs[:1], locktime)]
    libs = [lib_tx(v) for v in variants]
    again = [bx.Tx.from_bytes(wire.tx_bytes(v)) for v in variants]
    for a, x in enumerate(libs):
        for b, y in enumerate(again):
            ctx.ok((x == y) is (a == b) and (x != y) is (a != b), 'transaction equality', variants[a], variants[b])
            ctx.n('transactions')
    ctx.case(wire.tx_bytes(t))
    x, y = lib_txin(ins[k]), lib_txout(outs[m])
    for n in range(1, 5):
        ctx.ok(x != libs[n].inputs[k] and x == again[0].inputs[k], 'input equality', ins[k])
    for n in (5, 6):
        ctx.ok(y != libs[n].outputs[m] and y == again[0].outputs[m], 'output equality', outs[m])
    for other in (None, 1, b'', 'x', y, wire.tx_bytes(t)):
        ctx.ok((libs[0] == other) is False and (x == other) is False, 'equal to an unrelated value', other)
