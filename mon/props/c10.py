import datetime
import itertools
import json

from bitcoinx import JSONFlags, Script, Tx
from engine import workload
from lib import edit_tx, COINS, lib_tx, model_tx
from ref import base58 as b58, ec, scripts, wire
from ref.hashing import dsha, hash160

PROP, LEVEL = 'C10', 'exploration'
FILES = ['tx.py', 'script.py', 'address.py', 'consts.py']
RULE = ('random transactions with scripts of every shape, all 64 flag combinations over the run, '
        'all coins. Oracle: every field recomputed from the raw bytes by the independent codec, '
        'renderer and classifier. Distinct by (serialization, flags, coin).')
REQUIRE = {'changed in place': 2000, 'transactions': 1000, 'flag combinations': 64, 'classified pubkeyhash': 50,
           'classified scripthash': 50, 'classified pubkey': 50, 'classified multisig': 20,
           'classified op_return': 50, 'classified unknown': 50, 'coinbase inputs': 50}
ASSUMPTIONS = ['an input\'s "hash" is the hex of the stored bytes, as the library documents by its '
               'tests; a P2SH output may or may not carry an address']


def locktime_text(v):
    if v == 0:
        return 'valid in any block'
    if v < 500_000_000:
        return f'valid in blocks with height greater than {v:,d}'
    when = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=v)
    return f'valid in blocks with MTP greater than {when.strftime("%Y-%m-%d %H:%M:%S")} UTC'


def script_json(ctx, raw, is_input, flags, coin):
    d = {'asm': scripts.asm(raw, is_input), 'hex': raw.hex()}
    if not is_input and flags & 16:
        c = scripts.classify(raw)
        ctx.n(f'classified {c[0]}')
        d['type'] = c[0]
        address = lambda h: b58.encode_check(bytes([coin.P2PKH_verbyte]) + h)    # noqa: E731
        if c[0] == 'pubkeyhash':
            d['address'] = address(c[1])
        elif c[0] == 'pubkey':
            ser = ec.ser(c[1], c[2])
            d['pubkey'] = ser.hex()
            d['address'] = address(hash160(ser))
        elif c[0] == 'scripthash':
            d['?address'] = b58.encode_check(bytes([coin.P2SH_verbyte]) + c[1])
    return d


def in_json(ctx, m, flags, index):
    if m[0] == bytes(32) and m[1] == 0xffffffff:
        ctx.n('coinbase inputs')
        d = {'coinbase': m[2].hex(), 'text': m[2].decode('utf-8', 'replace'), 'sequence': m[3]}
    else:
        d = {'hash': m[0].hex(), 'idx': m[1], 'script': script_json(ctx, m[2], True, flags, None),
             'sequence': m[3]}
    if flags & 1 and index is not None:
        d['nInput'] = index
    return d


def out_json(ctx, m, flags, coin, index):
    d = {'value': m[0], 'script': script_json(ctx, m[1], False, flags, coin)}
    if flags & 2 and index is not None:
        d['nOutput'] = index
    return d


def tx_json(ctx, t, flags, coin):
    raw = wire.tx_bytes(t)
    d = {'version': t[0], 'nInputs': len(t[1]), 'nOutputs': len(t[2]), 'locktime': t[3],
         'vin': [in_json(ctx, m, flags, k) for k, m in enumerate(t[1])],
         'vout': [out_json(ctx, m, flags, coin, k) for k, m in enumerate(t[2])],
         'hash': dsha(raw)[::-1].hex()}
    if flags & 4:
        d['size'] = len(raw)
    if flags & 8:
        d['locktimeMeaning'] = locktime_text(t[3])
    return d


def compare(ctx, got, want, where):
    '''Field by field; a "?key" may be absent.'''
    if isinstance(want, dict):
        ctx.ok(isinstance(got, dict), 'json type', where, type(got))
        optional = {k[1:]: v for k, v in want.items() if k[0] == '?'}
        required = {k: v for k, v in want.items() if k[0] != '?'}
        ctx.eq(sorted(k for k in got if k not in optional or k in required), sorted(required),
               'json fields', where, got)
        for k, v in required.items():
            compare(ctx, got[k], v, f'{where}.{k}')
        for k, v in optional.items():
            if k in got:
                compare(ctx, got[k], v, f'{where}.{k}')
    elif isinstance(want, list):
        ctx.ok(isinstance(got, (list, tuple)) and len(got) == len(want), 'json list', where)
        for n, (g, w) in enumerate(zip(got, want)):
            compare(ctx, g, w, f'{where}[{n}]')
    else:
        ctx.ok(type(got) is type(want) and got == want, 'json value', where, got, 'expected', want)


def check(ctx, t, flags, coin, typed=True):
    ctx.n('transactions')
    ctx.seen('flag combinations', flags)
    ctx.case((wire.tx_bytes(t), flags, coin.name))
    tx = lib_tx(t, flags & 2) if flags & 1 else Tx.from_bytes(wire.tx_bytes(t))
    got = tx.to_json(JSONFlags(flags) if typed else flags, coin)
    compare(ctx, got, tx_json(ctx, t, flags, coin), 'tx')
    compare(ctx, json.loads(json.dumps(got)), tx_json(ctx, t, flags, coin), 'dumped')
    ctx.eq(model_tx(tx), t, 'producing JSON changed the transaction')
    return tx


@workload(10000, 920000)
def transactions(ctx, rng, i):
    t = wire.rand_tx(rng)
    flags = (i + ctx.seed) % 64
    coin = rng.choice(COINS)
    check(ctx, t, flags, coin, rng.random() < .8)
    ctx.sample(tx=wire.tx_bytes(t).hex(), flags=flags)


@workload(3800, 230000)
def output_kinds(ctx, rng, i):
    outs = [(wire.rand_value(rng), scripts.rand_template(rng, .15)) for _ in range(4)]
    ins = [(rng.randbytes(32), 0, scripts.rand_push(rng, scripts.rand_sig(rng)), 1),
           (bytes(32), 0xffffffff, rng.choice([b'', b'\xff\xfe', '\u00e9\u4e2d'.encode(),
                                               rng.randbytes(20)]), 0)]
    t = (1, ins, outs, wire.rand_u32(rng))
    flags = 16 | rng.randrange(64)
    coin = rng.choice(COINS)
    tx = check(ctx, t, flags, coin)
    # the parts on their own, with and without an index
    for index in (None, 0, 7):
        for obj, m in zip(tx.outputs, outs):
            compare(ctx, obj.to_json(JSONFlags(flags), coin, index),
                    out_json(ctx, m, flags, coin, index), 'output')
        for obj, m in zip(tx.inputs, ins):
            compare(ctx, obj.to_json(JSONFlags(flags), index), in_json(ctx, m, flags, index), 'input')
    raw = scripts.rand_script(rng)
    for is_input, f in itertools.product((True, False), (0, 16, 63)):
        compare(ctx, Script(raw).to_json(JSONFlags(f), is_input, coin),
                script_json(ctx, raw, is_input, f, coin), 'script')


@workload(400, 7400)
def locktimes(ctx, rng, i):
    for lock in (0, 1, 499_999_999, 500_000_000, 500_000_001, 2**31 - 1, 2**31, 2**32 - 1,
                 rng.randrange(10**6), rng.randrange(5 * 10**8, 2**32)):
        t = (1, [wire.rand_txin(rng)], [wire.rand_txout(rng)], lock)
        check(ctx, t, 8 | (i & 55), rng.choice(COINS))


@workload(500, 40000)
def edited(ctx, rng, i):
    '''What is described is the transaction as it stands, whatever was changed in place.'''
    t = wire.rand_tx(rng, counts=[1, 2, 3])
    tx = lib_tx(t, False)
    flags, coin = rng.randrange(64), rng.choice(COINS)
    for step in range(6):
        compare(ctx, tx.to_json(JSONFlags(flags), coin), tx_json(ctx, t, flags, coin), 'tx changed in place')
        t, _kind = edit_tx(rng, t, tx)
        if rng.random() < .3:
            flags, coin = rng.randrange(64), rng.choice(COINS)
        ctx.n('changed in place')
        ctx.case((i, step))
    compare(ctx, tx.to_json(JSONFlags(flags), coin), tx_json(ctx, t, flags, coin), 'tx changed in place')
