import base64
import copy
import logging
import bitcoinx as bx
from bitcoinx import (BIP32Derivation, BIP32PrivateKey, BIP32PublicKey, P2MultiSig_Output, P2PK_Output, PrivateKey,
                      PublicKey, Script, Tx, TxInput, TxOutput)
from engine import workload
from lib import COINS, lib_tx
from ref import base58 as b58, bip32, ec, wire
from ref.hashing import dsha, sha

PROP, LEVEL = 'C41', 'exploration'
FILES = ['keys.py', 'bip32.py', 'address.py', 'script.py', 'tx.py', 'coin.py', 'chain.py']
RULE = ('private and extended private keys with every kind of secret, printed by str, repr, format, %, ascii, inside '
        'containers and other objects, and in the exceptions and log records of failing operations; each text is '
        'searched for the secret in hex (either case, and reversed), decimal, base64, WIF of every coin, bytes '
        'literal, and for the extended private key and its chain code. Printed public objects are compared with '
        'their exact encodings. Distinct by key or object.')
REQUIRE = {'secret keys': 400, 'texts searched': 8000, 'exceptions searched': 1500, 'printed objects': 2000,
           'headers printed': 300}


def leaks(secret, chain=None, extended=()):
    '''Texts that give a secret away.'''
    out = set()
    for raw in (secret, ) if chain is None else (secret, chain):
        n = int.from_bytes(raw, 'big')
        if n < 1 << 64:
            continue            # short ones are found anywhere
        out |= {raw.hex(), raw[::-1].hex(), f'{n:x}', str(n), base64.b64encode(raw).decode().rstrip('='),
                repr(raw)[2:-1], repr(list(raw))[1:-1]}
    for coin in COINS:
        for tail in (b'', b'\1'):
            out.add(b58.encode_check(bytes([coin.WIF_byte]) + secret + tail))
    return {t.lower() for t in out | set(extended)}


def texts(x):
    yield str(x)
    yield repr(x)
    yield ascii(x)
    yield format(x)
    yield f'{x} {x!r}'
    yield '%s %r' % (x, x)
    yield repr([x, (x, ), {1: x}])


def search(ctx, text, wanted, *info):
    ctx.n('texts searched')
    low = text.lower()
    for w in wanted:
        if w in low:
            ctx.fail('secret shown', f'{w!r} in {text!r} of {info}')


class Records(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.texts = []

    def emit(self, record):
        self.texts.append(self.format(record))


def failing(rng, priv):
    '''Operations that fail on a good private key.'''
    pub = priv.public_key
    minus = (ec.N - priv.to_int()).to_bytes(32, 'big')
    good = rng.randbytes(32)
    cipher = pub.encrypt_message(b'hello')
    yield lambda: priv.add(minus)
    yield lambda: priv.add(b'short')
    yield lambda: priv.add(good.hex())
    yield lambda: priv.multiply(bytes(32))
    yield lambda: priv.multiply(b'\xff' * 32)
    yield lambda: priv.sign(b'short', None)
    yield lambda: priv.sign('text')
    yield lambda: priv.sign_recoverable(b'm', lambda m: m)
    yield lambda: priv.sign_message(b'm', None)
    yield lambda: priv.sign_message_to_base64(5)
    yield lambda: priv.shared_secret(pub, minus, None)
    yield lambda: priv.shared_secret(None, good)
    yield lambda: priv.ecdh_shared_secret(priv)
    yield lambda: priv.decrypt_message(cipher[:-1])
    yield lambda: priv.decrypt_message(cipher[:40] + bytes([cipher[40] ^ 1]) + cipher[41:])
    yield lambda: priv.decrypt_message('%%%')
    yield lambda: priv.to_WIF(coin='x')
    yield lambda: priv.to_address(coin=5)
    yield lambda: priv < priv
    yield lambda: priv + priv
    yield lambda: priv[0]
    yield lambda: len(priv)
    yield lambda: int(priv)
    yield lambda: bytes(priv)
    yield lambda: priv.nothing
    yield lambda: PublicKey.from_bytes(priv)
    yield lambda: PrivateKey(priv)
    yield lambda: Script() << priv
    if isinstance(priv, BIP32PrivateKey):
        yield lambda: priv.child(-1)
        yield lambda: priv.child(1 << 32)
        yield lambda: priv.child('0')
        yield lambda: priv.child_safe(-1)
        yield lambda: pub.child(1 << 31)
    yield lambda: {}[priv]
    yield lambda: [].index(priv)


@workload(240, 12000)
def private_keys(ctx, rng, i):
    k = ec.EDGE_SCALARS[i] if i < len(ec.EDGE_SCALARS) else ec.rand_scalar(rng)
    secret, coin = k.to_bytes(32, 'big'), COINS[rng.randrange(4)]
    keys = [(PrivateKey(secret, rng.random() < .5, coin), leaks(secret))]
    chain = rng.randbytes(32)
    node = bip32.rand_node(rng, True)
    d = BIP32Derivation(chain, node.index, node.depth % 256, node.parent_fingerprint)
    x = BIP32PrivateKey(secret, d, coin)
    keys.append((x, leaks(secret, chain, [x.to_extended_key_string()])))
    if rng.random() < .3:
        c = x.child_safe(rng.randrange(1 << 31)) if x.derivation().depth < 255 else x
        keys.append((c, leaks(c.to_bytes(), c.derivation().chain_code, [c.to_extended_key_string()])))
    for key, wanted in keys:
        ctx.n('secret keys')
        ctx.case(key.to_bytes())
        for fresh in (True, False):
            for t in texts(key):
                search(ctx, t, wanted, type(key).__name__)
            key.public_key, hash(key), key.to_WIF()       # nothing remembered is printed either
        ctx.eq(str(key), sha(key.to_bytes()).hex(), 'text of a private key')
        for other in (copy.copy(key), ):
            for t in texts(other):
                search(ctx, t, wanted, 'copy')
        for t in texts(key.public_key):
            search(ctx, t, {w for w in wanted if w != chain.hex() and 'xp' not in w[:4]}
                   - chain_forms(key), 'public key')
        records = Records()
        root = logging.getLogger()
        level = root.level
        root.addHandler(records)
        root.setLevel(0)
        try:
            for op in failing(rng, key):
                try:
                    op()
                except Exception as e:
                    ctx.n('exceptions searched')
                    while e is not None:
                        for t in (str(e), repr(e), repr(e.args)):
                            search(ctx, t, wanted, 'exception')
                        e = e.__cause__ or e.__context__
        finally:
            root.removeHandler(records)
            root.setLevel(level)
        for t in records.texts:
            search(ctx, t, wanted, 'log')
    ctx.sample(key=repr(x), text=str(x))


def chain_forms(key):
    '''Public keys are printed with their chain code.'''
    if isinstance(key, BIP32PrivateKey):
        c = key.derivation().chain_code
        return leaks(bytes(32), c) - leaks(bytes(32))
    return set()


@workload(300, 12000)
def public_objects(ctx, rng, i):
    coin = COINS[rng.randrange(4)]
    k = ec.rand_scalar(rng)
    compressed = rng.random() < .5
    pub = PrivateKey(k.to_bytes(32, 'big'), compressed, coin).public_key
    raw = ec.ser(ec.mul_g(k), compressed)
    ctx.n('printed objects', 7)
    ctx.case(raw)
    ctx.eq(str(pub), raw.hex(), 'text of a public key')
    ctx.eq(f'{pub}', raw.hex(), 'text of a public key')
    node = bip32.rand_node(rng, False)
    node.depth %= 256
    x = bx.bip32_key_from_string(node.text(coin))
    ctx.eq(str(x), node.text(coin), 'text of an extended public key')
    ctx.eq(repr(x), f'BIP32PublicKey("{node.text(coin)}")', 'repr of an extended public key')
    h = rng.randbytes(20)
    for cls, byte in ((bx.P2PKH_Address, coin.P2PKH_verbyte), (bx.P2SH_Address, coin.P2SH_verbyte)):
        ctx.eq(str(cls(h, coin)), b58.encode_check(bytes([byte]) + h), 'text of an address')
    s = wire.rand_script_bytes(rng)
    ctx.eq(str(Script(s)), s.hex(), 'text of a script')
    d = x.derivation()
    ctx.eq(eval(repr(d), {'BIP32Derivation': BIP32Derivation}), d, 'repr of a derivation')
    t = wire.rand_tx(rng)
    tx = lib_tx(t)
    before = tx.to_bytes()
    for x, m in list(zip(tx.inputs, t[1]))[:3]:
        ctx.n('printed objects')
        ctx.eq(repr(x), f'TxInput(prev_hash="{m[0][::-1].hex()}", prev_idx={m[1]}, script_sig="{m[2].hex()}", '
               f'sequence={m[3]})', 'repr of an input')
    for x, m in list(zip(tx.outputs, t[2]))[:3]:
        ctx.n('printed objects')
        ctx.eq(repr(x), f'TxOutput(value={m[0]}, script_pubkey="{m[1].hex()}")', 'repr of an output')
    text = repr(tx)
    for x in [*tx.inputs, *tx.outputs]:
        ctx.ok(repr(x) in text, 'repr of a transaction', text, repr(x))
    ctx.ok(str(t[0]) in text and str(t[3]) in text, 'repr of a transaction', text)
    ctx.eq(tx.to_bytes(), before, 'printing changes the transaction')


@workload(320, 10000)
def headers(ctx, rng, i):
    coin = COINS[rng.randrange(4)]
    raw = rng.randbytes(80)
    height = rng.choice([0, 1, -1, rng.randrange(10**7)])
    h = coin.deserialized_header(raw, height)
    text = str(h)
    ctx.n('headers printed')
    ctx.case(raw)
    for part in (raw[4:36][::-1].hex(), raw[36:68][::-1].hex(), dsha(raw)[::-1].hex(),
                 f'timestamp={int.from_bytes(raw[68:72], "little")}', f'nonce={int.from_bytes(raw[76:], "little")}',
                 f'height={height}'):
        ctx.ok(part in text, 'text of a header', text, part)
    for e in (bx.IncorrectBits(h, 0x1d00ffff), ):
        ctx.ok(text in str(e), 'text of an error', str(e))
    bits = rng.choice([0x1d00ffff, 0x207fffff, 0x1b0404cb])
    raw = raw[:72] + bits.to_bytes(4, 'little') + raw[76:]
    h = coin.deserialized_header(raw, height)
    ctx.ok(str(h) in str(bx.InsufficientPoW(h)), 'text of an error')
