import hashlib
import hmac
import struct
from base64 import b64encode
from io import BytesIO

import bitcoinx as bx
from bitcoinx import Script, Tx, TxInput, TxOutput
from engine import workload
from props import c44
from ref import aes, base58 as b58, cash, ec, scripts, wire
from ref.hashing import dsha

PROP, LEVEL = 'C48', 'exploration'
FILES = ['packing.py', 'tx.py', 'script.py', 'base58.py', 'address.py', 'cashaddr.py', 'bip32.py', 'mnemonic.py',
         'keys.py', 'signature.py', 'chain.py', 'work.py', 'coin.py']
RULE = ('every function that reads what a stranger wrote is offered valid encodings, those of other kinds, their '
        'mutations (bits, characters of every sort, lengths, splices, checksums made good again) and random data. The '
        'monitor records how each call ends: it returns, or raises an exception of the classes that its interface '
        'declares for such data; anything else - KeyError, IndexError, TypeError, AssertionError, RuntimeError, the '
        'exceptions of a library beneath - is a violation. Valid data must be accepted. Distinct by (function, data).')
REQUIRE = {'calls': 800000, 'accepted': 300000, 'refused': 400000, 'valid accepted': 80000, 'functions': 58,
           'refusals seen': 60, 'headers refused': 3000, 'checksums made good': 4000}

WIRE = (struct.error, OverflowError)
BAD = ValueError
NEVER = ()
B58, SCRIPT, SIG = bx.Base58Error, bx.ScriptError, bx.InvalidSignatureError
KEY, OTHER = bx.PrivateKey(b'\5' * 32), bx.PrivateKey(b'\7' * 32)
PUB = KEY.public_key
COINS = [bx.Bitcoin, bx.BitcoinTestnet, bx.BitcoinScalingTestnet, bx.BitcoinRegtest]
EN, JA = c44.WORDS['english'], c44.WORDS['japanese']
ALL_FLAGS = bx.JSONFlags(~0)


def json_of(data):
    tx = Tx.from_bytes(data)
    for coin in COINS:
        tx.to_json(ALL_FLAGS, coin)


def script_json(data):
    for coin in COINS:
        for flags in (bx.JSONFlags(0), ALL_FLAGS):
            for is_coinbase in (False, True):
                Script(data).to_json(flags, is_coinbase, coin)


def printed(data):
    tx = Tx.from_bytes(data)
    str(tx), repr(tx), tx == tx, tx.is_coinbase(), tx.total_output_value(), tx.hex_hash(), tx.size()


def recovered(data):
    PUB.verify_recoverable_signature(data, b'message')


def header_of(data):
    h = bx.Bitcoin.deserialized_header(data, 1)
    str(h), h.hash, h.hex_str(), h.prev_hash, h.merkle_root, h.version, h.timestamp, h.nonce, h.bits


def words_of(words, text):
    return bx.BIP39Mnemonic.is_valid(text, words)


# What may be raised. ValueError has Base58Error, InvalidSignatureError, DecryptionError and UnicodeError beneath it.
TEXT = {
    'base58_decode': (bx.base58_decode, B58), 'base58_decode_check': (bx.base58_decode_check, B58),
    'is_minikey': (bx.is_minikey, NEVER),
    'PrivateKey.from_minikey': (bx.PrivateKey.from_minikey, BAD),
    'PrivateKey.from_text': (bx.PrivateKey.from_text, BAD), 'PrivateKey.from_WIF': (bx.PrivateKey.from_WIF, BAD),
    'PrivateKey.from_hex': (bx.PrivateKey.from_hex, BAD), 'PublicKey.from_hex': (bx.PublicKey.from_hex, BAD),
    'Address.from_string': (lambda t: [bx.Address.from_string(t, coin) for coin in COINS[:2]], BAD),
    'Address.from_string, main net': (lambda t: bx.Address.from_string(t, bx.Bitcoin), BAD),
    'cashaddr.decode': (bx.cashaddr.decode, BAD),
    'bip32_key_from_string': (bx.bip32_key_from_string, BAD),
    'bip32_decompose_chain_string': (bx.bip32_decompose_chain_string, BAD),
    'bip32_is_valid_chain_string': (bx.bip32_is_valid_chain_string, NEVER),
    'Script.from_asm': (Script.from_asm, SCRIPT), 'Script.from_hex': (Script.from_hex, BAD),
    'Tx.from_hex': (Tx.from_hex, (BAD,) + WIRE),
    'hex_str_to_hash': (bx.hex_str_to_hash, BAD),
    'BIP39Mnemonic.is_valid': (lambda t: words_of(EN, t), bx.BIP39Mnemonic.BadWords),
    'BIP39Mnemonic.is_valid, japanese': (lambda t: words_of(JA, t), bx.BIP39Mnemonic.BadWords),
    'ElectrumMnemonic.is_valid_new': (lambda t: bx.ElectrumMnemonic.is_valid_new(t, '01'), UnicodeError),
    'ElectrumMnemonic.is_valid_old': (bx.ElectrumMnemonic.is_valid_old, NEVER),
    'ElectrumMnemonic.old_to_hex_seed': (bx.ElectrumMnemonic.old_to_hex_seed, BAD),
    'ElectrumMnemonic.hex_seed_to_old': (bx.ElectrumMnemonic.hex_seed_to_old, BAD),
    'decrypt_message': (KEY.decrypt_message, bx.DecryptionError),
    'verify_message of text': (lambda t: PUB.verify_message(t, b'message'), SIG),
    'verify_message_and_address': (c44.verify, SIG),
    'PublicKey.from_signed_message of text': (lambda t: bx.PublicKey.from_signed_message(t, b'message'), SIG),
    'address to verify with': (lambda t: PUB.verify_message_and_address(KEY.sign_message(b''), b'', t), BAD),
}
BYTES = {
    'Tx.from_bytes': (Tx.from_bytes, WIRE), 'Tx.read': (lambda d: Tx.read(BytesIO(d).read), WIRE),
    'TxInput.from_bytes': (TxInput.from_bytes, WIRE), 'TxInput.read': (lambda d: TxInput.read(BytesIO(d).read), WIRE),
    'TxOutput.from_bytes': (TxOutput.from_bytes, WIRE), 'TxOutput.read': (lambda d: TxOutput.read(BytesIO(d).read), WIRE),
    'Tx.to_json': (json_of, WIRE), 'Tx printed': (printed, WIRE),
    'read_varint': (lambda d: bx.read_varint(BytesIO(d).read), WIRE),
    'read_varbytes': (lambda d: bx.read_varbytes(BytesIO(d).read), WIRE),
    'read_list': (lambda d: bx.read_list(BytesIO(d).read, bx.read_varbytes), WIRE),
    'read_list of integers': (lambda d: bx.read_list(BytesIO(d).read, bx.read_le_uint64), WIRE),
    'Script.ops': (lambda d: list(Script(d).ops()), bx.TruncatedScriptError),
    'Script.to_asm': (lambda d: (Script(d).to_asm(False), Script(d).to_asm(True)), NEVER),
    'Script.to_template': (lambda d: Script(d).to_template(), NEVER),
    'classify_output_script': (lambda d: [bx.classify_output_script(Script(d), coin) for coin in COINS], NEVER),
    'Script.to_json': (script_json, NEVER), 'Script printed': (lambda d: (str(Script(d)), repr(Script(d))), NEVER),
    'Script compared': (lambda d: (hash(Script(d)), Script(d) == d, len(Script(d)), Script(d).to_hex()), NEVER),
    'item_to_int': (bx.item_to_int, NEVER),
    'PublicKey.from_bytes': (bx.PublicKey.from_bytes, BAD), 'PrivateKey': (bx.PrivateKey, BAD),
    'Signature': (bx.Signature, SIG),
    'der_signature_to_compact': (bx.der_signature_to_compact, SIG),
    'compact_signature_to_der': (bx.compact_signature_to_der, SIG),
    'verify_der_signature': (lambda d: PUB.verify_der_signature(d, b'message'), SIG),
    'verify_recoverable_signature': (recovered, SIG),
    'verify_message': (lambda d: PUB.verify_message(d, b'message'), SIG),
    'from_signed_message': (lambda d: bx.PublicKey.from_signed_message(d, b'message'), SIG),
    'from_recoverable_signature': (lambda d: bx.PublicKey.from_recoverable_signature(d, b'message'), SIG),
    'decrypt_message of bytes': (KEY.decrypt_message, bx.DecryptionError),
    'header': (header_of, struct.error),
}


def call(ctx, table, name, data, valid=False):
    fn, allowed = table[name]
    ctx.n('calls')
    ctx.seen('functions', name)
    key = data if isinstance(data, bytes) else data.encode('utf-8', 'surrogatepass')
    ctx.case((name, key))
    try:
        fn(data)
    except allowed as e:
        ctx.n('refused')
        ctx.seen('refusals seen', (name, type(e).__name__))
        ctx.ok(not valid, 'valid refused', f'{name} refused {data!r:.200}: {e!r:.200}')
    except Exception as e:
        ctx.fail('undeclared exception', f'{name} raised {type(e).__module__}.{type(e).__name__}({str(e)[:100]!r}) for '
                 f'{data!r:.300}')
    else:
        ctx.n('accepted')
        ctx.n('valid accepted', valid)


ODD = ['', '\0', ' ', '\n', 'é', 'ß', '\u0663', '\u00b2', '\u2460', '\uff11', '\u3000', '\ud800', '\udfff', '\U0001d7ce',
       '\U0001f600', '0', '1', 'O', 'I', 'l', 'Z', 'z', '-', '+', '_', "'", '"', '/', ':', '=', '%s', '{}', 'OP_', 'İ', 'ſ', '\u212a']


def twist(rng, text):
    '''A text that is nearly the same.'''
    kind = rng.randrange(10)
    at = rng.randrange(len(text) + 1)
    if kind == 0:
        return text[:at]
    if kind == 1:
        return text[at:]
    if kind <= 4:
        return text[:at] + rng.choice(ODD) + text[at + 1:]
    if kind == 5:
        return text[:at] + rng.choice(ODD) + text[at:]
    if kind == 6:
        return rng.choice([text.upper(), text.lower(), text.swapcase(), text.title(), text[::-1], ' ' + text, text + '\n'])
    if kind == 7:
        to = rng.randrange(len(text) + 1)
        a, b = min(at, to), max(at, to)
        return text[:a] + text[b:]
    if kind == 8:
        return text[:at] + text[at:at + 5] * rng.choice([2, 3, 20]) + text[at:]
    return ''.join(rng.sample(text, len(text)))


def twist_bytes(rng, raw):
    kind = rng.randrange(9)
    at = rng.randrange(len(raw) + 1)
    if kind == 0:
        return raw[:at]
    if kind == 1:
        return raw[at:]
    if kind <= 4 and raw:
        at = min(at, len(raw) - 1) if kind < 4 else rng.randrange(min(4, len(raw)))
        new = raw[at] ^ (1 << rng.randrange(8)) if rng.random() < 0.5 else rng.choice([0, 1, 0x7f, 0x80, 0xfd, 0xfe, 0xff])
        return raw[:at] + bytes([new]) + raw[at + 1:]
    if kind == 5:
        return raw[:at] + rng.randbytes(rng.choice([1, 2, 40])) + raw[at:]
    if kind == 6:
        return raw[:at] + c44.announce(rng) + raw[at:]
    if kind == 7:
        return raw + rng.choice([b'\0', b'\1', b'\xff', raw])
    return rng.randbytes(len(raw))


def texts(rng):
    '''Valid texts, and the function each is for.'''
    coin = rng.choice(COINS)
    key = bx.PrivateKey(rng.randbytes(31) + b'\1', rng.random() < 0.7, coin)
    pub = key.public_key
    master = bx.BIP32PrivateKey.from_seed(rng.randbytes(rng.choice([16, 32, 64])), rng.choice(COINS[:2]))
    child = master.child(rng.choice([0, 5, 2**31 - 1, 2**31]))
    script = bx.P2PKH_Address(rng.randbytes(20), coin).to_script() << bx.OP_RETURN << rng.randbytes(rng.choice([1, 5, 80]))
    tx = wire.tx_bytes(wire.rand_tx(rng, counts=[0, 1, 2]))
    yield 'PrivateKey.from_WIF', key.to_WIF()
    yield 'PrivateKey.from_text', rng.choice([key.to_WIF(), key.to_hex(), 'S6c56bnXQiBjk9mqSYE7ykVQ7NzrRy'])
    yield 'PrivateKey.from_minikey', rng.choice(['S6c56bnXQiBjk9mqSYE7ykVQ7NzrRy', 'SzavMBLoXU6kDrqtUVmffv'])
    yield 'PrivateKey.from_hex', key.to_hex()
    yield 'PublicKey.from_hex', pub.to_hex(compressed=rng.random() < 0.5)
    yield 'Address.from_string, main net', bx.P2PKH_Address(pub.hash160(), bx.Bitcoin).to_string()
    yield 'Address.from_string, main net', bx.P2SH_Address(pub.hash160(), bx.Bitcoin).to_string()
    yield 'Address.from_string, main net', cash.encode('bitcoincash', rng.choice([0, 1]), rng.randbytes(20))
    yield 'base58_decode_check', b58.encode_check(rng.randbytes(rng.choice([1, 4, 21, 78])))
    yield 'bip32_key_from_string', child.to_extended_key_string()
    yield 'bip32_key_from_string', child.public_key.to_extended_key_string()
    yield 'bip32_decompose_chain_string', rng.choice(['m', "m/0'", "m/44'/0'/0'/1/5", 'm/2147483647', 'm/0/0/0/0/0/0/0/0'])
    yield 'Script.from_asm', script.to_asm(False)
    yield 'Script.from_hex', script.to_hex()
    yield 'Tx.from_hex', tx.hex()
    yield 'hex_str_to_hash', rng.randbytes(32).hex()
    yield 'BIP39Mnemonic.is_valid', bx.BIP39Mnemonic.generate(EN, rng.choice([128, 160, 192, 224, 256]))
    yield 'BIP39Mnemonic.is_valid, japanese', bx.BIP39Mnemonic.generate(JA, 128)
    yield 'ElectrumMnemonic.is_valid_new', ' '.join(rng.choices(EN, k=12))
    yield 'ElectrumMnemonic.hex_seed_to_old', rng.randbytes(rng.choice([16, 32])).hex()
    yield 'ElectrumMnemonic.old_to_hex_seed', bx.ElectrumMnemonic.hex_seed_to_old(rng.randbytes(rng.choice([16, 32])).hex())
    yield 'decrypt_message', b64encode(PUB.encrypt_message(rng.randbytes(rng.choice([0, 15, 16, 40])))).decode()
    signature = KEY.sign_message(b'message')
    for name in ('verify_message of text', 'verify_message_and_address', 'PublicKey.from_signed_message of text'):
        yield name, b64encode(signature).decode()
    yield 'address to verify with', bx.P2PKH_Address(pub.hash160(), coin).to_string()


@workload(2500, 150000)
def encoded_texts(ctx, rng, i):
    for name, text in texts(rng):
        call(ctx, TEXT, name, text, True)
        for _ in range(6):
            call(ctx, TEXT, name, twist(rng, text))
        call(ctx, TEXT, name, twist(rng, twist(rng, text)))
        call(ctx, TEXT, rng.choice(list(TEXT)), rng.choice([text, twist(rng, text)]))
    for n in (22, 30):      # of a minikey
        text = 'S' + ''.join(rng.choices(b58.ALPHABET, k=n - 1))
        for text in (text, text[:5] + rng.choice(ODD) + text[6:]):
            for name in ('is_minikey', 'PrivateKey.from_minikey', 'PrivateKey.from_text'):
                call(ctx, TEXT, name, text)


@workload(2000, 120000)
def random_texts(ctx, rng, i):
    text = c44.rand_text(rng, rng.randrange(16), rng.choice([0, 1, 2, 3, 5, 12, 33, 40, 100, 120]))
    for name in TEXT:
        call(ctx, TEXT, name, text)
        call(ctx, TEXT, name, twist(rng, text))


@workload(4000, 300000)
def payloads(ctx, rng, i):
    '''With checksums that are right, about what is not.'''
    n = rng.choice([0, 1, 3, 4, 20, 21, 22, 32, 33, 34, 35, 45, 77, 78, 79, rng.randrange(100)])
    head = rng.choice([b'\0', b'\5', b'\x6f', b'\xc4', b'\x80', b'\xef', b'\x04\x88\xb2\x1e', b'\x04\x88\xad\xe4', b'\x045\x87\xcf',
                       b'\x045\x83\x94', rng.randbytes(1), b''])
    raw = (head + rng.choice([rng.randbytes(100), bytes(100), b'\xff' * 100, rng.randbytes(41) + b'\0' + bytes(60),
                              rng.randbytes(41) + b'\0' + b'\xff' * 60, rng.randbytes(41) + b'\2' + b'\xff' * 60,
                              ec.N.to_bytes(32, 'big') + b'\1' + bytes(9)]))[:n]
    text = b58.encode_check(raw)
    ctx.n('checksums made good')
    for name in ('base58_decode_check', 'Address.from_string', 'PrivateKey.from_WIF', 'PrivateKey.from_text',
                 'bip32_key_from_string', 'address to verify with'):
        call(ctx, TEXT, name, text)
    prefix = rng.choice(['bitcoincash', 'bchtest', 'bchreg', 'x', 'q:q', 'Bitcoincash', '', 'é', 'b1', '\0', '@' * 90])
    try:
        text = cash.seal(prefix, [rng.choice([0, 0, 1, 31, rng.randrange(32)]) for _ in range(rng.choice([0, 1, 2, 8, 33, 34, 34, 34, 35, 103]))])
    except Exception:
        return
    ctx.n('checksums made good')
    for variant in (text, text.upper(), text.partition(':')[2], twist(rng, text)):
        for name in ('cashaddr.decode', 'Address.from_string', 'address to verify with'):
            call(ctx, TEXT, name, variant)


def forged(rng):
    '''A message encrypted to the key, authentic, but whose contents are not as they should be.'''
    secret = rng.randrange(1, ec.N)
    key = hashlib.sha512(ec.ser(ec.mul(ec.parse(PUB.to_bytes()), secret))).digest()
    plain = rng.choice([rng.randbytes(16), bytes(16), b'\x11' * 16, b'\x10' * 16, rng.randbytes(32), b'\2' * 15 + b'\3', b''])
    body = aes.cbc_encrypt(key[16:32], key[:16], plain)
    body = rng.choice([body, body, body, body[:-1], body + b'a', b''])
    head = b'BIE1' + ec.ser(ec.mul_g(secret)) + body
    return head + hmac.digest(key[32:], head, 'sha256')


@workload(600, 40000)
def authentic(ctx, rng, i):
    '''What only its last step refuses.'''
    message = forged(rng)
    call(ctx, BYTES, 'decrypt_message of bytes', message)
    call(ctx, TEXT, 'decrypt_message', b64encode(message).decode())
    for n in (3, 12, 13, 15, 18, 24):
        for words, names in ((EN, ('BIP39Mnemonic.is_valid', 'ElectrumMnemonic.is_valid_new')), (JA, ('BIP39Mnemonic.is_valid, japanese',)),
                             (c44.OLD, ('ElectrumMnemonic.is_valid_old', 'ElectrumMnemonic.old_to_hex_seed'))):
            chosen = rng.choices(words, k=n)
            if rng.random() < 0.4:
                chosen[rng.randrange(n)] = rng.choice(['x', 'é', '\0', 'like1', rng.choice(EN), chosen[0].upper()])
            for name in names:
                call(ctx, TEXT, name, rng.choice([' ', ' ', '\u3000', '  ']).join(chosen))
    r, s = (rng.choice([0, 1, ec.N - 1, ec.N, ec.N + 1, ec.P - 1, ec.P, 2**256 - 1, rng.getrandbits(256), rng.getrandbits(128)])
            for _ in range(2))
    compact = r.to_bytes(32, 'big') + s.to_bytes(32, 'big')
    der = ec.der(r, s)
    call(ctx, BYTES, 'compact_signature_to_der', compact)
    for name in ('der_signature_to_compact', 'verify_der_signature'):
        call(ctx, BYTES, name, der)
    call(ctx, BYTES, 'Signature', der + b'\x41')
    for recid in (0, 1, 2, 3, 4, 255):
        for name in ('verify_recoverable_signature', 'from_recoverable_signature'):
            call(ctx, BYTES, name, compact + bytes([recid]))
    for head in (26, 27, 30, 31, 34, 35, rng.randrange(256)):
        data = bytes([head]) + compact
        for name in ('verify_message', 'from_signed_message'):
            call(ctx, BYTES, name, data)
        for name in ('verify_message of text', 'verify_message_and_address', 'PublicKey.from_signed_message of text'):
            call(ctx, TEXT, name, b64encode(data).decode())
    x = rng.choice([r, s])
    for head in (2, 3, 4, 5, 6, 7, 0, 255):
        tail = x.to_bytes(32, 'big') * (2 if head in (4, 6, 7) else 1)
        call(ctx, BYTES, 'PublicKey.from_bytes', bytes([head]) + tail)
        call(ctx, TEXT, 'PublicKey.from_hex', (bytes([head]) + tail).hex())
    call(ctx, BYTES, 'PrivateKey', x.to_bytes(32, 'big'))


def encodings(rng):
    t = wire.rand_tx(rng, counts=[0, 1, 2])
    tx = wire.tx_bytes(t)
    for name in ('Tx.from_bytes', 'Tx.read', 'Tx.to_json', 'Tx printed'):
        yield name, tx
    txin, txout = wire.txin_bytes(wire.rand_txin(rng)), wire.txout_bytes(wire.rand_txout(rng))
    yield 'TxInput.from_bytes', txin
    yield 'TxInput.read', txin
    yield 'TxOutput.from_bytes', txout
    yield 'TxOutput.read', txout
    yield 'read_varint', wire.varint(rng.choice([0, 252, 253, 65535, 65536, 2**32, 2**64 - 1]))
    yield 'read_varbytes', wire.varint(5) + b'hello'
    yield 'read_list', wire.varint(3) + b'\1a\0\2bc'
    yield 'read_list of integers', wire.varint(2) + bytes(16)
    yield 'PublicKey.from_bytes', PUB.to_bytes(compressed=rng.random() < 0.5)
    yield 'PrivateKey', KEY.to_bytes()
    message = rng.choice([b'message', b'', rng.randbytes(9)])
    der = KEY.sign(message)
    yield 'Signature', der + bytes([rng.choice([1, 0x41, 0xc3, 0])])
    yield 'Signature', b'\xff'
    yield 'der_signature_to_compact', der
    yield 'compact_signature_to_der', bx.der_signature_to_compact(der)
    yield 'verify_der_signature', der
    recoverable = KEY.sign_recoverable(message)
    yield 'verify_recoverable_signature', recoverable
    yield 'from_recoverable_signature', recoverable
    yield 'verify_message', KEY.sign_message(message)
    yield 'from_signed_message', KEY.sign_message(message)
    yield 'decrypt_message of bytes', PUB.encrypt_message(message)
    yield 'header', rng.randbytes(80)


@workload(2000, 120000)
def encoded_bytes(ctx, rng, i):
    for name, raw in encodings(rng):
        call(ctx, BYTES, name, raw, True)
        for _ in range(6):
            call(ctx, BYTES, name, twist_bytes(rng, raw))
        call(ctx, BYTES, name, twist_bytes(rng, twist_bytes(rng, raw)))
        call(ctx, BYTES, rng.choice(list(BYTES)), rng.choice([raw, twist_bytes(rng, raw)]))


SCRIPT_READERS = ('Script.ops', 'Script.to_asm', 'Script.to_template', 'classify_output_script', 'Script.to_json',
                  'Script printed', 'Script compared', 'item_to_int')


@workload(4000, 300000)
def script_bytes(ctx, rng, i):
    raw = scripts.rand_script(rng) if i % 3 else c44.rand_script(rng, rng.randrange(11), rng.choice([0, 1, 5, 40, 100, 300]))
    for data in (raw, twist_bytes(rng, raw), scripts.mutate(rng, raw)):
        for name in SCRIPT_READERS:
            call(ctx, BYTES, name, data)
        t = wire.tx_bytes((1, [(bytes(32), rng.choice([0, 2**32 - 1]), data, 0)], [(0, data)], 0))
        call(ctx, BYTES, 'Tx.to_json', t, True)
        call(ctx, BYTES, 'Tx printed', t, True)
    if i % 4 == 0:
        data = rng.randbytes(rng.choice([0, 1, 31, 32, 33, 64, 65, 66, 72, 80, 85, 86, 101, 102]))
        for name in BYTES:
            call(ctx, BYTES, name, data)


@workload(1500, 60000)
def headers(ctx, rng, i):
    '''From a peer.'''
    coin = rng.choice(COINS)
    genesis = coin.genesis_header
    collection = bx.Headers.from_file(coin, f'{ctx.tmp}/h{i}', bx.CheckPoint(genesis, 0, 0))
    before = len(list(collection.chains()))
    for _ in range(4):
        raw = rng.randbytes(80)
        kind = rng.randrange(7)
        if kind <= 3:
            bits = rng.choice([0x1d00ffff, 0x207fffff, 0, 2**32 - 1, 0x1d80ffff, 0x02000001, 0x2100ffff, rng.getrandbits(32)])
            raw = raw[:4] + dsha(genesis) + raw[36:72] + bits.to_bytes(4, 'little') + raw[76:]
        elif kind == 4:
            raw = twist_bytes(rng, genesis)
        elif kind == 5:
            raw = raw[:rng.choice([0, 1, 4, 79])]
        ctx.n('calls')
        ctx.case(raw)
        try:
            collection.connect(raw)
        except (bx.MissingHeader, bx.IncorrectBits, bx.InsufficientPoW) as e:
            ctx.n('headers refused')
            ctx.seen('refusals seen', ('connect', type(e).__name__))
            ctx.ok(str(e), 'no message')
        except (struct.error, TypeError, ValueError) as e:
            ctx.n('headers refused')
            ctx.ok(len(raw) != 80, 'undeclared exception', f'connect raised {e!r} for {raw.hex()}')
        except Exception as e:
            ctx.fail('undeclared exception', f'connect raised {e!r} for {raw.hex()}')
        else:
            ctx.n('headers accepted')
        for fn, value in ((bx.bits_to_target, rng.getrandbits(32)), (bx.bits_to_work, rng.choice([0, 1, 0x00800000, 0x01fedcba, 2**32 - 1]))):
            try:
                fn(value)
            except ValueError:
                ctx.n('refused')
            except Exception as e:
                ctx.fail('undeclared exception', f'{fn.__name__} raised {e!r} for {value:#x}')
        for name, value in (('lookup', rng.randbytes(32)), ('lookup', rng.randbytes(31)), ('lookup', b'')):
            try:
                collection.lookup(value)
            except bx.MissingHeader:
                ctx.n('refused')
            except Exception as e:
                ctx.fail('undeclared exception', f'{name} raised {e!r} for {value.hex()}')
    ctx.ok(before <= len(list(collection.chains())), 'chains')
