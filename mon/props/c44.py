import gc
import os
import signal
import struct
import sys
import time
import tracemalloc
from base64 import b64encode
from io import BytesIO

import bitcoinx as bx
from bitcoinx import Script, Tx, TxInput, TxOutput
from engine import REPO_PKG, workload
from ref import base58 as b58, cash, ec, scripts, wire
from ref.hashing import dsha

PROP, LEVEL = 'C44', 'exploration'
FILES = ['packing.py', 'tx.py', 'script.py', 'base58.py', 'address.py', 'cashaddr.py', 'bip32.py', 'mnemonic.py',
         'keys.py', 'signature.py', 'chain.py', 'work.py']
RULE = ('data from strangers, offered to every function that parses such: announced counts, lengths and sizes far '
        'beyond the data, well-formed data of growing size, the longest runs of each kind of element, texts made to '
        'backtrack, and headers files whose reserved area lies. A meter counts the repository\'s lines executed and '
        'the peak memory allocated (tracemalloc) in each call, and a timer of CPU time interrupts it; each is '
        'compared with a fixed budget plus so much for each byte. The CPU time for data of a kind is also compared with '
        'that for 16 times as much, but for base 58. Distinct by (function, data).')
REQUIRE = {'calls metered': 6000, 'accepted': 1500, 'refused': 2500, 'announced beyond the data': 2000,
           'over 10 kB': 150, 'over 40 kB': 4, 'headers files': 60, 'functions': 30, 'growths of time': 900, 'growths to over 300 kB': 10, 'functions timed': 25}
ASSUMPTIONS = ['allocations of libsecp256k1 and of the AES library are not metered']

TOOL = 4
LINES = 4_000, 120         # a call, and each byte
MEMORY = 250_000, 300
CPU_SECONDS = 30, 1e-3     # with the meters on
PLAIN_SECONDS = 30
lines = 0


class TooLong(BaseException):
    pass


def _line(code, _line):
    global lines
    if not code.co_filename.startswith(REPO_PKG):
        return sys.monitoring.DISABLE
    lines += 1


def _expired(_signum, _frame):
    raise TooLong


def install():
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'meter')
        mon.register_callback(TOOL, mon.events.LINE, _line)
        signal.signal(signal.SIGPROF, _expired)


def meter(ctx, name, fn, data, size=None):
    '''Call fn(data), which a stranger chose, and judge its cost.'''
    global lines
    install()
    size = len(data) if size is None else size
    ctx.n('calls metered')
    ctx.seen('functions', name)
    ctx.case((name, data if isinstance(data, (bytes, str)) else repr(data)))
    ctx.n('over 10 kB', size > 10_000)
    ctx.n('over 40 kB', size > 40_000)
    mon = sys.monitoring
    lines = 0
    gc.disable()
    tracemalloc.start()
    limit = CPU_SECONDS[0] + CPU_SECONDS[1] * size
    signal.setitimer(signal.ITIMER_PROF, limit)
    mon.set_events(TOOL, mon.events.LINE)
    base, _ = tracemalloc.get_traced_memory()
    try:
        try:
            result = fn(data)
            del result
            ctx.n('accepted')
        except Exception:
            ctx.n('refused')
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            mon.set_events(TOOL, 0)
            _, peak = tracemalloc.get_traced_memory()
            tracemalloc.stop()
            gc.enable()
    except TooLong:
        ctx.fail('time', f'{name} took over {limit:.0f}s of CPU time for {size:,d} bytes: {repr(data)[:200]}')
    except MemoryError:
        ctx.fail('memory', f'{name} ran out of memory for {size:,d} bytes: {repr(data)[:200]}')
    peak -= base
    ctx.n('lines metered', lines)
    if os.environ.get('C44_TUNE'):
        print('TUNE', name, size, round((lines - 1500) / (size + 1), 1), round((peak - 60_000) / (size + 1), 1),
              lines, peak, flush=True)
    ctx.ok(lines <= LINES[0] + LINES[1] * size, 'steps', name, f'executed {lines:,d} lines for {size:,d} bytes:',
           repr(data)[:200])
    ctx.ok(peak <= MEMORY[0] + MEMORY[1] * size, 'memory', name, f'allocated {peak:,d} bytes for {size:,d}:',
           repr(data)[:200])


SIZES = [0, 1, 10, 100, 1000, 1000, 10_000, 20_000]
HUGE = [253, 65535, 65536, 10**6, 2**24, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**40, 2**62, 2**63 - 1, 2**63, 2**64 - 1]


def announce(rng):
    n = rng.choice(HUGE)
    return rng.choice([wire.varint(n), b'\xff' + n.to_bytes(8, 'little'), b'\xfe' + min(n, 2**32 - 1).to_bytes(4, 'little')])


def asm_of(script):
    script.to_asm(False)
    script.to_asm(True)


TX_READERS = {
    'Tx.from_bytes': Tx.from_bytes, 'Tx.from_hex': lambda d: Tx.from_hex(d.hex()), 'Tx.read': lambda d: Tx.read(BytesIO(d).read),
    'TxInput.from_bytes': TxInput.from_bytes, 'TxOutput.from_bytes': TxOutput.from_bytes,
    'read_varbytes': lambda d: bx.read_varbytes(BytesIO(d).read),
    'read_list': lambda d: bx.read_list(BytesIO(d).read, bx.read_varbytes),
    'read_list of integers': lambda d: bx.read_list(BytesIO(d).read, bx.read_le_uint32),
}


@workload(400, 20000)
def announced(ctx, rng, i):
    '''More is announced than there is.'''
    t = wire.rand_tx(rng, counts=[0, 1, 2])
    tail = rng.choice([b'', bytes(rng.choice(SIZES)), rng.randbytes(rng.choice([1, 100, 5000])), wire.tx_bytes(t)[5:]])
    version = wire.le(t[0], 4)
    txin = wire.txin_bytes(wire.rand_txin(rng))
    many = txin[:36] + b'\0' + txin[-4:]
    heads = [version + announce(rng), version + announce(rng) + many * rng.choice([1, 10, 500]),
             version + b'\1' + txin + announce(rng), version + b'\0' + announce(rng),
             version + b'\1' + txin[:36] + announce(rng),
             version + b'\0\1' + bytes(8) + announce(rng)]
    for head in heads:
        for name in rng.sample(['Tx.from_bytes', 'Tx.from_hex', 'Tx.read'], 1):
            ctx.n('announced beyond the data')
            meter(ctx, name, TX_READERS[name], head + tail)
    for name, head in (('TxInput.from_bytes', txin[:36]), ('TxOutput.from_bytes', bytes(8)), ('read_varbytes', b''),
                       ('read_list', b''), ('read_list of integers', b'')):
        ctx.n('announced beyond the data')
        meter(ctx, name, TX_READERS[name], head + announce(rng) + tail)


def script_readers(coin):
    return {
        'Script.ops': lambda d: list(Script(d).ops()),
        'Script.to_asm': lambda d: asm_of(Script(d)),
        'Script.to_template': lambda d: Script(d).to_template(),
        'classify_output_script': lambda d: bx.classify_output_script(Script(d), coin),
        'Script.to_json': lambda d: Script(d).to_json(bx.JSONFlags.CLASSIFY_OUTPUT_SCRIPT, False, coin),
        'Script ==': lambda d: hash(Script(d)) and Script(d) == d,
    }


def rand_script(rng, kind, size):
    key = ec.ser(ec.mul_g(rng.randrange(1, 1000)), rng.random() < 0.8)
    if kind == 0:
        raw = bytes([rng.choice([76, 77, 78])]) + rng.choice([b'', b'\xff', b'\xff' * 2, b'\xff' * 4, b'\xff' * 3 + b'\x7f'])
        return raw + rng.randbytes(min(size, 1000))
    if kind == 1:
        return bytes([rng.randrange(256)]) * size
    if kind == 2:
        return rng.randbytes(size)
    if kind == 3:     # many keys
        n = size // 35
        return b'\x51' + (bytes([len(key)]) + key) * n + bx.push_int(rng.choice([n, n, 2])) + b'\xae'
    if kind == 4:     # pushed and dropped
        return rng.choice([b'\1a\x75', b'\1a\1b\x6d', b'\0\x75', b'\x61']) * (size // 3) + b'\xac'
    if kind == 5:     # pushed, then dropped
        return b'\1a' * (size // 3) + b'\x75' * (size // 3)
    if kind == 6:
        return b'\0' * (size // 2) + b'\x6a' + b'\0' * (size // 2)
    if kind == 7:     # nearly a template
        return b'\x4c\1a' * (size // 3) + rng.choice([b'\xae', b'\x6a', b'\xac', b'\xaf'])
    if kind == 8:
        raw = b'\x4d' + size.to_bytes(2, 'little') + rng.randbytes(size) if size < 65536 else \
            b'\x4e' + size.to_bytes(4, 'little') + rng.randbytes(size)
        return raw + b'\xac' * rng.randrange(2)
    if kind == 9:
        return rng.choice([b'\xac', b'\0', b'\x51', b'\x50', b'\xff', b'\1a', b'\x6d', b'\x75']) * size
    return scripts.rand_script(rng) * rng.choice([1, 10, 50])


@workload(130, 12000)
def script(ctx, rng, i):
    size = 30_000 if i % 41 == 11 else rng.choice(SIZES[:-1])
    kind = rng.randrange(11)
    raw = rand_script(rng, kind, size)
    ctx.n('announced beyond the data', kind == 0)
    for name, fn in script_readers(rng.choice([bx.Bitcoin, bx.BitcoinTestnet])).items():
        meter(ctx, name, fn, raw)
    few = [1, 3] if size < 5000 else [1]
    t = (1, [(bytes(32), 0, raw, 0)] * rng.choice(few), [(0, raw)] * rng.choice(few), 0)
    raw = wire.tx_bytes(t)
    meter(ctx, 'Tx.from_bytes', Tx.from_bytes, raw)
    meter(ctx, 'Tx.to_json', lambda d: Tx.from_bytes(d).to_json(bx.JSONFlags(~0), bx.Bitcoin), raw)


@workload(28, 1500)
def large(ctx, rng, i):
    '''Large transactions, as large as they say.'''
    n = rng.choice([100, 1000, 3000])
    few = rng.choice([0, 1, 2])
    a, b = rng.choice([(n, few), (few, n), (n, n)])
    raw = wire.tx_bytes((1, [(bytes(32), k, b'', 0) for k in range(a)], [(k, b'') for k in range(b)], 0))
    for name in ('Tx.from_bytes', 'Tx.read', 'Tx.from_hex'):
        meter(ctx, name, TX_READERS[name], raw)
    meter(ctx, 'Tx.to_json', lambda d: Tx.from_bytes(d).to_json(bx.JSONFlags(~0), bx.Bitcoin), raw)
    meter(ctx, 'Tx methods', lambda d: [(t.size(), t.hash(), t.to_bytes(), t.is_final_for_block(1, 1), t.is_coinbase(),
                                         t.total_output_value()) for t in [Tx.from_bytes(d)]], raw)


WORDS = {name: bx.Wordlists.bip39_wordlist(f'{name}.txt') for name in ('english', 'japanese')}
OLD = bx.Wordlists.original_electrum_wordlist()


def verify(text):
    return bx.PublicKey.verify_message_and_address(text, b'message', '1BitcoinEaterAddressDontSendf59kuE')


KEY = bx.PrivateKey(b'\5' * 32)
TEXT_READERS = {
    'base58_decode': bx.base58_decode, 'base58_decode_check': bx.base58_decode_check, 'is_minikey': bx.is_minikey,
    'Address.from_string': lambda t: bx.Address.from_string(t, bx.Bitcoin),
    'PrivateKey.from_text': bx.PrivateKey.from_text, 'PrivateKey.from_WIF': bx.PrivateKey.from_WIF,
    'PrivateKey.from_hex': bx.PrivateKey.from_hex, 'PublicKey.from_hex': bx.PublicKey.from_hex,
    'bip32_key_from_string': bx.bip32_key_from_string,
    'bip32_decompose_chain_string': bx.bip32_decompose_chain_string,
    'bip32_is_valid_chain_string': bx.bip32_is_valid_chain_string,
    'Script.from_asm': Script.from_asm, 'Script.from_hex': Script.from_hex, 'Tx.from_hex': Tx.from_hex,
    'BIP39Mnemonic.is_valid': lambda t: bx.BIP39Mnemonic.is_valid(t, WORDS['english']),
    'BIP39Mnemonic.is_valid, japanese': lambda t: bx.BIP39Mnemonic.is_valid(t, WORDS['japanese']),
    'ElectrumMnemonic.is_valid_new': lambda t: bx.ElectrumMnemonic.is_valid_new(t, '01'),
    'ElectrumMnemonic.is_valid_old': bx.ElectrumMnemonic.is_valid_old,
    'hex_str_to_hash': bx.hex_str_to_hash,
    'verify_message_and_address': verify,
    'address to verify with': lambda t: bx.PublicKey.verify_message_and_address(KEY.sign_message(b''), b'', t),
    'decrypt_message': KEY.decrypt_message,
}


def rand_text(rng, kind, size):
    if kind == 0:
        return rng.choice(['1', 'z', '0', 'q', 'a', 'm', '/', "'", ' ', '-', '\u3000', 'é', '\U0001f600', '=', 'f', '\n']) * size
    if kind == 1:
        return ''.join(rng.choices(b58.ALPHABET, k=size))
    if kind == 2:
        return b58.encode_check(rng.randbytes(min(size, 1500)))
    if kind == 3:
        return '1' * (size // 2) + ''.join(rng.choices(b58.ALPHABET, k=min(size // 2, 1000)))
    if kind == 4:
        return cash.seal(rng.choice(['bitcoincash', 'x']), [rng.randrange(32) for _ in range(size)])
    if kind == 5:
        return rng.choice(['bitcoincash:', '', 'BITCOINCASH:']) + rng.choice(['q', 'Q', 'p']) * size
    if kind == 6:
        return 'm' + rng.choice(['/0', "/2147483647'", '/', "/0''", '/00', "/1'"]) * (size // 2) + rng.choice(['', 'x', '/', '\n'])
    if kind == 7:
        return 'm/' + rng.choice(['0', '9', '1']) * size + rng.choice(['', 'x', "'"])
    if kind == 8:
        return ' '.join(rng.choices(WORDS[rng.choice(['english', 'japanese'])], k=size // 6))
    if kind == 9:
        return rng.choice([' ', '\u3000']).join(rng.choices(OLD, k=size // 5))
    if kind == 10:
        return rng.randbytes(size // 2).hex()
    if kind == 11:
        return ' '.join(rng.choice(['OP_DUP', '1', '-1', '0' * 40, '9' * 10, '9' * 40, '-' * 9, 'OP_', 'aa', '2147483648'])
                        for _ in range(size // 8))
    if kind == 12:
        return rng.choice(['9', '-', '1', 'a', '00', 'OP_']) * size
    if kind == 13:
        return b64encode(rng.choice([b'BIE1', b'']) + rng.randbytes(size // 2)).decode()
    if kind == 14:
        return b64encode(b'BIE1' + ec.ser(ec.mul_g(3)) + rng.randbytes(size // 2)).decode()
    return rng.choice(['e', 'u', 'か']) + rng.choice(['\u0301', '\u0323\u0301', '\u3099']) * (size // 2)


@workload(120, 8000)
def text(ctx, rng, i):
    value = rand_text(rng, rng.randrange(16), rng.choice(SIZES[2:]))
    for name, fn in TEXT_READERS.items():
        meter(ctx, name, fn, value, len(value.encode()))


BYTES_READERS = {
    'base58_encode': lambda d: bx.base58_encode(d[:2000]),
    'PublicKey.from_bytes': bx.PublicKey.from_bytes, 'Signature': bx.Signature,
    'der_signature_to_compact': bx.der_signature_to_compact, 'compact_signature_to_der': bx.compact_signature_to_der,
    'verify_der_signature': lambda d: KEY.public_key.verify_der_signature(d, b'message'),
    'from_signed_message': lambda d: bx.PublicKey.from_signed_message(d, b'message'),
    'message to verify': lambda d: KEY.public_key.verify_message(KEY.sign_message(b''), d),
    'decrypt_message': KEY.decrypt_message,
    'item_to_int': lambda d: bx.item_to_int(d),
    'BIP32 seed': lambda d: bx.BIP32PrivateKey.from_seed(d, bx.Bitcoin),
    'deserialized_header': lambda d: bx.Bitcoin.deserialized_header(d, 0),
}


@workload(200, 10000)
def binary(ctx, rng, i):
    size = rng.choice(SIZES)
    sig = KEY.sign(b'message')
    kind = rng.randrange(8)
    if kind == 0:
        data = b'\x30' + rng.choice([b'\x84\xff\xff\xff\xff', b'\x88' + b'\x7f' * 8, b'\xff', b'\x80']) + sig[2:] + bytes(size)
        ctx.n('announced beyond the data')
    elif kind == 1:
        data = sig[:3] + rng.choice([b'\x84\xff\xff\xff\xff', b'\x88' + b'\xff' * 8, b'\x7f']) + sig[4:] + bytes(size)
        ctx.n('announced beyond the data')
    elif kind == 2:
        data = b'BIE1' + KEY.public_key.to_bytes() + rng.randbytes(size)
    elif kind == 3:
        data = KEY.public_key.encrypt_message(bytes(size))
    elif kind == 4:
        data = bytes([rng.choice([0, 0xff, 0x80])]) * size
    elif kind == 5:
        data = sig + rng.choice([b'', b'A', bytes(size)])
    else:
        data = rng.randbytes(size)
    for name, fn in BYTES_READERS.items():
        meter(ctx, name, fn, data)


# Conversion between bases is quadratic
QUADRATIC = {'base58_decode', 'base58_decode_check', 'base58_encode', 'Address.from_string', 'PrivateKey.from_text',
             'PrivateKey.from_WIF', 'bip32_key_from_string', 'address to verify with'}
TIMES = 16


def cpu(fn, data):
    signal.setitimer(signal.ITIMER_PROF, PLAIN_SECONDS)
    start = time.thread_time()
    try:
        fn(data)
    except Exception:
        pass
    finally:
        end = time.thread_time()
        signal.setitimer(signal.ITIMER_PROF, 0)
    return end - start


def growth_of(ctx, name, fn, make, base=4_000):
    '''Of CPU time, where the data is of the same kind but 16 times as long.'''
    install()
    ctx.n('growths of time')
    ctx.seen('functions timed', name)
    small, large = make(base), make(base * TIMES)
    ctx.n('growths to over 300 kB', len(large) > 300_000)
    ctx.case((name, small))
    try:
        after = cpu(fn, large)
        if after < 0.25:
            ctx.n('growths too fast to compare')
            return
        before = min(cpu(fn, small) for _ in range(5))
        after = min([after] + [cpu(fn, large) for _ in range(2)])
    except TooLong:
        ctx.fail('time', f'{name} took over {PLAIN_SECONDS}s of CPU time for {len(large):,d} bytes: {large[:100]!r}')
    ctx.ok(after < 0.25 or after < 5 * TIMES * before, 'growth', name,
           f'took {before:.5f}s for {len(small):,d} bytes and {after:.5f}s for {len(large):,d}:', repr(small)[:200])


@workload(33, 1500)
def growth_scripts(ctx, rng, i):
    state = rng.getstate()

    def make(size):
        rng.setstate(state)
        return rand_script(rng, i % 11, size)
    for name, fn in script_readers(bx.Bitcoin).items():
        growth_of(ctx, name, fn, make)
    growth_of(ctx, 'Tx.to_json', lambda d: Tx.from_bytes(d).to_json(bx.JSONFlags(~0), bx.Bitcoin),
              lambda size: wire.tx_bytes((1, [(bytes(32), 0, make(size), 0)], [(0, make(size))], 0)))


@workload(33, 1500)
def growth_texts(ctx, rng, i):
    state = rng.getstate()

    def make(size):
        rng.setstate(state)
        return rand_text(rng, i % 15, size)
    for name, fn in TEXT_READERS.items():
        if name not in QUADRATIC:
            growth_of(ctx, name, fn, make)


@workload(8, 400)
def growth_binary(ctx, rng, i):
    key = KEY.public_key.to_bytes()
    for make in (bytes, lambda size: KEY.public_key.encrypt_message(bytes(size)), lambda size: b'BIE1' + key + bytes(size),
                 lambda size: b'\x30\x83' + size.to_bytes(3, 'big') + bytes(size), lambda size: b'\xff' * size):
        for name, fn in BYTES_READERS.items():
            if name not in QUADRATIC:
                growth_of(ctx, name, fn, make)
    for a, b in ((0, 1), (1, 0), (1, 1)):
        for name in ('Tx.from_bytes', 'Tx.from_hex', 'Tx.read'):
            growth_of(ctx, name, TX_READERS[name], lambda size: wire.tx_bytes(
                (1, [(bytes(32), k, b'', 0) for k in range(a * size // 4)], [(k, b'') for k in range(b * size // 4)], 0)))
    growth_of(ctx, 'read_list', TX_READERS['read_list'], lambda size: wire.varint(size) + bytes(size))
    growth_of(ctx, 'read_varbytes', TX_READERS['read_varbytes'], lambda size: wire.varint(size) + bytes(size))


@workload(13, 130)
def growth_larger(ctx, rng, i):
    '''Copying what remains shows only where much remains.'''
    base = 25_000
    if i % 13 == 0:
        tx = lambda a, b: lambda size: wire.tx_bytes(
            (1, [(bytes(32), k, b'', 0) for k in range(a * size // 40)], [(k, b'') for k in range(b * size // 10)], 0))
        growth_of(ctx, 'Tx.from_bytes', TX_READERS['Tx.from_bytes'], tx(1, 0), base)
        growth_of(ctx, 'Tx.from_hex', TX_READERS['Tx.from_hex'], tx(0, 1), base)
        growth_of(ctx, 'read_list', TX_READERS['read_list'], lambda size: wire.varint(size) + bytes(size), base)
        return
    if i % 13 == 1:
        for unit in ('OP_DUP ', '1 ', 'ab ', '-1 '):
            growth_of(ctx, 'Script.from_asm', Script.from_asm, lambda size: (unit * (size // len(unit)))[:-1], base)
        for unit in ('/0', "/1'"):
            growth_of(ctx, 'bip32_decompose_chain_string', bx.bip32_decompose_chain_string,
                      lambda size: 'm' + unit * (size // len(unit)), base)
        return
    state = rng.getstate()

    def make(size):
        rng.setstate(state)
        return rand_script(rng, i % 13 - 2, size)
    readers = script_readers(bx.Bitcoin)
    for name in ('Script.ops', rng.choice(['Script.to_asm', 'Script.to_template', 'classify_output_script', 'Script.to_json'])):
        growth_of(ctx, name, readers[name], make, base)


@workload(240, 20000)
def work(ctx, rng, i):
    '''Numbers in headers.'''
    for bits in (rng.getrandbits(32), rng.choice([0xff7fffff, 0x2100ffff, 0x217fffff, 0x7f123456, 2**32 - 1]), 0x1d00ffff):
        meter(ctx, 'bits_to_target', bx.bits_to_target, bits, 4)
        meter(ctx, 'bits_to_work', bx.bits_to_work, bits, 4)
        raw = rng.randbytes(72) + bits.to_bytes(4, 'little') + rng.randbytes(4)
        meter(ctx, 'header', lambda d: [(h.target(), h.work(), h.difficulty()) for h in
                                        [bx.Bitcoin.deserialized_header(d, 1)]], raw)


@workload(80, 3000)
def headers_file(ctx, rng, i):
    '''A headers file from elsewhere.'''
    height = rng.choice([0, 1, 10, 1000])
    genesis = bx.Bitcoin.genesis_header
    count = rng.choice([0, 1, 2, 2**16, 2**31, 2**32 - 1, height + 1, height + 2])
    reserved = rng.choice([8, 8, 8, 0, 80, 65535])
    raw = struct.pack('<HHI', reserved, rng.choice([0, 0, 0, 1]), count)
    raw += bytes(max(reserved - 8, 0)) + bytes(80 * height) + genesis
    raw += rng.choice([b'', rng.randbytes(80), bytes(8000), rng.randbytes(8000)])
    raw = raw[:rng.choice([len(raw), len(raw), rng.randrange(len(raw))])]
    path = os.path.join(ctx.tmp, f'h{i}')
    with open(path, 'wb') as f:
        f.write(raw)
        if rng.random() < 0.3:
            f.truncate(len(raw) + 10**8)      # holes
    checkpoint = bx.CheckPoint(genesis, height, 0)

    def opened(_path):
        headers = bx.Headers.from_file(bx.Bitcoin, path, checkpoint)
        headers.lookup(dsha(genesis))
        return headers
    ctx.n('headers files')
    ctx.n('announced beyond the data', count > 2000)
    meter(ctx, 'Headers.from_file', opened, raw)
    gc.collect()
    os.unlink(path)
