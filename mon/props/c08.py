from bitcoinx import Ops, Script, ScriptError
from engine import workload
from ref import ec, scripts

PROP, LEVEL = 'C08', 'exploration'
FILES = ['script.py', 'signature.py']
RULE = ('scripts of every shape (incl. truncated ones, non-minimal pushes, unnamed opcodes, '
        'signature-like items with all sighash bytes) rendered with and without sighash decoding '
        'and compared with an independent renderer; scripts of minimal pushes and named opcodes '
        'parsed back; arbitrary words parsed. Distinct by script or word.')
REQUIRE = {'rendered': 4000, 'round trips': 3000, 'words refused': 500, 'sighash texts': 100}


def render(ctx, raw):
    ctx.n('rendered')
    ctx.case(raw)
    script = Script(raw)
    for decode in (False, True):
        want = scripts.asm(raw, decode)
        ctx.eq(script.to_asm(decode), want, 'asm', 'decode sighash', decode, raw.hex())
        if '[' in want and decode and want != '[error]':
            ctx.n('sighash texts')


@workload(24000, 2400000)
def renderings(ctx, rng, i):
    raw = scripts.rand_script(rng)
    render(ctx, raw)
    render(ctx, scripts.mutate(rng, raw))
    ctx.sample(script=raw.hex(), asm=scripts.asm(raw, True))


@workload(8, 8)
def single_ops(ctx, rng, i):
    for v in range(i, 256, 8):
        render(ctx, bytes([v]))
        render(ctx, b'\x01' + bytes([v]))
        render(ctx, b'\x02' + bytes([v, 0x80]))
        sig = ec.der(rng.randrange(ec.N), rng.randrange(ec.N))
        render(ctx, scripts.min_push(sig + bytes([v])))
        render(ctx, scripts.min_push(ec.der(rng.choice([0, 1]), 1) + bytes([v])))


@workload(4800, 400000)
def signature_like(ctx, rng, i):
    for _ in range(3):
        sig = scripts.rand_sig(rng)
        render(ctx, scripts.min_push(sig))
        render(ctx, scripts.min_push(sig + rng.randbytes(rng.randrange(3))) + b'\xac')
        # 0x30-led items of all lengths about the limits
        n = rng.choice([5, 8, 9, 10, 71, 72, 73, 74, 75])
        render(ctx, scripts.min_push(b'\x30' + rng.randbytes(n - 1)))
    # the largest strict DER, negative values and values not below the order
    r = rng.choice([ec.N - 1, ec.N, 2**256 - 1])
    render(ctx, scripts.min_push(ec.der(r, r) + b'\x41'))


def minimal_number(rng):
    n = rng.choice([0, 1, 1, 2, 3, 4])
    v = rng.randrange(-(1 << (8 * n - 1)) + 1, 1 << (8 * n - 1)) if n else 0
    if rng.random() < .3:
        v = rng.choice([0, 1, -1, 16, 17, -16, 127, 128, 255, 256, 32767, 32768, 2**31 - 1,
                        1 - 2**31, 2**23, 2**24, 999999999, 1000000000, -1000000000])
    return scripts.script_num(v)


def digit_item(rng, n):
    '''An item whose hex has only decimal digits.'''
    return bytes.fromhex(''.join(rng.choice('0123456789') for _ in range(2 * n)))


def rand_minimal_script(rng):
    parts = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9])):
        r = rng.random()
        if r < .25:
            parts.append(bytes([rng.choice(scripts.PLAIN)]))
        elif r < .5:
            parts.append(scripts.min_push(minimal_number(rng)))
        else:
            n = rng.choice([5, 5, 6, 7, 10, 20, 20, 32, 33, 65, 75, 76, 80, 255, 256, 300])
            kind = rng.randrange(5)
            if kind == 0:
                item = digit_item(rng, n)
            elif kind == 1:
                item = bytes(n)
            elif kind == 2:
                item = bytes(rng.randrange(1, n)) + digit_item(rng, n)
                item = item[:n]
            elif kind == 3:
                item = bytes([rng.randrange(10)]) + rng.randbytes(n - 1)
            else:
                item = rng.randbytes(n)
            parts.append(scripts.min_push(item))
    return b''.join(parts)


def ambiguous(raw):
    for op in scripts.tokenize(raw)[0]:
        if isinstance(op, bytes) and len(op) == 5:
            text = op.hex()
            if text.isdigit() and 1000000000 <= int(text) <= 2147483647:
                return True
    return False


@workload(32000, 3000000)
def round_trips(ctx, rng, i):
    raw = rand_minimal_script(rng)
    script = Script(raw)
    text = script.to_asm(False)
    ctx.eq(text, scripts.asm(raw, False), 'asm', raw.hex())
    if ambiguous(raw):
        ctx.n('ambiguous 5-byte items')
        return
    ctx.case(raw)
    ctx.n('round trips')
    back = Script.from_asm(text)
    ctx.eq(bytes(back), raw, 'assembled text', text)
    spaced = rng.choice(['  ', '\n', '\t ']).join(text.split())
    ctx.eq(bytes(Script.from_asm(' ' + spaced + '\n')), raw, 'assembled spaced text', spaced)


@workload(20, 40)
def long_digit_items(ctx, rng, i):
    '''Including beyond the interpreter's limit on decimal conversion.'''
    for n in (5, 19, 20, 100, 2149, 2150, 2151, 2200, 5000, 40000):
        for item in (bytes(n), digit_item(rng, n), b'\x10' * n, b'\x99' * n):
            raw = scripts.min_push(item)
            if ambiguous(raw):
                continue
            ctx.n('round trips')
            ctx.case(raw)
            ctx.eq(bytes(Script.from_asm(Script(raw).to_asm(False))), raw, 'long digit item', n)


ALIASES = {'OP_FALSE': 0, 'OP_TRUE': 0x51, 'OP_NOP2': 0xb1, 'OP_NOP3': 0xb2, 'OP_0': 0}


@workload(4, 4)
def names(ctx, rng, i):
    for op, name in list(scripts.NAMES.items()):
        ctx.case(name)
        ctx.eq(bytes(Script.from_asm(name)), bytes([op]), 'opcode word', name)
        ctx.eq(int(Ops[name]), op, 'opcode value', name)
    for name, op in ALIASES.items():
        ctx.eq(bytes(Script.from_asm(name)), bytes([op]), 'opcode alias', name)


BAD = ['OP_UNKNOWN', 'OP_INVALIDOPCODE', 'OP_', 'OP_dup', 'OP_DUP1', 'OP_17', 'DUP', '[error]', 'abc',
       'a', 'xyz', '0x00', '-', '--1', '-a', '1-', '+1', '1.0', '0b1', 'g0', 'ABCDE', '12_3', '\u0663',
       '\u00b2', '-\u00b2', '\u0660' * 10, '\uff11', '1\u0661', '\u2460', '-ff', '-0x1', '1e5', 'aaa',
       '99999999999', '999999999999999999999', '-99999999999', '-2147483648', '\u00e9',
       '30440220[ALL]', "'ab'", 'ab,cd', '9' * 5001, '-' + '9' * 5001, '\ud800', '-99999999999999']


@workload(4800, 400000)
def words(ctx, rng, i):
    good_raw = rand_minimal_script(rng)
    while ambiguous(good_raw):
        good_raw = rand_minimal_script(rng)
    good = scripts.asm(good_raw, False)
    if rng.random() < .5:
        bad = rng.choice(BAD)
    else:
        bad = ''.join(rng.choice('0123456789abcdefABCDEF-') for _ in range(rng.randrange(0, 12)))
        bad += rng.choice('ghxyzGOP_.[+:\u0662\u00b9\u3000\u212a'.replace('\u3000', '#'))
        bad += ''.join(rng.choice('0123456789abcdef') for _ in range(rng.randrange(0, 4)))
        if bad.startswith('OP_') and bad in Ops.__members__:
            return
    ctx.n('words refused')
    ctx.case(bad)
    for text in (bad, f'{good} {bad}', f'{bad} {good}'):
        ctx.raises(ScriptError, 'bad word accepted or wrong error', Script.from_asm, text)
    # numbers
    v = rng.randrange(-2147483647, 2147483648) >> rng.choice([0, 0, 8, 16, 24, 30])
    ctx.eq(bytes(Script.from_asm(str(v))), scripts.min_push(scripts.script_num(v)), 'number word', v)
    # hex in any case
    item = rng.randbytes(rng.randrange(1, 40)) + b'\xab'
    ctx.eq(bytes(Script.from_asm(item.hex().upper())), scripts.min_push(item), 'hex word', item.hex())
