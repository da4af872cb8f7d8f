'''An independent script tokenizer, push interpreter, assembler and classifier, and random
scripts.'''
from . import ec

NAMES = {}
_text = '''0 OP_0 76 OP_PUSHDATA1 77 OP_PUSHDATA2 78 OP_PUSHDATA4 79 OP_1NEGATE 80 OP_RESERVED
97 OP_NOP 98 OP_VER 99 OP_IF 100 OP_NOTIF 101 OP_VERIF 102 OP_VERNOTIF 103 OP_ELSE 104 OP_ENDIF
105 OP_VERIFY 106 OP_RETURN 107 OP_TOALTSTACK 108 OP_FROMALTSTACK 109 OP_2DROP 110 OP_2DUP
111 OP_3DUP 112 OP_2OVER 113 OP_2ROT 114 OP_2SWAP 115 OP_IFDUP 116 OP_DEPTH 117 OP_DROP 118 OP_DUP
119 OP_NIP 120 OP_OVER 121 OP_PICK 122 OP_ROLL 123 OP_ROT 124 OP_SWAP 125 OP_TUCK 126 OP_CAT
127 OP_SPLIT 128 OP_NUM2BIN 129 OP_BIN2NUM 130 OP_SIZE 131 OP_INVERT 132 OP_AND 133 OP_OR
134 OP_XOR 135 OP_EQUAL 136 OP_EQUALVERIFY 137 OP_RESERVED1 138 OP_RESERVED2 139 OP_1ADD
140 OP_1SUB 141 OP_2MUL 142 OP_2DIV 143 OP_NEGATE 144 OP_ABS 145 OP_NOT 146 OP_0NOTEQUAL
147 OP_ADD 148 OP_SUB 149 OP_MUL 150 OP_DIV 151 OP_MOD 152 OP_LSHIFT 153 OP_RSHIFT
154 OP_BOOLAND 155 OP_BOOLOR 156 OP_NUMEQUAL 157 OP_NUMEQUALVERIFY 158 OP_NUMNOTEQUAL
159 OP_LESSTHAN 160 OP_GREATERTHAN 161 OP_LESSTHANOREQUAL 162 OP_GREATERTHANOREQUAL 163 OP_MIN
164 OP_MAX 165 OP_WITHIN 166 OP_RIPEMD160 167 OP_SHA1 168 OP_SHA256 169 OP_HASH160
170 OP_HASH256 171 OP_CODESEPARATOR 172 OP_CHECKSIG 173 OP_CHECKSIGVERIFY 174 OP_CHECKMULTISIG
175 OP_CHECKMULTISIGVERIFY 176 OP_NOP1 177 OP_CHECKLOCKTIMEVERIFY 178 OP_CHECKSEQUENCEVERIFY
179 OP_NOP4 180 OP_NOP5 181 OP_NOP6 182 OP_NOP7 183 OP_NOP8 184 OP_NOP9 185 OP_NOP10'''.split()
NAMES.update((int(a), b) for a, b in zip(_text[::2], _text[1::2]))
NAMES.update((80 + n, f'OP_{n}') for n in range(1, 17))
# opcodes that stand alone, i.e. that push nothing
PLAIN = [op for op in NAMES if op > 96 or op == 80]


def tokenize(script):
    '''(list of bytes-or-int, truncated).'''
    out, n = [], 0
    while n < len(script):
        op = script[n]
        n += 1
        if op <= 78:
            if op < 76:
                size = op
            else:
                width = {76: 1, 77: 2, 78: 4}[op]
                if n + width > len(script):
                    return out, True
                size = int.from_bytes(script[n: n + width], 'little')
                n += width
            if n + size > len(script):
                return out, True
            out.append(script[n: n + size])
            n += size
        elif op == 79:
            out.append(b'\x81')
        elif 81 <= op <= 96:
            out.append(bytes([op - 80]))
        else:
            out.append(op)
    return out, False


def min_push(item):
    if item == b'':
        return b'\0'
    if len(item) == 1 and 1 <= item[0] <= 16:
        return bytes([80 + item[0]])
    if item == b'\x81':
        return b'\x4f'
    n = len(item)
    if n <= 75:
        return bytes([n]) + item
    if n <= 255:
        return b'\x4c' + bytes([n]) + item
    if n <= 65535:
        return b'\x4d' + n.to_bytes(2, 'little') + item
    return b'\x4e' + n.to_bytes(4, 'little') + item


def script_num(v):
    '''Minimal signed-magnitude little-endian.'''
    if v == 0:
        return b''
    neg, v = v < 0, abs(v)
    size = v.bit_length() // 8 + 1      # room for the sign bit
    b = bytearray(v.to_bytes(size, 'little'))
    if neg:
        b[-1] |= 0x80
    return bytes(b)


def num_of(item):
    if not item:
        return 0
    v = int.from_bytes(item, 'little')
    top = 1 << (8 * len(item) - 1)
    return -(v - top) if v & top else v


def execute_pushes(script):
    '''Run pushes, OP_DROP and OP_2DROP; the stack.'''
    ops, truncated = tokenize(script)
    assert not truncated
    stack = []
    for op in ops:
        if isinstance(op, bytes):
            stack.append(op)
        elif op == 117:
            stack.pop()
        elif op == 109:
            stack.pop()
            stack.pop()
        else:
            raise AssertionError(f'unexpected opcode {op}')
    return stack


SIGHASH_BASE = {1: 'ALL', 2: 'NONE', 3: 'SINGLE'}


def sighash_text(v):
    parts = []
    if v & 3:
        parts.append(SIGHASH_BASE[v & 3])
    if v & 0x80:
        parts.append('ANYONE_CAN_PAY')
    if v & 0x40:
        parts.append('FORKID')
    rest = v & ~0xc3
    if rest:
        parts.append(f'0x{rest:02x}')
    return '|'.join(parts)


def asm(script, sighash):
    ops, truncated = tokenize(script)
    if truncated:
        return '[error]'
    words = []
    for op in ops:
        if isinstance(op, int):
            words.append(NAMES.get(op, 'OP_INVALIDOPCODE' if op == 255 else 'OP_UNKNOWN'))
        elif len(op) <= 4:
            words.append(str(num_of(op)))
        elif sighash and op[0] == 0x30 and 9 <= len(op) <= 73 and ec.der_parse(op[:-1]):
            words.append(op[:-1].hex() + '[' + sighash_text(op[-1]) + ']')
        else:
            words.append(op.hex())
    return ' '.join(words)


def strip(script):
    '''Operations left once no-ops and directly dropped pushes are removed; None if truncated.'''
    ops, truncated = tokenize(script)
    out = []
    for op in ops:
        if op == 97:
            continue
        if op == 117 and out and isinstance(out[-1], bytes):
            out.pop()
            continue
        if op == 109 and len(out) > 1 and isinstance(out[-1], bytes) and isinstance(out[-2], bytes):
            del out[-2:]
            continue
        out.append(op)
    return None if truncated else out, out


def classify(script):
    '''('pubkeyhash', h) ('scripthash', h) ('pubkey', point, compressed)
    ('multisig', m, [(point, compressed)]) ('op_return',) or ('unknown',)'''
    ops, partial = strip(script)
    # an OP_RETURN script is pushes, OP_RETURN, then anything at all, complete or not
    for op in partial:
        if op == 106:
            return ('op_return', )
        if not isinstance(op, bytes):
            break
    if ops is None:
        return ('unknown', )
    if len(ops) == 5 and ops[:2] == [118, 169] and isinstance(ops[2], bytes) \
            and ops[3:] == [136, 172] and len(ops[2]) == 20:
        return ('pubkeyhash', ops[2])
    if len(ops) == 3 and ops[0] == 169 and isinstance(ops[1], bytes) and ops[2] == 135 \
            and len(ops[1]) == 20:
        return ('scripthash', ops[1])
    if len(ops) == 2 and isinstance(ops[0], bytes) and ops[1] == 172:
        pt = ec.parse(ops[0])
        if pt:
            return ('pubkey', pt, len(ops[0]) == 33)
    if len(ops) >= 4 and ops[-1] == 174 and all(isinstance(op, bytes) for op in ops[:-1]):
        m, keys, n = num_of(ops[0]), ops[1:-2], num_of(ops[-2])
        if n == len(keys) and 1 <= m <= n:
            pts = [ec.parse(k) for k in keys]
            if all(pts):
                return ('multisig', m, [(p, len(k) == 33) for p, k in zip(pts, keys)])
    return ('unknown', )


_keys = []


def some_keys():
    '''A fixed pool of points.'''
    if not _keys:
        for k in (1, 2, 3, 5, ec.N - 1, 0xdeadbeef, 2**200 + 7, 12345678901234567890):
            _keys.append(ec.mul_g(k))
    return _keys


def rand_key_bytes(rng, bad=0.2):
    pt = rng.choice(some_keys())
    data = ec.ser(pt, rng.random() < .6)
    if rng.random() < bad:
        kind = rng.randrange(7)
        if kind == 0:
            data = data[:-1]
        elif kind == 1:
            data += b'\0'
        elif kind == 2:
            data = bytes([rng.choice([0, 1, 5, 8, 255])]) + data[1:]
        elif kind == 3:
            pos = rng.randrange(1, len(data))
            data = data[:pos] + bytes([data[pos] ^ (1 << rng.randrange(8))]) + data[pos + 1:]
        elif kind == 4:
            data = bytes(len(data))
        elif kind == 5:
            data = data[:1] + b'\xff' * 32 + data[33:]
        else:    # hybrid, right or wrong parity
            data = bytes([rng.choice([6, 7])]) + ec.ser(pt, False)[1:]
    return data


def rand_push(rng, item=None):
    '''A push of item, perhaps not minimal.'''
    if item is None:
        item = rng.randbytes(rng.choice([0, 1, 1, 2, 3, 4, 4, 5, 20, 32, 33, 65, 75, 76, 80]))
    n = len(item)
    kind = rng.random()
    if kind < .6:
        return min_push(item)
    if kind < .7 and n <= 255:
        return b'\x4c' + bytes([n]) + item
    if kind < .8:
        return b'\x4d' + n.to_bytes(2, 'little') + item
    if kind < .9:
        return b'\x4e' + n.to_bytes(4, 'little') + item
    return (bytes([n]) if n <= 75 else b'\x4d' + n.to_bytes(2, 'little')) + item


def rand_template(rng, bad=0.2):
    '''An output script of (nearly) standard shape.'''
    kind = rng.randrange(5)
    hlen = 20 if rng.random() > bad else rng.choice([0, 19, 21, 32])
    push = rand_push if rng.random() < .4 else lambda rng, item: min_push(item)
    if kind == 0:
        return b'\x76\xa9' + push(rng, rng.randbytes(hlen)) + b'\x88\xac'
    if kind == 1:
        return b'\xa9' + push(rng, rng.randbytes(hlen)) + b'\x87'
    if kind == 2:
        return push(rng, rand_key_bytes(rng, bad)) + b'\xac'
    if kind == 3:
        n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 15, 16, 17, 20])
        m = rng.randrange(1, n + 1)
        count = n
        if rng.random() < bad:
            m = rng.choice([0, -1, n + 1, m, 255])
        if rng.random() < bad:
            count = n + rng.choice([-1, 1, 0])
        return (push(rng, script_num(m)) + b''.join(push(rng, rand_key_bytes(rng, bad / n))
                                                     for _ in range(n))
                + push(rng, script_num(count)) + b'\xae')
    pre = b''.join(rand_push(rng) for _ in range(rng.choice([0, 0, 0, 1, 2])))
    post = rng.choice([b'', rng.randbytes(rng.randrange(40)), rand_push(rng) + rand_push(rng)])
    return pre + b'\x6a' + post


def rand_noise(rng, items=()):
    '''Something classification ignores, at times like the items of the script.'''
    kind = rng.randrange(3)
    if items and kind and rng.random() < 0.4:
        pushes = [min_push(rng.choice(items)) if rng.random() < 0.7 else rand_push(rng) for _ in range(kind)]
        return b''.join(pushes) + (b'\x75' if kind == 1 else b'\x6d')
    if kind == 0:
        return b'\x61'
    if kind == 1:
        return rand_push(rng) + b'\x75'
    return rand_push(rng) + rand_push(rng) + b'\x6d'


def rand_mutated_template(rng):
    script = rand_template(rng)
    kind = rng.randrange(9)
    if kind == 0 and script:
        pos = rng.randrange(len(script))
        script = script[:pos] + bytes([rng.randrange(256)]) + script[pos + 1:]
    elif kind == 1 and script:
        pos = rng.randrange(len(script))
        script = script[:pos] + script[pos + 1:]
    elif kind == 2:
        pos = rng.randrange(len(script) + 1)
        script = script[:pos] + bytes([rng.randrange(256)]) + script[pos:]
    elif kind == 3:
        script = script[:rng.randrange(len(script) + 1)]
    elif kind == 4:
        script += rand_op(rng)
    elif kind == 5:
        script = rand_op(rng) + script
    elif kind == 6:
        script = rand_noise(rng) + script + rand_noise(rng)
    elif kind == 7:
        ops, truncated = tokenize(script)
        if not truncated:
            script = b''.join(
                (rand_noise(rng) if rng.random() < .3 else b'')
                + (min_push(op) if isinstance(op, bytes) else bytes([op])) for op in ops)
    return script


def rand_op(rng):
    r = rng.random()
    if r < .5:
        return rand_push(rng)
    if r < .9:
        return bytes([rng.choice(PLAIN)])
    return bytes([rng.choice([80, 186, 187, 200, 254, 255])])


def rand_sig(rng):
    def val():
        return rng.choice([0, 1, 127, 128, 255, 256, ec.N - 1, ec.N // 2, rng.randrange(ec.N),
                           rng.randrange(1 << 100), rng.randrange(ec.N)])
    data = ec.der(val(), val())
    if rng.random() < .25:
        data = mutate(rng, data)
    return data + bytes([rng.choice([1, 2, 3, 0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0, 0x80, 0x40, 4,
                                     rng.randrange(256)])])


def mutate(rng, data):
    data = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2])):
        kind = rng.randrange(4)
        if kind == 0 and data:
            data[rng.randrange(len(data))] = rng.randrange(256)
        elif kind == 1 and data:
            del data[rng.randrange(len(data))]
        elif kind == 2:
            data.insert(rng.randrange(len(data) + 1), rng.choice([0, 0x80, 0xff, rng.randrange(256)]))
        elif kind == 3 and data:
            data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
    return bytes(data)


def rand_script(rng):
    r = rng.random()
    if r < .35:
        return rand_template(rng)
    if r < .6:
        return rand_mutated_template(rng)
    if r < .75:      # unlocking script
        return rand_push(rng, rand_sig(rng)) + rand_push(rng, rand_key_bytes(rng))
    script = b''.join(rand_op(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13])))
    if rng.random() < .3 and script:
        script = script[:rng.randrange(len(script))]
    return script
