'''What a node does with a spending transaction: signature hashes, a script interpreter for the standard output
scripts, and the checks of one transaction against the outputs it spends.  All of it from raw bytes.'''
from ref import ec, wire
from ref.hashing import dsha, hash160

FORKID = 0x40


class Bad(Exception):
    pass


def preimage(t, index, value, script, sighash):
    '''The fork-id signature preimage.'''
    base, acp = sighash & 0x1f, sighash & 0x80
    version, ins, outs, locktime = t
    zero = bytes(32)
    prevouts = zero if acp else dsha(b''.join(i[0] + i[1].to_bytes(4, 'little') for i in ins))
    sequence = zero if acp or base in (2, 3) else dsha(
        b''.join(i[3].to_bytes(4, 'little') for i in ins))
    if base == 3:
        outputs = dsha(wire.txout_bytes(outs[index])) if index < len(outs) else zero
    elif base == 2:
        outputs = zero
    else:
        outputs = dsha(b''.join(map(wire.txout_bytes, outs)))
    i = ins[index]
    return (wire.le(version, 4) + prevouts + sequence + i[0] + i[1].to_bytes(4, 'little')
            + wire.varbytes(script) + value.to_bytes(8, 'little') + i[3].to_bytes(4, 'little')
            + outputs + locktime.to_bytes(4, 'little') + sighash.to_bytes(4, 'little'))


def operations(script):
    '''(opcode, item or None), minimal pushes only.'''
    n = 0
    while n < len(script):
        op = script[n]
        n += 1
        if op > 78:
            yield op, None
            continue
        width = {76: 1, 77: 2, 78: 4}.get(op, 0)
        size = int.from_bytes(script[n: n + width], 'little') if width else op
        n += width
        item = script[n: n + size]
        n += size
        if n > len(script):
            raise Bad('truncated script')
        if (size == 1 and (1 <= item[0] <= 16 or item[0] == 0x81) or width and size <= 75
                or width > 1 and size <= 255 or width > 2 and size <= 65535):
            raise Bad('not minimally pushed')
        yield op, item


def number(item):
    if len(item) > 4 or item and not item[-1] & 0x7f and not (len(item) > 1 and item[-2] & 0x80):
        raise Bad('not a minimal number')
    value = int.from_bytes(item, 'little')
    if item and item[-1] & 0x80:
        value = -(value ^ 0x80 << 8 * (len(item) - 1))
    return value


def check_signature(sig, key, spend):
    '''Strictly encoded, low S, with the fork id.'''
    t, index, value, code = spend
    if not sig:
        return False
    der, sighash = sig[:-1], sig[-1]
    if not sighash & FORKID or sighash & 0x1f not in (1, 2, 3) or sighash & 0x20:
        raise Bad('signature hash type')
    values = ec.der_parse(der)
    if values is None or len(values) != 2 or ec.der(*values) != der:
        raise Bad('signature encoding')
    if values[1] > ec.N // 2:
        raise Bad('high S')
    if len(key) not in (33, 65) or key[0] not in ((2, 3) if len(key) == 33 else (4, )):
        raise Bad('public key encoding')
    point = ec.parse(key)
    return point is not None and ec.ecdsa_verify(dsha(preimage(t, index, value, code, sighash)), *values, point)


def run(script, stack, spend):
    def pop():
        if not stack:
            raise Bad('empty stack')
        return stack.pop()

    def verify(ok):
        if not ok:
            raise Bad('verify')

    for op, item in operations(script):
        if item is not None:
            stack.append(item)
        elif op == 79 or 81 <= op <= 96:
            stack.append(b'\x81' if op == 79 else bytes([op - 80]))
        elif op == 118:
            stack.append(pop())
            stack.append(stack[-1])
        elif op == 169:
            stack.append(hash160(pop()))
        elif op in (135, 136):
            same = pop() == pop()
            stack.append(b'\1' if same else b'')
        elif op == 117:
            pop()
        elif op == 109:
            pop(), pop()
        elif op in (172, 173):
            key, sig = pop(), pop()
            stack.append(b'\1' if check_signature(sig, key, spend) else b'')
        elif op in (174, 175):
            keys = [pop() for _ in range(number(pop()))]
            need = number(pop())
            if not 0 <= need <= len(keys) <= 20:
                raise Bad('counts')
            sigs = [pop() for _ in range(need)]
            if pop() != b'':
                raise Bad('dummy')
            good = True
            while sigs and good:
                if len(sigs) > len(keys):
                    good = False
                elif check_signature(sigs[0], keys.pop(0), spend):
                    sigs.pop(0)
            stack.append(b'\1' if good else b'')
        elif op == 106:
            raise Bad('return')
        else:
            raise Bad(f'opcode {op}')
        if op in (136, 173, 175):
            verify(pop())
    return stack


def spends(t, index, value, script_pubkey):
    '''Raises Bad unless the input of the transaction may spend that output.'''
    script_sig = t[1][index][2]
    if any(item is None and op > 96 for op, item in operations(script_sig)):
        raise Bad('the input script does not only push')
    stack = run(script_sig, [], None)
    pushed = stack[:]
    stack = run(script_pubkey, stack, (t, index, value, script_pubkey))
    p2sh = len(script_pubkey) == 23 and script_pubkey[:2] == b'\xa9\x14' and script_pubkey[22] == 135
    if p2sh:
        if stack[-1:] != [b'\1']:
            raise Bad('wrong redeem script')
        redeem = pushed.pop()
        stack = run(redeem, pushed, (t, index, value, redeem))
    if len(stack) != 1 or not any(stack[0]):
        raise Bad('left false, or not clean')


def valid(raw, outputs, height, time):
    '''The transaction as a node sees it.  outputs is {(hash, index): (value, script)}.  Raises Bad.'''
    t, past = wire.parse_tx(raw)
    if past != len(raw) or wire.tx_bytes(t) != raw:
        raise Bad('not canonical')
    _, ins, outs, locktime = t
    points = [i[:2] for i in ins]
    if len(set(points)) != len(points) or not ins or not outs:
        raise Bad('inputs or outputs')
    if any(p not in outputs for p in points):
        raise Bad('unknown output')
    if not all(0 <= o[0] <= 21 * 10**14 for o in outs) or sum(outputs[p][0] for p in points) < sum(o[0] for o in outs):
        raise Bad('values')
    if locktime and locktime >= (height if locktime < 500_000_000 else time) and any(
            i[3] != 0xffffffff for i in ins):
        raise Bad('not final')
    for index, p in enumerate(points):
        spends(t, index, *outputs[p])
    return t
