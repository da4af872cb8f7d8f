import bitcoinx as bx
from bitcoinx import (InvalidSignatureError, PrivateKey, SigHash, Signature,
                      compact_signature_to_der, der_signature_to_compact)
from engine import workload
from ref import ec, scripts

PROP, LEVEL = 'C19', 'exploration'
FILES = ['signature.py']
RULE = ('r and s of every byte length with the top bit clear and set, 0, 1 and the values around the '
        'order and half of it; values not below the order; compact bytes of every length to 130; '
        'mutations of DER (lengths, tags, padding, long-form lengths, extra and missing bytes, single '
        'bits, splices) judged by an independent strict DER reader; all 256 sighash bytes. Distinct by '
        'the bytes given.')
REQUIRE = {'pairs': 3000, 'out of range refused': 1500, 'DER refused': 3000, 'DER accepted': 3000,
           'sighash bytes': 256, 'value byte lengths': 33, 'signature objects': 1000}
ASSUMPTIONS = ['a DER text whose integers are negative or not below the order is accepted by '
               'libsecp256k1 as an always-invalid signature of zeros; not judged beyond being accepted '
               'or an InvalidSignatureError']
EDGE = [0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, ec.N - 1, ec.N - 2, ec.N // 2, ec.N // 2 + 1,
        2**255 - 1, 2**255, 2**248, 2**247, 2**248 - 1]


def rand_value(rng):
    if rng.random() < .3:
        return rng.choice(EDGE)
    n = rng.randrange(0, 33)
    v = rng.getrandbits(8 * n) if n else 0
    if n and rng.random() < .5:
        v = v | 1 << (8 * n - 1) if rng.random() < .5 else v & ~(1 << (8 * n - 1))
    return v % ec.N


@workload(32000, 3000000)
def pairs(ctx, rng, i):
    r, s = rand_value(rng), rand_value(rng)
    if i < len(EDGE) ** 2:
        r, s = EDGE[i % len(EDGE)], EDGE[i // len(EDGE)]
    ctx.n('pairs')
    for v in (r, s):
        ctx.seen('value byte lengths', (v.bit_length() + 7) // 8)
    compact = r.to_bytes(32, 'big') + s.to_bytes(32, 'big')
    ctx.case(compact)
    der = compact_signature_to_der(compact)
    ctx.eq(der, ec.der(r, s), 'DER', compact.hex())
    ctx.ok(type(der) is bytes, 'type of DER')
    ctx.eq(der_signature_to_compact(der), compact, 'compact', der.hex())
    sighash = i % 256 if i < 1024 else rng.randrange(256)
    ctx.n('signature objects')
    ctx.seen('sighash bytes', sighash)
    raw = der + bytes([sighash])
    for sig in (Signature(raw), Signature.from_hex(raw.hex()), Signature.from_der_sig(der, sighash),
                Signature.from_der_sig(der, SigHash(sighash))):
        ctx.eq(sig.to_bytes(), raw, 'bytes')
        ctx.eq(bytes(sig), raw, 'bytes()')
        ctx.eq(sig.to_hex(), raw.hex(), 'hex')
        ctx.eq(sig.der_signature, der, 'DER part', raw.hex())
        ctx.eq(sig.sighash, sighash, 'sighash', raw.hex())
        ctx.ok(isinstance(sig.sighash, SigHash), 'type of the sighash')
        ctx.eq(sig.to_compact(), compact, 'compact', raw.hex())
        ctx.eq(sig.r_value(), r, 'r', raw.hex())
        ctx.eq(sig.s_value(), s, 's', raw.hex())
        ctx.ok(sig.is_present() is True, 'present')
        ctx.ok(sig == raw and sig == bytearray(raw) and sig == memoryview(raw), 'equals its bytes')
        ctx.ok(sig != raw[:-1] and sig != raw + b'\0' and sig != Signature.MISSING, 'unequal bytes')
        ctx.eq(sig.to_string(), der.hex() + '[' + scripts.sighash_text(sighash) + ']', 'text')
    ctx.eq(SigHash(sighash).to_string(), scripts.sighash_text(sighash), 'sighash text', sighash)
    ctx.eq(SigHash(sighash).base, sighash & 0x1f, 'base', sighash)
    ctx.eq(SigHash(sighash).anyone_can_pay, sighash >= 128, 'anyone can pay', sighash)
    ctx.sample(r=hex(r), s=hex(s), der=der.hex(), sighash=sighash)


@workload(4000, 400000)
def bad_compact(ctx, rng, i):
    big = [ec.N, ec.N + 1, 2**256 - 1, rng.randrange(ec.N, 2**256)]
    for r, s in [(b, rand_value(rng)) for b in big] + [(rand_value(rng), b) for b in big] + \
            [(rng.choice(big), rng.choice(big))]:
        compact = r.to_bytes(32, 'big') + s.to_bytes(32, 'big')
        ctx.n('out of range refused')
        ctx.case(compact)
        ctx.raises(InvalidSignatureError, 'value out of range', compact_signature_to_der, compact)
    good = b''.join(rand_value(rng).to_bytes(32, 'big') for _ in range(2))
    for n in [i % 130, rng.randrange(130), 0, 63, 65]:
        if n != 64:
            ctx.raises(InvalidSignatureError, 'compact of wrong length', compact_signature_to_der,
                       (good + good + b'\1\2')[:n])
    for bad in (good.hex(), None, 5, list(good)):
        ctx.raises(InvalidSignatureError, 'compact of wrong type', compact_signature_to_der, bad)


def mutate_der(rng, der, r, s):
    '''Something near to a DER signature.'''
    b = list(der)
    kind = rng.randrange(14)
    lr = der[3]
    if kind == 0:
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif kind == 1:
        b[1] = (b[1] + rng.choice([-2, -1, 1, 2])) % 256
    elif kind == 2:
        p = rng.choice([3, 5 + lr])
        b[p] = (b[p] + rng.choice([-1, 1])) % 256
    elif kind == 3:
        b[rng.choice([0, 2, 4 + lr])] = rng.randrange(256)
    elif kind == 4:
        b += rng.randbytes(rng.randrange(1, 4))
    elif kind == 5:
        del b[rng.randrange(len(b)):]
    elif kind == 6:       # excess leading zero
        p = rng.choice([3, 5 + lr])
        b[p] += 1
        b.insert(p + 1, 0)
        b[1] += 1
    elif kind == 7:       # lost leading zero
        for p in (3, 5 + lr):
            if b[p] > 1 and b[p + 1] == 0:
                del b[p + 1]
                b[p] -= 1
                b[1] -= 1
                break
    elif kind == 8:       # long form of a length
        p = rng.choice([1, 3, 5 + lr])
        n = b[p]
        b[p:p + 1] = rng.choice([bytes([0x81, n]), bytes([0x82, 0, n]), b'\x80', bytes([0x84]) +
                                 n.to_bytes(4, 'big')])
        if p != 1:
            b[1] += 1
    elif kind == 9:       # an empty integer
        p = rng.choice([3, 5 + lr])
        n = b[p]
        del b[p + 1:p + 1 + n]
        b[p] = 0
        b[1] -= n
    elif kind == 10:      # a third integer, or one only
        if rng.random() < .5:
            b += b'\2\1\1'
            b[1] += 3
        else:
            b = b[:4 + lr]
            b[1] = len(b) - 2
    elif kind == 11:      # splice
        p, q = sorted(rng.sample(range(len(b)), 2))
        b[p:q] = rng.randbytes(rng.randrange(4))
    elif kind == 12:
        b = list(rng.randbytes(rng.randrange(75)))
        if b:
            b[0] = 0x30
    else:                 # junk inside, lengths right
        b += rng.randbytes(2)
        b[1] += 2
    return bytes(v % 256 for v in b)


@workload(32000, 3000000)
def der_texts(ctx, rng, i):
    r, s = rand_value(rng), rand_value(rng)
    bad = mutate_der(rng, ec.der(r, s), r, s)
    if rng.random() < .3 and bad:
        bad = mutate_der(rng, bad, r, s) if len(bad) > 8 and bad[3] + 6 < len(bad) else bad
    got = ec.der_parse(bad)
    ctx.case(bad)
    sighash = bytes([rng.randrange(256)])
    if got is None:
        ctx.n('DER refused')
        ctx.raises(InvalidSignatureError, 'not strict DER', der_signature_to_compact, bad)
        if bad + sighash != b'\xff':
            ctx.raises(InvalidSignatureError, 'not strict DER', Signature, bad + sighash)
            ctx.raises(InvalidSignatureError, 'not strict DER', Signature.from_hex,
                       (bad + sighash).hex())
        ctx.raises(InvalidSignatureError, 'not strict DER',
                   PrivateKey(b'\1' * 32).public_key.verify_der_signature, bad, b'')
    elif got[0] == 'overflow':
        ctx.n('marginal DER')
        result, error = ctx.outcome(der_signature_to_compact, bad)
        ctx.ok(isinstance(error, InvalidSignatureError) or result is not None and len(result) == 64,
               'marginal DER', bad.hex(), error)
    else:
        ctx.n('DER accepted')
        compact = got[0].to_bytes(32, 'big') + got[1].to_bytes(32, 'big')
        ctx.eq(der_signature_to_compact(bad), compact, 'compact', bad.hex())
        ctx.eq(compact_signature_to_der(compact), bad, 'identity', bad.hex())
        ctx.eq(Signature(bad + sighash).to_compact(), compact, 'compact', bad.hex())
    # and a good one of the same values
    ctx.n('DER accepted')
    ctx.eq(der_signature_to_compact(ec.der(r, s)),
           r.to_bytes(32, 'big') + s.to_bytes(32, 'big'), 'compact')


@workload(1, 1)
def missing(ctx, rng, i):
    for sig in (Signature.MISSING, Signature(b'\xff'), Signature.from_hex('ff')):
        ctx.case(b'missing')
        ctx.ok(sig.is_present() is False, 'missing is present')
        ctx.eq(bytes(sig), b'\xff', 'bytes')
        ctx.eq(sig.to_bytes(), b'\xff', 'bytes')
        ctx.eq(sig.to_hex(), 'ff', 'hex')
        ctx.ok(sig == b'\xff' and sig == Signature.MISSING, 'equal')
        for fn in (lambda: sig.der_signature, lambda: sig.sighash, sig.to_compact, sig.r_value,
                   sig.s_value):
            ctx.raises(InvalidSignatureError, 'part of the missing signature', fn)
    for n in range(256):
        for raw in (bytes([n]), b'', bytes([n, n])):
            if raw != b'\xff':
                ctx.raises(InvalidSignatureError, 'not a signature', Signature, raw)
    ctx.eq([int(x) for x in (SigHash.ALL, SigHash.NONE, SigHash.SINGLE, SigHash.FORKID,
                             SigHash.ANYONE_CAN_PAY)], [1, 2, 3, 0x40, 0x80], 'constants')
    ctx.ok(bx.SigHash is SigHash, 'export')
