import bitcoinx as bx
from bitcoinx import Base58Error
from engine import workload
from ref import base58 as b58
from ref.hashing import dsha

PROP, LEVEL = 'C11', 'exploration'
FILES = ['base58.py', 'misc.py']
RULE = ('byte strings of all lengths and leading-zero counts, and texts of all lengths and '
        'leading-one counts, against an independent digit-by-digit codec; every single-character '
        'substitution, deletion, insertion and transposition of checked texts. Distinct by input.')
REQUIRE = {'encodings': 2000, 'decodings': 2000, 'bad characters': 2000, 'checked errors': 5000}
BAD_CHARS = '0OIl \t\n\r+/=-_.,!?\x00\x7f\u00b5\u0131\u212a\uff11\u0661\u00e9\U0001d7cf\ud800'


def rand_bytes(rng):
    zeros = rng.choice([0, 0, 1, 2, 3, 5, 20])
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 20, 21, 25, 32, 33, 34, 37, 38, 78, 82, 120])
    body = rng.randbytes(n)
    if rng.random() < .1:
        body = b'\xff' * n
    return bytes(zeros) + body


@workload(4000, 300000)
def raw(ctx, rng, i):
    data = rand_bytes(rng)
    if data:
        ctx.n('encodings')
        ctx.case(b'e' + data)
        text = bx.base58_encode(data)
        ctx.eq(text, b58.encode(data), 'encoding', data.hex())
        ctx.eq(bx.base58_encode(bytearray(data)), text, 'encoding of bytearray', data.hex())
        ctx.eq(bytes(bx.base58_decode(text)), data, 'decoding of encoding', data.hex())
        ctx.sample(data=data.hex(), text=text)
    text = '1' * rng.choice([0, 0, 1, 2, 5]) + ''.join(
        rng.choice(b58.ALPHABET) for _ in range(rng.choice([0, 1, 2, 3, 10, 22, 34, 51, 52, 111])))
    if text:
        ctx.n('decodings')
        ctx.case(text)
        data = bx.base58_decode(text)
        ctx.eq(bytes(data), b58.decode(text), 'decoding', text)
        ctx.eq(bx.base58_encode(data), text, 'encoding of decoding', text)


@workload(4, 8)
def short(ctx, rng, i):
    '''All one- and two-byte strings and one- to three-character texts.'''
    for v in range(i % 4, 256, 4):
        for data in [bytes([v])] + [bytes([v, w]) for w in range(0, 256, 3)]:
            ctx.case(b'e' + data)
            ctx.eq(bx.base58_encode(data), b58.encode(data), 'encoding', data.hex())
            ctx.eq(bytes(bx.base58_decode(b58.encode(data))), data, 'decoding', data.hex())
    for a in b58.ALPHABET[i % 4::4]:
        for b in [''] + list(b58.ALPHABET):
            for c in ['', '1', 'z']:
                text = a + b + c
                ctx.case(text)
                ctx.eq(bytes(bx.base58_decode(text)), b58.decode(text), 'decoding', text)
                ctx.eq(bx.base58_encode(b58.decode(text)), text, 'encoding', text)


@workload(600, 30000)
def bad_characters(ctx, rng, i):
    text = b58.encode(rng.randbytes(rng.randrange(1, 40)))
    for c in BAD_CHARS:
        pos = rng.choice([0, len(text), rng.randrange(len(text) + 1)])
        bad = text[:pos] + c + text[pos + rng.randrange(2):]
        ctx.n('bad characters')
        ctx.case(bad)
        ctx.raises(Base58Error, 'bad character decoded', bx.base58_decode, bad)
        ctx.raises(Base58Error, 'bad character decoded', bx.base58_decode_check, bad)
        ctx.raises(Base58Error, 'bad character decoded', bx.base58_decode, c)
    ctx.raises(Base58Error, 'empty text decoded', bx.base58_decode, '')
    ctx.raises(Base58Error, 'empty text decoded', bx.base58_decode_check, '')
    for bad in (text.encode(), None, 5, bytearray(text.encode()), [text]):
        ctx.raises(TypeError, 'not text', bx.base58_decode, bad)
        ctx.raises(TypeError, 'not text', bx.base58_decode_check, bad)


def judge(ctx, text):
    want = b58.decode_check(text)
    ctx.case(text)
    if want is None:
        ctx.n('checked errors')
        ctx.raises(Base58Error, 'bad checksum accepted', bx.base58_decode_check, text)
    else:
        ctx.eq(bytes(bx.base58_decode_check(text)), want, 'checked decoding', text)


@workload(300, 12000)
def checked(ctx, rng, i):
    payload = rand_bytes(rng)
    text = bx.base58_encode_check(payload)
    ctx.eq(text, b58.encode_check(payload), 'checked encoding', payload.hex())
    ctx.eq(bytes(bx.base58_decode_check(text)), payload, 'checked decoding', payload.hex())
    ctx.eq(bx.base58_encode_check(bytearray(payload)), text, 'checked encoding of bytearray')
    for pos in range(len(text)):
        c = rng.choice(b58.ALPHABET)
        judge(ctx, text[:pos] + c + text[pos + 1:])
        judge(ctx, text[:pos] + text[pos + 1:])
        judge(ctx, text[:pos] + c + text[pos:])
        if pos:
            judge(ctx, text[:pos - 1] + text[pos] + text[pos - 1] + text[pos + 1:])
    judge(ctx, text[:-rng.randrange(1, 7)])
    judge(ctx, text[::-1])
    # a checksum that is nearly right: one bit, or only its first bytes, or of one hash
    check = dsha(payload)[:4]
    for k in range(4):
        for bit in (1, 128):
            bad = bytearray(check)
            bad[k] ^= bit
            judge(ctx, b58.encode(payload + bytes(bad)))
    for bad in (check[:3], check[:2], b'', check + b'\0', bytes(4), check[::-1]):
        if payload + bad:
            judge(ctx, b58.encode(payload + bad))


@workload(200, 6000)
def short_checked(ctx, rng, i):
    '''Texts that decode to fewer bytes than a checksum.'''
    for n in range(1, 6):
        judge(ctx, b58.encode(rng.randbytes(n)))
        judge(ctx, '1' * n)
    empty = dsha(b'')[:4]
    for n in range(1, 5):
        judge(ctx, b58.encode(empty[:n]))
        judge(ctx, b58.encode(bytes(n)))
    judge(ctx, ''.join(rng.choice(b58.ALPHABET) for _ in range(rng.randrange(1, 9))))
