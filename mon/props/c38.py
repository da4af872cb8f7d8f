import bitcoinx as bx
from bitcoinx import hashes, misc
from engine import workload
from ref import hashing, sha

PROP, LEVEL = 'C38', 'exploration'
FILES = ['hashes.py', 'misc.py']
RULE = ('byte strings of every length over several blocks (all lengths within 2 of a block or padding boundary, in '
        'bytes, bytearray, memoryview and Script) hashed and compared with SHA-1, SHA-256, SHA-512, RIPEMD-160 and '
        'HMAC written from their specifications; display hex and value of hashes, and integers of every bit length '
        'at every size, by arithmetic. Distinct by input.')
REQUIRE = {'digests': 12000, 'hmacs': 2500, 'HMAC keys over a block': 500, 'lengths': 300, 'displays': 2000,
           'conversions': 30000, 'too small refused': 5000, 'negative refused': 500, 'exact fits': 3000,
           'chunks': 1000, 'bytearray': 200, 'memoryview': 200, 'malformed hex refused': 300}
PLAIN = {'sha1': sha.sha1, 'sha256': sha.sha256, 'sha512': sha.sha512, 'ripemd160': hashing.ripemd160,
         'double_sha256': lambda d: sha.sha256(sha.sha256(d)),
         'hash160': lambda d: hashing.ripemd160(sha.sha256(d))}


def data_of(rng, size):
    k = rng.randrange(8)
    if k == 0:
        return bytes(size)
    if k == 1:
        return b'\xff' * size
    return rng.randbytes(size)


def wrapped(ctx, rng, data):
    kind = rng.choice([bytes, bytes, bytearray, memoryview])
    ctx.n(kind.__name__)
    return kind(data)


def judge(ctx, rng, data):
    for name, fn in PLAIN.items():
        for public in (getattr(bx, name), getattr(hashes, name)):
            got = public(wrapped(ctx, rng, data))
            ctx.ok(type(got) is bytes and got == fn(data), name, data, got)
            ctx.n('digests')
    ctx.seen('lengths', len(data))
    ctx.case(data)


@workload(340, 7400)
def every_length(ctx, rng, i):
    '''Each length up to a few blocks, four times.'''
    for _ in range(4):
        judge(ctx, rng, data_of(rng, i))


@workload(40, 2000)
def longer(ctx, rng, i):
    block = rng.choice([64, 128])
    size = block * rng.randrange(3, 40) + rng.choice([-17, -16, -9, -8, -1, 0, 1, 55, 56])
    judge(ctx, rng, data_of(rng, size))


@workload(900, 44000)
def hmacs(ctx, rng, i):
    for _ in range(4):
        key = data_of(rng, rng.choice([0, 1, 16, 20, 32, 63, 64, 65, 127, 128, 129, 130, 200, 300, rng.randrange(260)]))
        msg = data_of(rng, rng.choice([0, 1, 32, 37, 55, 56, 63, 64, 111, 112, 127, 128, rng.randrange(300)]))
        want = sha.hmac(key, msg, sha.sha512)
        ctx.eq(bx.hmac_sha512(key, msg), want, 'HMAC-SHA512', key, msg)
        left, right = bx.hmac_sha512_halves(key, msg)
        ctx.ok(left == want[:32] and right == want[32:], 'halves of HMAC-SHA512', key, msg)
        fn = rng.choice([sha.sha1, sha.sha256, sha.sha512])
        ctx.eq(bx.hmac_digest(key, msg, fn.__name__ if fn is sha.sha1 else
                              {sha.sha256: 'sha256', sha.sha512: 'sha512'}[fn]), sha.hmac(key, msg, fn), 'HMAC',
               key, msg)
        ctx.n('hmacs', 3)
        ctx.n('HMAC keys over a block', len(key) > 128)
        ctx.case((key, msg))
        ctx.sample(key=key, msg=msg)


DIGITS = '0123456789abcdef'


@workload(900, 44000)
def display(ctx, rng, i):
    '''Hashes as hex and as numbers.'''
    for _ in range(8):
        h = data_of(rng, rng.choice([32, 32, 32, 32, 20, 1, 0, 31, 33, 64]))
        text = ''.join(DIGITS[b >> 4] + DIGITS[b & 15] for b in h[::-1])
        ctx.eq(bx.hash_to_hex_str(wrapped(ctx, rng, h)), text, 'display of a hash', h)
        back = bx.hex_str_to_hash(text)
        ctx.ok(type(back) is bytes and back == h, 'hash of a display', text, back)
        mixed = ''.join(rng.choice([c, c.upper()]) for c in text)
        ctx.eq(bx.hex_str_to_hash(mixed), h, 'hash of a display in mixed case', mixed)
        ctx.eq(bx.hash_to_value(wrapped(ctx, rng, h)), int(text or '0', 16), 'value of a hash', h)
        ctx.n('displays')
        ctx.case(h)
        if text:
            k = rng.randrange(len(text))
            bad = rng.choice([text[:k] + rng.choice('g-xé\0') + text[k + 1:], text[1:], text + 'a'])
            ctx.raises(ValueError, 'malformed hex', bx.hex_str_to_hash, bad)
            ctx.n('malformed hex refused')


def digits_of(value, size):
    '''Little-endian base 256.'''
    out = []
    for _ in range(size):
        out.append(value % 256)
        value //= 256
    return out


@workload(990, 49000)
def integers(ctx, rng, i):
    '''Integers of each bit length, at each size.'''
    bits = i % 330
    values = {(1 << bits) - 1, 1 << bits >> 1, rng.getrandbits(bits) if bits else 0, (1 << bits)}
    for value in values:
        minimal = 0
        while value >> 8 * minimal:
            minimal += 1
        sizes = {None, minimal, minimal + 1, minimal + 7, 32, 33, max(0, minimal - 1), 0, rng.randrange(50)}
        for size in sizes:
            for name, order in (('int_to_be_bytes', -1), ('int_to_le_bytes', 1)):
                fn = getattr(misc, name)
                if size is not None and size < minimal:
                    ctx.raises(OverflowError, 'conversion to too few bytes', fn, value, size)
                    ctx.n('too small refused')
                    continue
                got = fn(value) if size is None else fn(value, size)
                want = bytes(digits_of(value, minimal if size is None else size)[::order])
                ctx.ok(type(got) is bytes and got == want, name, value, size, got)
                ctx.n('conversions')
                ctx.n('exact fits', size in (None, minimal))
                back = {-1: bx.be_bytes_to_int, 1: bx.le_bytes_to_int}[order]
                ctx.eq(back(wrapped(ctx, rng, got)), value, 'integer from bytes', got)
                ctx.eq(getattr(bx, name)(value, size), want, name, value, size)
                if size is not None:
                    ctx.eq(fn(value, size=size), want, name, value, size)
        ctx.case(value)
        if value:
            for fn in (bx.int_to_be_bytes, bx.int_to_le_bytes):
                ctx.raises(OverflowError, 'conversion of a negative integer', fn, -value,
                           rng.choice([None, minimal, 33, 60]))
                ctx.n('negative refused')


@workload(60, 3900)
def pieces(ctx, rng, i):
    '''Chunks cover the items in order.'''
    for _ in range(20):
        count, size = rng.choice([0, 1, 2, 12, 24, rng.randrange(100)]), rng.choice([1, 2, 3, 11, rng.randrange(1, 40)])
        items = rng.choice([list, bytes, tuple, lambda r: ''.join(chr(48 + k % 70) for k in r)])(range(count))
        got = list(misc.chunks(items, size))
        ctx.n('chunks')
        ctx.ok(all(type(p) is type(items) for p in got), 'type of a chunk', items, size)
        want = []
        for k in range(count):
            if k % size == 0:
                want.append(items[:0])
            want[-1] = want[-1] + items[k: k + 1]
        ctx.eq(got, want, 'chunks', items, size)
        ctx.case((items, size))
