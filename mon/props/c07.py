from bitcoinx import Script, TruncatedScriptError, ScriptError
from engine import workload
from ref import scripts

PROP, LEVEL = 'C07', 'exploration'
FILES = ['script.py']
RULE = ('all scripts of one and two bytes, structured scripts (templates, every push form, every '
        'opcode) and their mutations and truncations, random bytes, and large pushes, iterated op '
        'by op against an independent tokenizer; the covered bytes are re-assembled from the '
        'yielded operations. Distinct by script.')
REQUIRE = {'complete scripts': 2000, 'truncated scripts': 1000, 'operations': 10000}


def check(ctx, raw):
    want, truncated = scripts.tokenize(raw)
    script = Script(raw)
    got, error = [], None
    it = iter(script.ops())
    try:
        for op in it:
            got.append(op)
            ctx.ok(len(got) <= len(raw) + 1, 'more operations than bytes', raw.hex())
    except TruncatedScriptError as e:
        error = e
    ctx.case(raw)
    ctx.n('truncated scripts' if truncated else 'complete scripts')
    ctx.n('operations', len(got))
    ctx.eq(got, want, 'operations', raw.hex())
    for op, w in zip(got, want):
        ctx.ok(isinstance(op, bytes) == isinstance(w, bytes), 'operation type', type(op), raw.hex())
    ctx.eq(error is not None, truncated, 'truncation error', raw.hex())
    ctx.eq(bytes(script), raw, 'iterating changed the script')
    return got


@workload(16, 16)
def short_scripts(ctx, rng, i):
    '''Every script of up to two bytes; a sample of those of three.'''
    if i == 0:
        check(ctx, b'')
        for v in range(256):
            check(ctx, bytes([v]))
    for v in range(i, 65536, 16):
        check(ctx, v.to_bytes(2, 'big'))
        if ctx.thorough or v % 8 == 0:
            check(ctx, v.to_bytes(2, 'big') + rng.randbytes(1))


@workload(32000, 4000000)
def structured(ctx, rng, i):
    raw = scripts.rand_script(rng)
    check(ctx, raw)
    for _ in range(2):
        check(ctx, scripts.mutate(rng, raw))
    if raw:
        cut = raw[:rng.randrange(len(raw))]
        check(ctx, cut)
    ctx.sample(script=raw.hex())


@workload(16000, 1200000)
def random_bytes(ctx, rng, i):
    raw = rng.randbytes(rng.randrange(0, 80))
    if rng.random() < .6:    # mostly push opcodes
        raw = bytes(b % 97 if rng.random() < .5 else b for b in raw)
    check(ctx, raw)


@workload(480, 12000)
def push_sizes(ctx, rng, i):
    '''Each push form at each interesting length, whole and cut at every interesting place.'''
    sizes = [0, 1, 74, 75, 76, 77, 78, 255, 256, 257, 65535, 65536, 65537, rng.randrange(3000)]
    n = sizes[i % len(sizes)]
    item = rng.randbytes(n)
    forms = []
    if n <= 75:
        forms.append(bytes([n]))
    if n <= 255:
        forms.append(b'\x4c' + bytes([n]))
    if n <= 65535:
        forms.append(b'\x4d' + n.to_bytes(2, 'little'))
    forms.append(b'\x4e' + n.to_bytes(4, 'little'))
    for head in forms:
        pre = rng.choice([b'', b'\x51', b'\x76\xa9'])
        raw = pre + head + item
        check(ctx, raw)
        check(ctx, raw + b'\xac')
        check(ctx, raw + raw)
        lo = len(pre)
        for cut in {lo + 1, lo + 2, lo + 3, lo + 4, lo + len(head), len(raw) - 1, len(raw) - 2}:
            if lo < cut < len(raw):
                check(ctx, raw[:cut])
    for claim in (2**31, 2**32 - 1, 2**31 - 1):
        check(ctx, b'\x61\x4e' + claim.to_bytes(4, 'little') + b'ab')


@workload(2400, 100000)
def independent_iterators(ctx, rng, i):
    '''Several interleaved iterations do not disturb one another.'''
    raw = scripts.rand_script(rng) + b'\x51'
    want, truncated = scripts.tokenize(raw)
    script = Script(raw)
    iters = [[iter(script.ops()), []] for _ in range(3)]
    live = list(iters)
    while live:
        entry = rng.choice(live)
        try:
            entry[1].append(next(entry[0]))
        except StopIteration:
            ctx.eq(truncated, False, 'iteration ended without a truncation error', raw.hex())
            live.remove(entry)
        except ScriptError:
            ctx.eq(truncated, True, 'truncation error', raw.hex())
            live.remove(entry)
    for entry in iters:
        ctx.eq(entry[1], want, 'interleaved iteration', raw.hex())
    ctx.case(raw)
