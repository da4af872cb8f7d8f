import os
import struct
from bitcoinx import CheckPoint, MissingHeader, chain
from engine import workload

PROP, LEVEL = 'C37', 'exploration'
FILES = ['chain.py', 'util.py']
RULE = ('histories of writes (sparse, negative, far beyond the growth increment, overwriting), appends, reads, '
        'slices with any bounds and steps, refused writes, flushes, reopening in place and beside, against a '
        'dictionary of the last write at each index; the whole file is read too. Some files have headers far apart, beyond 2^32 bytes. Distinct by the history.')
REQUIRE = {'steps': 8000, 'reads': 60000, 'missing': 15000, 'slices': 4000, 'growth': 150, 'refused': 2500,
           'reopened': 700, 'negative writes': 600, 'overwrites': 1200, 'appends': 800, 're-created': 150,
           'larger reserved areas': 60, 'far apart': 150, 'headers in the whole file': 20000}
EMPTY = bytes(80)
# By what it does, should it be renamed
_HeaderStorage = getattr(chain, '_HeaderStorage', None) or next(
    c for c in vars(chain).values() if isinstance(c, type) and hasattr(c, 'open_or_create'))


def header(rng):
    '''80 bytes, most often like those nearby in a way that shows misplacement; never all zero.'''
    k = rng.randrange(6)
    if k == 0:
        raw = bytes(79) + bytes([rng.randrange(1, 256)])
    elif k == 1:
        raw = bytes([rng.randrange(1, 256)]) + bytes(79)
    elif k == 2:
        raw = b'\xff' * 80
    else:
        raw = rng.randbytes(80)
    return raw if raw != EMPTY else b'\1' * 80


class Model:
    def __init__(self, reserved, height, raw):
        self.reserved, self.data, self.count = reserved, {height: raw}, height + 1

    def set(self, index, raw):
        self.data[index] = raw
        self.count = max(self.count, index + 1)

    def index(self, key):
        return key + self.count if key < 0 else key


def read(ctx, store, model, key):
    want = model.data.get(model.index(key))
    got, error = ctx.outcome(lambda: store[key])
    ctx.n('reads')
    if want is None:
        ctx.n('missing')
        ctx.ok(isinstance(error, MissingHeader), 'read of a missing header', f'key {key} of {model.count}', got, error)
    else:
        ctx.ok(error is None and type(got) is bytes and got == want, 'read of a header',
               f'key {key} of {model.count}', got, error, want)


def read_slice(ctx, store, model, s):
    got, error = ctx.outcome(lambda: store[s])
    indices = range(*s.indices(model.count))
    ctx.n('slices')
    if any(k not in model.data for k in indices):
        ctx.ok(isinstance(error, MissingHeader), 'slice over a missing header', s, got, error)
    else:
        ctx.ok(error is None and got == [model.data[k] for k in indices], 'slice', s, model.count, error)
        ctx.seen('slices read', (s.start, s.stop, s.step, model.count))


def scan(ctx, store, model, path):
    '''Everything, through the store and in the file.'''
    ctx.eq(len(store), model.count, 'length')
    store.flush()
    with open(path, 'rb') as f:
        data = f.read()
    ctx.eq(data[:8], struct.pack('<HHI', model.reserved, 0, model.count), 'start of the file')
    stored = {}
    for start in range(model.reserved, len(data), 80):
        raw = data[start: start + 80]
        if raw.strip(b'\0'):
            stored[(start - model.reserved) // 80] = raw
    ctx.ok(stored == model.data, 'headers in the file', sorted(set(stored) ^ set(model.data))[:5],
           [k for k in stored if stored[k] != model.data.get(k)][:5])
    ctx.n('headers in the whole file', len(stored))
    for k in model.data:
        for near in (k - 1, k, k + 1):
            if near >= 0:
                read(ctx, store, model, near)
    read(ctx, store, model, model.count)
    read(ctx, store, model, -1)
    read(ctx, store, model, -model.count)
    read(ctx, store, model, -model.count - 1)


def rand_key(rng, model, far):
    k = rng.random()
    if k < 0.3:
        return rng.randrange(model.count)
    if k < 0.5:
        return -rng.randrange(1, model.count + 1)
    if k < 0.7:
        return model.count + rng.randrange(4)
    if k < 0.85:
        return rng.randrange(model.count + 20)
    if far and k < 0.9:
        return model.count + rng.choice([4990, 4999, 5000, 5001, 9999, 12345])
    return rng.choice(list(model.data))


def bad_value(rng):
    raw = rng.randbytes(80)
    return rng.choice([raw[:79], raw + b'\0', b'', raw[:1], raw * 2, raw.hex()[:80], 'a' * 80, memoryview(raw),
                       list(raw), None, 80, tuple(raw), bytearray(raw[:79]), bytearray(raw + b'x'), 0.5])


def bad_key(rng):
    return rng.choice([None, '1', 1.0, b'\1', (1,), slice(0, 1), slice(None), [0], object()])


@workload(900, 51000)
def histories(ctx, rng, i):
    path = os.path.join(ctx.tmp, f's{i}')
    height = rng.choice([0, 0, 1, 2, 7, 30, 400, 5100])
    checkpoint = CheckPoint(header(rng), height, 0)
    reserved = 8
    if i % 4 == 1:
        # Made elsewhere, with a larger reserved area
        reserved = rng.choice([9, 16, 48, 80, 88, 255, 256, 1000, 65535])
        with open(path, 'wb') as f:
            f.write(struct.pack('<HHI', reserved, 0, height + 1) + bytes(reserved - 8 + 80 * height)
                    + checkpoint.raw_header)
        ctx.n('larger reserved areas')
    elif i % 4 == 2:
        # Not a file of headers, or one with another checkpoint
        other = Model(8, height, header(rng))
        with open(path, 'wb') as f:
            f.write(rng.choice([
                b'', b'\x08\0\0', rng.randbytes(rng.randrange(8, 200)),
                struct.pack('<HHI', 8, 1, height + 1) + bytes(80 * height) + checkpoint.raw_header,
                struct.pack('<HHI', 8, 0, height + 1) + bytes(80 * height) + other.data[height],
                struct.pack('<HHI', 8, 0, height + 1) + bytes(80 * height) + EMPTY,
                struct.pack('<HHI', 8, 0, height) + rng.randbytes(80 * height),
            ]))
        ctx.n('re-created')
    store = _HeaderStorage(path)
    store.open_or_create(checkpoint)
    model = Model(reserved, height, checkpoint.raw_header)
    scan(ctx, store, model, path)
    size = os.stat(path).st_size
    trail = []
    far = 3
    for _ in range(rng.choice([10, 40, 80])):
        op = rng.random()
        ctx.n('steps')
        if op < 0.3:
            key = rand_key(rng, model, far)
            far -= key > model.count + 4000
            raw = header(rng)
            ctx.n('overwrites', model.index(key) in model.data)
            ctx.n('negative writes', key < 0)
            store[key] = bytearray(raw) if rng.random() < 0.2 else raw
            model.set(model.index(key), raw)
            trail.append(('set', key))
            read(ctx, store, model, key)
        elif op < 0.42:
            raw = header(rng)
            ctx.eq(store.append(bytearray(raw) if rng.random() < 0.2 else raw), model.count, 'index appended at')
            model.set(model.count, raw)
            ctx.n('appends')
            trail.append('append')
        elif op < 0.56:
            for _k in range(4):
                read(ctx, store, model, rand_key(rng, model, True))
            read(ctx, store, model, -model.count - rng.randrange(1, 5))
            read(ctx, store, model, rng.choice([10 ** 6, 2 ** 31, 2 ** 40, -2 ** 31, -2 ** 40]))
        elif op < 0.72:
            near = max(0, model.count - 8)
            bound = [None, 0, 1, near, model.count, model.count + 3, -1, -4, -model.count, -model.count - 2,
                     rng.randrange(model.count + 1)]
            for _k in range(3):
                read_slice(ctx, store, model, slice(rng.choice(bound), rng.choice(bound),
                                                    rng.choice([None, 1, 1, 2, 3, -1, -2, 7])))
        elif op < 0.88:
            before = open(path, 'rb').read()
            k = rng.randrange(4)
            if k == 0:
                ctx.raises(TypeError, 'write with a key of another type', store.__setitem__, bad_key(rng), header(rng))
            elif k == 1:
                ctx.raises(TypeError, 'write of other than 80 bytes', store.__setitem__, rand_key(rng, model, True),
                           bad_value(rng))
            elif k == 2:
                ctx.raises(TypeError, 'append of other than 80 bytes', store.append, bad_value(rng))
            else:
                ctx.raises(MissingHeader, 'write at too negative an index', store.__setitem__,
                           -model.count - rng.choice([1, 2, 3, 1000, 2 ** 40]), header(rng))
                ctx.raises(TypeError, 'read with a key of another type', store.__getitem__,
                           rng.choice([None, '1', 1.0, b'\1', (1,), [0]]))
            ctx.ok(open(path, 'rb').read() == before, 'a refused operation changed the file')
            ctx.n('refused')
        elif op < 0.92:
            store.flush()
        elif op < 0.97:
            store.close()
            store = _HeaderStorage(path)
            store.open_or_create(CheckPoint(model.data[height], height, 0))
            ctx.n('reopened')
            trail.append('reopen')
            scan(ctx, store, model, path)
        else:
            # Another object on the same file reads the same
            store.flush()
            other = _HeaderStorage(path)
            other.open_or_create(CheckPoint(model.data[height], height, 0))
            for _k in range(5):
                read(ctx, other, model, rand_key(rng, model, True))
            ctx.eq(len(other), model.count, 'length through another object')
            other.close()
            ctx.n('reopened')
        ctx.eq(len(store), model.count, 'length', trail[-5:])
        read(ctx, store, model, rand_key(rng, model, False))
        new = os.stat(path).st_size
        if new != size:
            ctx.n('growth')
            ctx.seen('growth', (size, new))
            size = new
            scan(ctx, store, model, path)
    scan(ctx, store, model, path)
    store.close()
    # Any checkpoint that the file holds opens it as it is; any other makes it anew
    index = rng.choice(list(model.data))
    store = _HeaderStorage(path)
    store.open_or_create(CheckPoint(model.data[index], index, 0))
    scan(ctx, store, model, path)
    store.close()
    wrong = rng.choice([CheckPoint(header(rng)[:-2] + b'no', height, 0),
                        CheckPoint(header(rng)[:-2] + b'no', model.count + rng.randrange(10), 0)])
    store = _HeaderStorage(path)
    store.open_or_create(wrong)
    model = Model(8, wrong.height, wrong.raw_header)
    scan(ctx, store, model, path)
    store.append(checkpoint.raw_header)
    model.set(wrong.height + 1, checkpoint.raw_header)
    scan(ctx, store, model, path)
    store.close()
    os.unlink(path)
    ctx.n('re-created')
    ctx.case((i, height, reserved, tuple(trail)))
    ctx.sample(height=height, reserved=reserved, trail=trail[:8])


@workload(4, 40)
def far_apart(ctx, rng, i):
    '''Headers far apart in a file with holes: beyond 2^31 and 2^32 bytes, and 2^24 headers.'''
    path = os.path.join(ctx.tmp, f'h{i}')
    around = [2 ** 31 // 80, 2 ** 32 // 80, 2 ** 33 // 80, 2 ** 24, 2 ** 25, 2 ** 26, 2 ** 16, 2 ** 31 // 80 + 5000]
    keys = [k + d for k in around for d in range(-3, 4)]
    height = rng.choice([0, 7, 700_000, rng.choice(keys)])
    checkpoint = CheckPoint(header(rng), height, 0)
    store = _HeaderStorage(path)
    store.open_or_create(checkpoint)
    model = Model(8, height, checkpoint.raw_header)
    for step in range(40):
        k = rng.random()
        raw = header(rng)
        if k < 0.6:
            key = rng.choice(keys)
            if rng.random() < 0.2 and key < model.count:
                store[key - model.count] = raw
            else:
                store[key] = raw
            model.set(key, raw)
        elif k < 0.8:
            ctx.eq(store.append(raw), model.count, 'index appended at')
            model.set(model.count, raw)
        elif k < 0.9:
            store.flush()
        else:
            store.close()
            index = rng.choice(list(model.data))
            store = _HeaderStorage(path)
            store.open_or_create(CheckPoint(model.data[index], index, 0))
        ctx.eq(len(store), model.count, 'length')
        for key in list(model.data) + rng.sample(keys, 10):
            read(ctx, store, model, key)
            read(ctx, store, model, key - model.count)
        key = rng.choice(list(model.data))
        read_slice(ctx, store, model, slice(key, key + rng.randrange(1, 3)))
        read_slice(ctx, store, model, slice(key - model.count, (key - model.count + 1) or None))
        ctx.n('far apart')
    store.close()
    with open(path, 'rb') as f:
        ctx.eq(f.read(8), struct.pack('<HHI', 8, 0, model.count), 'start of the file')
        for key, raw in model.data.items():
            f.seek(8 + key * 80)
            ctx.eq(f.read(80), raw, 'header in the file', key)
    os.unlink(path)
    ctx.case((i, tuple(model.data)))


@workload(3, 24)
def filled(ctx, rng, i):
    '''Appending through several growths of the file.'''
    path = os.path.join(ctx.tmp, f'f{i}')
    height = rng.randrange(50)
    checkpoint = CheckPoint(header(rng), height, 0)
    store = _HeaderStorage(path)
    store.open_or_create(checkpoint)
    model = Model(8, height, checkpoint.raw_header)
    for k in range(12_000 if ctx.thorough else 6_000):
        raw = struct.pack('<I', k + 1) + rng.randbytes(76)
        if rng.random() < 0.9:
            ctx.eq(store.append(raw), model.count, 'index appended at')
            model.set(model.count, raw)
        else:
            key = model.count + rng.randrange(3)
            store[key] = raw
            model.set(key, raw)
    scan(ctx, store, model, path)
    ctx.eq(store[height:height + 1], [checkpoint.raw_header], 'slice')
    store.close()
    store = _HeaderStorage(path)
    store.open_or_create(checkpoint)
    scan(ctx, store, model, path)
    store.close()
    os.unlink(path)
    ctx.case((i, model.count))


