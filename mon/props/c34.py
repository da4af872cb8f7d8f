import os
import resource
import signal
import struct
import sys
import time
import bitcoinx as bx
import engine
import tree
from tree import Sim, Tree
from engine import workload
from props import c30

PROP, LEVEL = 'C34', 'fault_enumeration'
FILES = ['chain.py', 'util.py']
RULE = ('the file is copied whenever it differs from its last copy, checked at every bytecode instruction of the '
        'repository while a file is created, opened, connected to (extensions, forks, rejections, growth of the '
        'file) and set below the checkpoint; each distinct copy, and each with a write of over 8 bytes torn at '
        'points inside it, is a crash point, opened with the real code and compared with the model of the '
        'completed connections, with or without the one in progress; then headers are connected to it. Also '
        'children killed with SIGKILL at random times, and files whose growth is refused by the system. '
        'Distinct by the file\'s content.')
REQUIRE = {'crash points': 3000, 'torn writes': 1500, 'instructions watched': 200000, 'crashes while creating': 150,
           'crashes while connecting': 1500, 'crashes about growth': 30, 'crashes while opening': 100,
           'header in progress present': 300, 'header in progress absent': 1000, 'connected after a crash': 3000,
           'children killed': 24, 'growth refused': 12, 'creation refused': 12}
ASSUMPTIONS = ['the system keeps what a dead process has written, in order (no loss of power)',
               'writes of up to 8 bytes (the count of headers) are not torn']


class Watch:
    '''Copies of a file at every instruction at which it has changed.'''

    def __init__(self, ctx, path):
        self.ctx, self.path = ctx, path
        self.copies = []
        self.last = self.read()
        self.instructions = 0

    def read(self):
        try:
            with open(self.path, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def look(self):
        data = self.read()
        if data != self.last:
            self.copies.append((self.last, data))
            self.last = data

    def trace(self, frame, event, _arg):
        if not frame.f_code.co_filename.startswith(engine.REPO_PKG):
            return None
        frame.f_trace_opcodes = True
        if event in ('opcode', 'return', 'exception'):
            self.instructions += 1
            self.look()
        return self.trace

    def run(self, fn, *args):
        '''Call fn; return its outcome and the (before, after) pairs of changes made meanwhile.'''
        self.copies = []
        self.look()
        self.copies = []
        sys.settrace(self.trace)
        try:
            result = self.ctx.outcome(fn, *args)
        finally:
            sys.settrace(None)
        self.look()
        self.ctx.n('instructions watched', self.instructions)
        self.instructions = 0
        return result, self.copies


def common(same, most):
    '''The largest k for which same(k), which holds up to some k and no further.'''
    low, high = 0, most
    while low < high:
        middle = (low + high + 1) // 2
        if same(middle):
            low = middle
        else:
            high = middle - 1
    return low


def torn(before, after, rng, most):
    '''Copies with the change applied to a prefix of the bytes it changed.'''
    before = before or b''
    if len(after) != len(before):
        # Growth is by truncation to a size, or by writing
        padded = before + bytes(max(0, len(after) - len(before)))
        padded = padded[:len(after)]
    else:
        padded = before
    if padded == after:
        return
    first = common(lambda k: after[:k] == padded[:k], len(after))
    last = len(after) - common(lambda k: after[len(after) - k:] == padded[len(after) - k:], len(after))
    if last - first <= 8:
        return
    cuts = range(first + 1, last)
    if len(cuts) > most:
        cuts = rng.sample(cuts, most)
    for cut in cuts:
        yield padded[:first] + after[first:cut] + padded[cut:]
        if len(before) < cut <= len(after):
            yield after[:cut]


def model_of(sim, nodes):
    new = Tree(sim.coin, sim.required, sim.tree.root.raw, sim.tree.root.height, sim.tree.prev_work)
    for node in nodes:
        parent = new.by_hash[node.raw[4:36]]
        new.add(tree.Node(node.raw, node.hash, node.height, parent, parent.work))
    return new


def judge(ctx, rng, sim, data, completed, current, what, seen):
    '''A file as a crash left it.'''
    key = (data, len(completed), current and current.hash)
    if key in seen:
        return
    seen.add(key)
    path = sim.path + '-crash'
    if data is not None:
        with open(path, 'wb') as f:
            f.write(data)
    ctx.n('crash points')
    ctx.n('crashes while ' + what)
    ctx.case((what, data[:100_000] if data else None))
    try:
        headers = sim.cls.from_file(sim.coin, path, sim.tree.checkpoint)
    except Exception as e:
        ctx.fail('cannot be opened', f'{e!r} opening a file after a crash while {what}, {len(completed)} '
                 f'headers connected, size {data and len(data)}, start {data and data[:8].hex()}')
    held = list(completed)
    if current is not None and len(headers) == sim.tree.root.height + 2 + len(completed):
        held.append(current)
        ctx.n('header in progress present')
    else:
        ctx.n('header in progress absent')
    model = model_of(sim, held)
    ctx.eq(len(headers), model.len(), 'headers after a crash', what)
    tree.check_state(ctx, rng, headers, model, 10, 2, 3)
    # It accepts the header in progress again, and others
    again = Sim.__new__(Sim)
    again.__dict__.update(sim.__dict__)
    again.path, again.tree, again.headers = path, model, headers
    if current is not None:
        again.connect(current.raw, 'connect after a crash')
    again.connect(again.child(model.order[-1]), 'connect after a crash')
    again.connect(again.child(rng.choice(model.order)), 'connect after a crash')
    ctx.n('connected after a crash')
    tree.check_state(ctx, rng, headers, model, 10, 2, 3)
    tree.close(headers)
    headers = sim.cls.from_file(sim.coin, path, sim.tree.checkpoint)
    tree.check_chains(ctx, headers, model)
    tree.close(headers)
    os.unlink(path)


def judge_all(ctx, rng, sim, copies, completed, current, what, seen, most):
    for before, after in copies:
        judge(ctx, rng, sim, after, completed, current, what, seen)
        for data in torn(before, after, rng, most):
            ctx.n('torn writes')
            judge(ctx, rng, sim, data, completed, current, what, seen)


class Setup(Sim):
    '''A Sim whose file does not exist yet.'''

    def open(self, checkpoint=None):
        return None


def setup(ctx, rng, i, name, height=None):
    height = rng.choice([0, 0, 1, 3, 50]) if height is None else height
    sim = Setup(ctx, rng, os.path.join(ctx.tmp, f'{name}{i}'), height, None,
                rng.choice(['constant', 'timestamp', 'branch']))
    sim.__class__ = Sim
    return sim


def traced_connect(ctx, rng, sim, watch, raw, seen, most, what='connecting'):
    t = sim.tree
    verdict, node, _required = t.judge(raw)
    completed = t.order[1:]
    (result, error), copies = watch.run(sim.headers.connect, raw)
    if verdict == 'new':
        if error is not None:
            ctx.fail('connect', repr(error))
        # the state with nothing changed is also one that a crash leaves
        judge_all(ctx, rng, sim, copies, completed, node, what, seen, most)
        t.add(node)
        judge(ctx, rng, sim, watch.last, t.order[1:], None, what, seen)
    else:
        judge_all(ctx, rng, sim, copies, completed, None, what, seen, most)


@workload(64, 1600)
def histories(ctx, rng, i):
    '''Creation, then connections, then opening again.'''
    sim = setup(ctx, rng, i, 'h')
    watch, seen = Watch(ctx, sim.path), set()
    if i % 3 == 0:
        # An older file is there, of another checkpoint or content
        with open(sim.path, 'wb') as f:
            f.write(rng.choice([b'', b'\x08\0', rng.randbytes(300),
                                struct.pack('<HHI', 8, 0, 3) + rng.randbytes(240)]))
        watch = Watch(ctx, sim.path)
    (headers, error), copies = watch.run(sim.cls.from_file, sim.coin, sim.path, sim.tree.checkpoint)
    if error is not None:
        ctx.fail('creation', repr(error))
    sim.headers = headers
    judge_all(ctx, rng, sim, copies, [], None, 'creating', seen, 30)
    judge(ctx, rng, sim, watch.last, [], None, 'creating', seen)
    for _ in range(rng.choice([3, 6, 10])):
        k = rng.random()
        if k < 0.8:
            raw = sim.child(c30.pick_parent(rng, sim.tree))
        elif k < 0.9:
            raw = sim.child(rng.choice(sim.tree.order), kind=tree.HIGH)
        else:
            raw = rng.choice(sim.tree.order[1:] or [tree.Node(sim.child(rng.randbytes(32)), b'', 0, None, 0)]).raw
        traced_connect(ctx, rng, sim, watch, raw, seen, 6)
        if rng.random() < 0.15 and sim.tree.root.height > 1:
            h = rng.randrange(sim.tree.root.height - 1)
            _result, copies = watch.run(sim.headers.set_one, h, rng.randbytes(80))
            for _before, after in copies:
                judge(ctx, rng, sim, after, sim.tree.order[1:], None, 'setting', seen)
    sim.headers = None
    watch = Watch(ctx, sim.path)
    start = watch.last
    (headers, error), copies = watch.run(sim.cls.from_file, sim.coin, sim.path, sim.tree.checkpoint)
    if error is not None:
        ctx.fail('reopening', repr(error))
    judge_all(ctx, rng, sim, copies, sim.tree.order[1:], None, 'opening', seen, 6)
    ctx.n('crashes while opening')
    judge(ctx, rng, sim, start, sim.tree.order[1:], None, 'opening', set())
    ctx.sample(copies=len(seen), headers=len(sim.tree.order))
    sim.headers = headers
    sim.close()


@workload(8, 64)
def growth(ctx, rng, i):
    '''Where the file grows for the second time.'''
    sim = setup(ctx, rng, i, 'g', [0, 1, 7, 0][i % 4])
    sim.headers = sim.open()
    node = sim.extend(sim.tree.root, 4997)
    watch, seen = Watch(ctx, sim.path), set()
    for n in range(7):
        sizes = os.stat(sim.path).st_size
        raw = sim.child(sim.tree.order[-1] if n % 3 else rng.choice(sim.tree.order[-5:]))
        before = ctx.counters.get('crash points', 0)
        traced_connect(ctx, rng, sim, watch, raw, seen, 2)
        if os.stat(sim.path).st_size != sizes:
            ctx.n('crashes about growth', ctx.counters['crash points'] - before)
    sim.close()


@workload(32, 600)
def killed(ctx, rng, i):
    '''A child connects headers and reports each; it is killed.'''
    sim = setup(ctx, rng, i, 'k')
    twin = setup(ctx, rng, i, 'twin')
    twin.__dict__.update({k: v for k, v in sim.__dict__.items() if k != 'path'})
    twin.headers = twin.open()
    nodes = []
    start = 0 if i % 4 else 4990
    for _ in range(start + 400):
        parent = twin.tree.order[-1] if rng.random() < 0.8 else rng.choice(twin.tree.order[-30:])
        nodes.append(twin.connect(twin.child(parent))[1])
    twin.close()
    stop = start + rng.randrange(0, 60)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(0)
            headers = sim.cls.from_file(sim.coin, sim.path, sim.tree.checkpoint)
            os.write(w, b'o')
            for n, node in enumerate(nodes):
                headers.connect(node.raw)
                os.write(w, b'.')
        finally:
            os._exit(0)
    os.close(w)
    reported = b''
    while len(reported) < stop:
        got = os.read(r, stop - len(reported))
        if not got:
            break
        reported += got
    time.sleep(rng.random() * 0.002)
    os.kill(pid, signal.SIGKILL)
    while True:
        got = os.read(r, 65536)
        if not got:
            break
        reported += got
    os.close(r)
    os.waitpid(pid, 0)
    ctx.n('children killed')
    done = max(0, len(reported) - 1)
    current = nodes[done] if done < len(nodes) and reported else None
    data = Watch(ctx, sim.path).last
    ctx.sample(reported=done, size=data and len(data))
    ctx.seen('headers connected when killed', done)
    plain = [tree.Node(n.raw, n.hash, n.height, n.parent, 0) for n in nodes[:done]]
    judge(ctx, rng, sim, data, plain, current, 'connecting' if reported else 'creating', set())
    if os.path.exists(sim.path):
        os.unlink(sim.path)


@workload(24, 300)
def refused(ctx, rng, i):
    '''The system refuses to let the file grow.'''
    sim = setup(ctx, rng, i, 'r', rng.choice([0, 1, 20]))
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    seen = set()
    if i % 2:
        limit = rng.randrange(0, 8 + 80 * (sim.tree.root.height + 1))
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        try:
            headers, error = ctx.outcome(sim.open)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        ctx.ok(error is not None, 'creation succeeded under a file size limit', limit)
        ctx.n('creation refused')
        judge(ctx, rng, sim, Watch(ctx, sim.path).last, [], None, 'creating', seen)
        return
    sim.headers = sim.open()
    if rng.random() < 0.3:
        sim.extend(sim.tree.root, 5000)
    t = sim.tree
    size = os.stat(sim.path).st_size
    for _ in range(6000):
        node = t.order[-1]
        if 8 + 80 * t.len() < size:
            size = os.stat(sim.path).st_size
            sim.extend(node)
            continue
        raw = sim.child(node)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size + rng.randrange(0, 80), hard))
        try:
            _result, error = ctx.outcome(sim.headers.connect, raw)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        break
    else:
        ctx.fail('generator', 'the file never needed to grow')
    ctx.n('growth refused')
    new = tree.Node(raw, sim.coin.header_hash(raw), node.height + 1, node, node.work)
    if error is None:
        t.add(new)
        new = None
    judge(ctx, rng, sim, Watch(ctx, sim.path).last, t.order[1:], new, 'connecting', seen)
    os.unlink(sim.path)
