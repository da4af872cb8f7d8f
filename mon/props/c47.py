import errno
import gc
import os
import resource
import sys

import bitcoinx as bx
import engine
import tree
from engine import workload
from props import c26, c30
from tree import Sim

PROP, LEVEL = 'C47', 'fault_enumeration'
FILES = ['chain.py', 'util.py', 'mnemonic.py', 'misc.py']
RULE = ('random histories on collections of headers about the points where their files grow, in which the system '
        'refuses: the opening of a file, the mapping of one (an audit hook refuses the n-th), further descriptors, or '
        'files beyond a size (resource limits). What is refused must raise OSError and change nothing: the collection '
        'is compared with the model, the same is done again without the refusal, the file is opened anew and compared '
        'with the model, and the descriptors are counted. Distinct by (fault, operation, state).')
REQUIRE = {'refusals': 700, 'refused: connect': 150, 'refused: open': 150, 'refused: create': 60, 'refused: word list': 15,
           'faults': 4, 'operations under a fault': 2500, 'openings after a refusal': 600,
           'connected after a refusal': 150, 'forks in it': 200, 'refused growths': 150, 'bytes of the file compared': 150}
ASSUMPTIONS = ['the system refuses to open, map or extend a file; it does not fail to write to one that is mapped']

armed = None        # [event, how many to let pass, number of the error]
refusals = 0
ERRORS = [errno.EMFILE, errno.ENFILE, errno.EACCES, errno.EIO, errno.ENOMEM, errno.EINTR, errno.EPERM, errno.EAGAIN]


def hook(event, args):
    global refusals
    if armed is None or event != armed[0]:
        return
    if event == 'open' and not (isinstance(args[0], (str, bytes, os.PathLike)) and os.fspath(args[0]) == armed[3]):
        return
    if armed[1] == 0:
        refusals += 1
        raise OSError(armed[2], os.strerror(armed[2]))
    armed[1] -= 1


installed = False


class Fault:
    '''What the system refuses for a while.'''
    def __init__(self, rng, path):
        global installed
        if not installed:
            sys.addaudithook(hook)
            installed = True
        self.kind = rng.choice(['open', 'open', 'map', 'map', 'descriptors', 'size'])
        self.args = [{'open': 'open', 'map': 'mmap.__new__'}.get(self.kind), rng.choice([0, 0, 0, 1]), rng.choice(ERRORS), path]
        self.size = rng.choice([0, 8, 80, 88, 4096])

    def __enter__(self):
        global armed
        if self.kind == 'descriptors':
            self.limit = resource.getrlimit(resource.RLIMIT_NOFILE)
            used = {int(fd) for fd in os.listdir('/proc/self/fd')}
            free = next(n for n in range(10**6) if n not in used)
            # The listing had one of its own
            resource.setrlimit(resource.RLIMIT_NOFILE, (min(free, max(used)), self.limit[1]))
        elif self.kind == 'size':
            self.limit = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.size, self.limit[1]))
        else:
            armed = self.args

    def __exit__(self, *_args):
        global armed
        armed = None
        if self.kind == 'descriptors':
            resource.setrlimit(resource.RLIMIT_NOFILE, self.limit)
        elif self.kind == 'size':
            resource.setrlimit(resource.RLIMIT_FSIZE, self.limit)


def attempt(ctx, rng, name, path, fn):
    '''Do it under a fault.  Returns (whether the system refused, result, exception)'''
    fault = Fault(rng, path)
    ctx.n('operations under a fault')
    with fault:
        try:
            result, error = fn(), None
        except Exception as e:
            result, error = None, e
            e.__traceback__ = None
    refused = isinstance(error, OSError)
    if refused:
        ctx.n('refusals')
        ctx.n('refused: ' + name)
        ctx.seen('faults', fault.kind)
    return refused, result, error


def descriptors():
    gc.collect()
    return len(os.listdir('/proc/self/fd'))


def trim(sim):
    '''Close, cut the file to what is used, and open again.'''
    tree.close(sim.headers)
    sim.headers = None
    with open(sim.path, 'r+b') as f:
        f.truncate(8 + 80 * sim.tree.len())
    sim.headers = sim.open()


@workload(150, 9000)
def refusals_of(ctx, rng, i):
    height = rng.choice([0, 0, 1, 10, 600])
    before = descriptors()
    sim = Sim(ctx, rng, os.path.join(ctx.tmp, f'r{i}'), height, rng.choice([None, None, b'\x11\x22']),
              rng.choice(['constant', 'timestamp', 'branch']), rng.choice([None, None, 3]))
    t = sim.tree
    for _ in range(rng.choice([0, 5, 40])):
        c30.step(ctx, rng, sim)
    for _ in range(8):
        if rng.random() < 0.8:
            trim(sim)
        ctx.n('forks in it', len(t.chains) - 1)
        for _ in range(rng.choice([1, 2, 4])):
            about = i, len(t.order)
            k = rng.randrange(8)
            if k < 4:
                # a new header, or one that is refused in any case
                raw = sim.child(rng.choice([t.chains[-1].tip, rng.choice(t.order)]),
                                kind=rng.choice([tree.LOW] * 4 + [tree.HIGH]))
                verdict, node, _required = t.judge(raw)
                before_ = sim.file_bytes()[8:8 + 80 * t.len()]
                refused, got, error = attempt(ctx, rng, 'connect', sim.path, lambda: sim.headers.connect(raw))
                if refused:
                    ctx.n('refused growths')
                    ctx.eq(verdict, 'new', 'system refused a header that is not stored', error)
                    tree.check_state(ctx, rng, sim.headers, t, 10, 2, 4)
                    ctx.eq(sim.file_bytes()[8:8 + 80 * t.len()], before_, 'headers in the file after a refusal')
                    # In any order
                    for again in rng.sample([raw, sim.child(rng.choice(t.order))], 2):
                        sim.connect(again, 'connect after a refusal')
                        ctx.n('connected after a refusal')
                elif verdict == 'new':
                    ctx.ok(error is None, 'connect', f'new header raised {error!r}')
                    t.add(node)
                    tree.check_header(ctx, got[0], node, 'connect')
                else:
                    ctx.ok(error is not None and not isinstance(error, OSError), 'connect', verdict, error)
            elif k < 6:
                data = sim.file_bytes()
                refused, other, error = attempt(ctx, rng, 'open', sim.path, sim.open)
                ctx.ok(error is None or refused, 'opening', f'raised {error!r}')
                ctx.eq(sim.file_bytes(), data, 'file after an opening that the system refused', refused)
                ctx.n('bytes of the file compared', refused)
                if other is not None:
                    tree.check_state(ctx, rng, other, t, 10, 2, 4)
                    tree.close(other)
            elif k == 6:
                path = sim.path + '-new'
                refused, other, error = attempt(ctx, rng, 'create', path,
                                                lambda: sim.cls.from_file(sim.coin, path, t.checkpoint))
                ctx.ok(error is None or refused, 'creation', f'raised {error!r}')
                if other is not None:
                    tree.close(other)
                other = sim.cls.from_file(sim.coin, path, t.checkpoint)
                ctx.eq(len(other), height + 1, 'length of a new collection', refused)
                tree.check_header(ctx, other.longest_chain().tip, t.root, 'new collection')
                node = t.order[1] if len(t.order) > 1 else None
                if node is not None:
                    header, _chain = other.connect(node.raw)
                    tree.check_header(ctx, header, node, 'new collection')
                tree.close(other)
                os.unlink(path)
            else:
                def queries():
                    tree.check_state(ctx, rng, sim.headers, t, 5, 2, 2)
                    sim.headers.flush()
                refused, _, error = attempt(ctx, rng, 'query', sim.path, queries)
                if error is not None and not refused:
                    raise error
                ctx.ok(not refused, 'query', error)
            ctx.case((about, k, refused))
        # What is in the file
        tree.check_state(ctx, rng, sim.headers, t, 10, 2, 4)
        other = sim.open()
        tree.check_state(ctx, rng, other, t, 10, 2, 4)
        tree.close(other)
        ctx.n('openings after a refusal')
    sim.close()
    sim.headers = other = got = error = None
    ctx.eq(descriptors(), before, 'open descriptors')


@workload(140, 2800)
def word_lists(ctx, rng, i):
    '''A list that cannot be read is not taken for one that can.'''
    from bitcoinx import Wordlists
    count = rng.choice([2048, 2048, 2048, 2047])
    text, words = c26.list_text(rng, count)
    path = os.path.join(ctx.tmp, f'list{i}-{rng.randrange(1 << 30)}.txt')
    before = descriptors()
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    for k in range(rng.choice([1, 2, 3])):
        refused, got, error = attempt(ctx, rng, 'word list', path, lambda: Wordlists.bip39_wordlist(path))
        ctx.case((text, k, refused))
        if refused:
            continue
        if count == 2048:
            ctx.ok(error is None and list(got) == words, 'word list', error)
        else:
            ctx.ok(isinstance(error, SyntaxError), 'word list', error)
    if count == 2048:
        ctx.eq(list(Wordlists.bip39_wordlist(path)), words, 'words after a refusal')
    else:
        ctx.raises(SyntaxError, 'list of another size', Wordlists.bip39_wordlist, path)
    os.unlink(path)
    ctx.eq(descriptors(), before, 'open descriptors')
