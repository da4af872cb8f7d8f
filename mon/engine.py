'''Workload runner, monitors' bookkeeping and verdicts.

A property module (mon/props/cNN.py) registers workloads with @workload; each is a function
fn(ctx, rng, i) that drives the real code in /repo and reports what it saw through ctx.
Every case has its own generator seeded from (seed, property, workload, i).
'''
import hashlib
import json
import mmap
import os
import pickle
import random
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPO_PKG = os.path.join(REPO, 'bitcoinx') + os.sep

CASE_ALARM = 60                 # seconds before the step counter is switched on
CASE_STEPS = 40_000_000         # repository lines executed after that: no progress
HARD_ALARM = 500                # seconds in one case: inconclusive

CRASHES = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP}
MAX_DISTINCT = 300_000          # counted per name and worker; a lower bound from there on


class Violation(Exception):
    def __init__(self, key, detail):
        super().__init__(f'[{key}] {detail}')
        self.key = key
        self.detail = detail


class NoProgress(BaseException):
    pass


class Inconclusive(BaseException):
    pass


def short(value, limit=300):
    try:
        text = repr(value)
    except Exception as e:   # a broken __repr__ must not hide the finding
        text = f'<unprintable {type(value).__name__}: {e!r}>'
    return text if len(text) <= limit else text[:limit] + f'...({len(text)})'


class Ctx:
    '''What the monitors report into.'''

    def __init__(self, prop, tier, seed, tmp):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.tmp = tmp
        self.thorough = tier == 'thorough'
        self.counters = {}
        self.distinct = {}
        self.evaluations = 0
        self.samples = []
        self.workload = None
        self.index = None

    # bookkeeping
    def n(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def seen(self, name, key):
        '''Count distinct keys under a name.'''
        if not isinstance(key, bytes):
            key = repr(key).encode('utf-8', 'surrogatepass')
        keys = self.distinct.setdefault(name, set())
        if len(keys) < MAX_DISTINCT:
            keys.add(hashlib.blake2b(key, digest_size=8).digest())

    def case(self, key=None, nontrivial=True):
        '''One input or execution judged by an oracle.'''
        self.evaluations += 1
        if nontrivial and key is not None:
            self.seen('@' + self.workload, key)

    def sample(self, **kw):
        if len([s for s in self.samples if s['workload'] == self.workload]) < 2:
            self.samples.append({'workload': self.workload, 'case': self.index,
                                 **{k: short(v, 200) for k, v in kw.items()}})

    # oracles
    def fail(self, key, detail):
        raise Violation(key, detail)

    def ok(self, cond, key, *detail):
        self.n('oracle checks')
        if not cond:
            raise Violation(key, ' '.join(d if isinstance(d, str) else short(d) for d in detail))

    def eq(self, got, want, key, *detail):
        self.n('oracle checks')
        if type(got) is bool or type(want) is bool:
            same = got is want
        else:
            same = got == want
            if type(want) is bytes and same and type(got).__name__ in ('bytearray', 'memoryview', 'buffer'):
                same = False        # what can be modified is not the value
        if not same:
            info = ' '.join(d if isinstance(d, str) else short(d) for d in detail)
            raise Violation(key, f'got {short(got)} want {short(want)} for {info}')

    def raises(self, types, key, fn, *args, **kwargs):
        self.n('oracle checks')
        try:
            result = fn(*args, **kwargs)
        except types as e:
            self.n('rejections observed')
            return e
        except Exception as e:
            raise Violation(key, f'raised {e!r} instead of {types} for args {short(args)} '
                            f'{short(kwargs)}') from e
        raise Violation(key, f'returned {short(result)} instead of raising {types} for args '
                        f'{short(args)} {short(kwargs)}')

    def outcome(self, fn, *args, **kwargs):
        '''The result, or the exception, of a call.'''
        try:
            return fn(*args, **kwargs), None
        except Exception as e:
            return None, e


class Workload:
    def __init__(self, fn, quick, thorough, single):
        self.fn, self.quick, self.thorough, self.single = fn, quick, thorough, single
        self.name = fn.__name__


def workload(quick, thorough=None, single=False):
    '''Register the decorated function, to be run this many times per tier.'''
    def decorate(fn):
        module = sys.modules[fn.__module__]
        if not hasattr(module, 'WORKLOADS'):
            module.WORKLOADS = []
        module.WORKLOADS.append(
            Workload(fn, quick, quick * 10 if thorough is None else thorough, single))
        return fn
    return decorate


def case_rng(seed, prop, name, i):
    return random.Random(f'{seed}/{prop}/{name}/{i}')


# ---- coverage of the repository's lines, and the progress watchdog

TOOL = 3
_lines = set()
_steps = 0
_counting = False


def _on_line(code, line):
    global _steps
    if not code.co_filename.startswith(REPO_PKG):
        return sys.monitoring.DISABLE
    if _counting:
        _steps += 1
        if _steps > CASE_STEPS:
            raise NoProgress(f'{CASE_STEPS:,d} further lines executed in the repository after '
                             f'{CASE_ALARM}s, last {code.co_filename}:{line}')
        return None
    _lines.add((code.co_filename[len(REPO_PKG):], line))
    return sys.monitoring.DISABLE


def start_coverage():
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'verif')
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    mon.set_events(TOOL, mon.events.LINE)


def _on_alarm(_signum, _frame):
    global _counting
    if _counting:
        raise Inconclusive(f'case still running after {HARD_ALARM}s')
    _counting = True
    sys.monitoring.restart_events()
    signal.alarm(HARD_ALARM - CASE_ALARM)


def _arm():
    global _steps, _counting
    _steps = 0
    _counting = False
    signal.alarm(CASE_ALARM)


def _disarm():
    global _counting
    signal.alarm(0)
    _counting = False


def run_case(module, work, ctx, i):
    '''Returns None or a violation dict.'''
    ctx.workload = work.name
    ctx.index = i
    rng = case_rng(ctx.seed, ctx.prop, work.name, i)
    _arm()
    try:
        work.fn(ctx, rng, i)
        return None
    except Violation as e:
        key, detail = e.key, e.detail
    except NoProgress as e:
        key, detail = 'no-progress', str(e)
    except RecursionError:
        key, detail = 'recursion', traceback.format_exc()[-1500:]
    except MemoryError:
        raise Inconclusive('out of memory')
    except (Exception, SystemExit):
        key, detail = 'unexpected-exception', traceback.format_exc()[-2500:]
    finally:
        _disarm()
    return {'property': ctx.prop, 'workload': work.name, 'seed': ctx.seed, 'tier': ctx.tier,
            'case': i, 'key': key, 'detail': detail}


TURN = 8        # seconds given to a workload before the next one has its turn


def run_slice(module, ctx, worker, workers, deadline, known, result, place):
    '''Run the worker's cases: first those of the quick tier of every workload, so that each is
    reached however short the time is, and then the others, taking turns.'''
    todo = []
    for number, work in enumerate(module.WORKLOADS):
        count = work.thorough if ctx.thorough else work.quick
        if work.single:
            indices = range(count) if number % workers == worker else ()
        else:
            indices = range((worker + number) % workers, count, workers)
        todo.append((number, work, iter(indices)))
    first = True
    while todo:
        rest = []
        for number, work, indices in todo:
            turn_ends = time.monotonic() + TURN
            for i in indices:
                now = time.monotonic()
                if now > deadline:
                    ctx.n('cases not run for lack of time', 1 + sum(1 for _ in indices))
                    break
                place[:8] = struct.pack('<II', number, i)
                violation = run_case(module, work, ctx, i)
                ctx.n(f'cases:{work.name}')
                if violation:
                    if violation['key'] in known:
                        result['known'].setdefault(violation['key'], violation)
                        ctx.n(f'known finding {violation["key"]}')
                    else:
                        result['violations'].append(violation)
                        return
                if i + workers >= work.quick if first and not work.single else now > turn_ends:
                    rest.append((number, work, indices))
                    break
        todo, first = rest, False


def worker_main(module, tier, seed, worker, workers, deadline, known, path, tmp, place):
    result = {'violations': [], 'known': {}, 'inconclusive': None}
    work_tmp = os.path.join(tmp, f'w{worker}')
    os.mkdir(work_tmp)
    ctx = Ctx(module.PROP, tier, seed, work_tmp)
    signal.signal(signal.SIGALRM, _on_alarm)
    try:
        start_coverage()
        run_slice(module, ctx, worker, workers, deadline, known, result, place)
    except Inconclusive as e:
        result['inconclusive'] = str(e)
    except NoProgress as e:    # outside a case
        result['inconclusive'] = f'watchdog: {e}'
    except BaseException:
        result['inconclusive'] = 'harness error: ' + traceback.format_exc()[-2000:]
    result.update(counters=ctx.counters, distinct=ctx.distinct, evaluations=ctx.evaluations,
                  samples=ctx.samples, lines=_lines)
    with open(path + '.part', 'wb') as f:
        pickle.dump(result, f)
    os.rename(path + '.part', path)


def load_known(prop):
    '''The mechanisms of recorded findings of this property.'''
    known = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            parts = line.strip().split(None, 3)
            if len(parts) == 4 and parts[0] == 'known:' and parts[1] == f'property={prop}':
                key = parts[2].partition('=')[2]
                known[key] = parts[3]
    return known


def executable_lines():
    '''{file: set of lines} that hold code, from the compiled source.'''
    result = {}
    for name in sorted(os.listdir(REPO_PKG)):
        if name.endswith('.py'):
            with open(os.path.join(REPO_PKG, name)) as f:
                todo = [compile(f.read(), name, 'exec')]
            lines = set()
            while todo:
                code = todo.pop()
                if code.co_flags & 1:      # function bodies only
                    lines.update(line for _s, _e, line in code.co_lines()
                                 if line and line != code.co_firstlineno)
                todo.extend(c for c in code.co_consts if hasattr(c, 'co_lines'))
            result[name] = lines
    return result


def run_property(module, tier, seed, workers, budget):
    started = time.monotonic()
    prop = module.PROP
    known = load_known(prop)
    tmp = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    deadline = started + budget
    try:
        pids = {}
        for worker in range(workers):
            path = os.path.join(tmp, f'result{worker}')
            place = mmap.mmap(-1, mmap.PAGESIZE)        # the case under way, seen here if it dies
            place[:8] = b'\xff' * 8
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    worker_main(module, tier, seed, worker, workers, deadline, known, path, tmp, place)
                    code = 0
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = path, place
        results, inconclusive, crashes = [], [], []
        for pid, (path, place) in pids.items():
            _, status = os.waitpid(pid, 0)
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    results.append(pickle.load(f))
            elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in CRASHES and place[:8] != b'\xff' * 8:
                number, i = struct.unpack('<II', place[:8])
                crashes.append({'property': prop, 'workload': module.WORKLOADS[number].name, 'seed': seed,
                                'tier': tier, 'case': i, 'key': 'crash', 'detail': 'the interpreter died of '
                                + signal.Signals(os.WTERMSIG(status)).name})
            else:
                inconclusive.append(f'worker ended with status {status} and no result')
            place.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    counters, distinct, samples, violations, found_known = {}, {}, [], crashes, {}
    evaluations, lines = 0, set()
    for r in results:
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r['distinct'].items():
            distinct.setdefault(k, set()).update(v)
        for s in r['samples']:
            if len([x for x in samples if x['workload'] == s['workload']]) < 2:
                samples.append(s)
        violations.extend(r['violations'])
        found_known.update(r['known'])
        evaluations += r['evaluations']
        lines |= r['lines']
        if r['inconclusive']:
            inconclusive.append(r['inconclusive'])

    if not violations:
        for name, minimum in getattr(module, 'REQUIRE', {}).items():
            have = len(distinct[name]) if name in distinct else counters.get(name, 0)
            if have < minimum:
                inconclusive.append(f'monitor not reached: {name} = {have} < {minimum}')

    code = executable_lines()
    by_file = {}
    for name, line in lines:
        if line in code.get(name, ()):
            by_file[name] = by_file.get(name, 0) + 1
    anchors = [os.path.basename(f) for f in getattr(module, 'FILES', [])]
    coverage = {
        'evaluations': evaluations,
        'distinct_nontrivial': sum(len(v) for k, v in distinct.items() if k.startswith('@')),
        'rule': module.RULE,
        'samples': sorted(samples, key=lambda s: s['workload'])[:24],
        'oracle_checks': counters.pop('oracle checks', 0),
        'observed': dict(sorted(counters.items())),
        'distinct_states_or_inputs': {k.lstrip('@'): len(v) for k, v in sorted(distinct.items())},
        'repository_lines_executed': {f: f'{by_file.get(f, 0)}/{len(code.get(f, ()))}'
                                      for f in (anchors or sorted(by_file))},
        'workers': workers,
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': module.LEVEL,
        'coverage': coverage, 'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.monotonic() - started, 2), 'violations': len(violations),
    }
    if inconclusive:
        evidence['assumptions'].append('INCONCLUSIVE: ' + '; '.join(inconclusive)[:1500])
    write_evidence(prop, evidence)

    for key in sorted(known):
        if key in found_known:
            print(f'KNOWN-FINDING: property={prop} {key}: {known[key]}')
    if violations:
        violations.sort(key=lambda v: (v['key'], v['workload'], v['case']))
        keys = set()
        for v in violations:
            if v['key'] in keys:
                continue
            keys.add(v['key'])
            path = write_replay(v)
            print(f'--- {prop} {v["workload"]} case {v["case"]} [{v["key"]}]\n{v["detail"]}')
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if inconclusive:
        print(f'INCONCLUSIVE property={prop}: ' + '; '.join(inconclusive)[:3000])
        return 2
    print(f'HELD property={prop} tier={tier} seed={seed}: {evaluations} executions judged, '
          f'{coverage["distinct_nontrivial"]} distinct, {coverage["oracle_checks"]} oracle '
          f'checks, {evidence["wall_s"]}s')
    return 0


def write_evidence(prop, evidence):
    directory = os.path.join(VERIF, 'evidence')
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, f'{prop}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.rename(path + '.tmp', path)


def write_replay(v):
    directory = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, f'{v["property"]}-{v["workload"]}-{v["seed"]}-{v["case"]}.json')
    with open(path, 'w') as f:
        json.dump(v, f, indent=1)
    return os.path.relpath(path, VERIF)


def replay(module, path):
    with open(path) as f:
        v = json.load(f)
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        ctx = Ctx(module.PROP, v['tier'], v['seed'], tmp)
        signal.signal(signal.SIGALRM, _on_alarm)
        start_coverage()
        work = next(w for w in module.WORKLOADS if w.name == v['workload'])
        again = run_case(module, work, ctx, v['case'])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if again:
        print(again['detail'])
        print(f'VIOLATION property={module.PROP} replay={path}')
        return 1
    print('the case does not fail now (cases that depend on earlier ones in the same process '
          'need the whole check)')
    return 0
