import importlib
import os
import pickle
import subprocess
import sys
import engine
from engine import workload
from props import c35

PROP, LEVEL = 'C39', 'exploration'
FILES = sorted(f for f in os.listdir(engine.REPO_PKG) if f.endswith('.py') and f != '__init__.py')
RULE = ('new interpreters in 13 configurations (assertions or docstrings off, other hash seeds, time zones, '
        'encodings and locales, UTF-8 mode, development mode with the debug allocator, freed memory overwritten, '
        'collection at nearly every allocation, short decimal conversions, isolated, '
        'another directory) run cases of the workloads of the other checks, judged there by their oracles, and '
        'the operations of C35, whose results are compared with those here. A case counts against this property '
        'when the same cases pass in the usual configuration. Distinct by (configuration, case).')
REQUIRE = {'configurations confirmed': 13, 'cases in a configuration': 1800, 'workloads in a configuration': 900,
           'properties in a configuration': 350, 'oracle checks in a configuration': 100000,
           'operations compared': 2500}
ASSUMPTIONS = ['one version of CPython, on one platform; locales that are not installed here are not tried']

# Crashes, threads and processes of their own; and this one
NOT = {'C26', 'C33', 'C34', 'C35', 'C39', 'C40'}
# Results that hold hash values of text, random by design
HASHES = {'priv_hash', 'pub_hash', 'output_hashes', 'script_text', 'sig_parts'}
ZONES = ['Asia/Kolkata', 'America/St_Johns', 'XYZ+11:45', 'ABC-13', 'Europe/London', 'EST5EDT,M3.2.0,M11.1.0']
CONFIGS = [
    # name, flags, environment, what the interpreter must say of itself
    ('assertions off', ['-O'], {}, lambda s: not s['assertions']),
    ('docstrings off', ['-OO'], {}, lambda s: not s['assertions'] and not s['docstrings']),
    ('hash seed', [], {'PYTHONHASHSEED': '{n}'}, lambda s: s['hash'] != hash('configuration')),
    ('time zone', [], {'TZ': '{zone}'}, lambda s: s['zone'] != ('UTC', 'UTC')),
    ('ASCII', [], {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
     lambda s: s['encoding'].lower() not in ('utf-8', 'utf8')),
    ('UTF-8 mode', ['-X', 'utf8'], {'LC_ALL': 'C'}, lambda s: s['utf8'] == 1),
    ('Latin-1 output', [], {'PYTHONIOENCODING': 'latin-1', 'LC_ALL': 'POSIX', 'LANG': 'tr_TR'},
     lambda s: s['locale'] == 'POSIX'),
    ('development', ['-X', 'dev'], {'PYTHONMALLOC': 'debug'}, lambda s: s['dev'] and s['malloc'] == 'debug'),
    ('memory overwritten', [], {'PYTHONMALLOC': 'malloc', 'MALLOC_PERTURB_': '165'},
     lambda s: s['malloc'] == 'malloc'),
    ('collection', [], {}, lambda s: True),
    ('short decimals', ['-X', 'int_max_str_digits=640'], {}, lambda s: s['digits'] == 640),
    ('isolated', ['-I'], {}, lambda s: s['isolated'] == 1),
    ('directory', [], {'HOME': '/nonexistent', 'PWD': '/nonexistent'}, lambda s: s['directory'] == '/'),
]


def run(ctx, rng, n, job):
    '''The outcome of a job in configuration n; None is the usual one.'''
    flags, env, name = [], dict(os.environ), 'usual'
    if n is not None:
        name, flags, extra, _ = CONFIGS[n]
        zone, number = rng.choice(ZONES), str(rng.randrange(1, 1 << 32))
        env.update({k: v.format(n=number, zone=zone) for k, v in extra.items()})
    env['VERIF_REPO'] = engine.REPO
    path = os.path.join(ctx.tmp, 'sub')
    if os.path.exists(path):
        os.remove(path)
    job = dict(job, path=path, tmp=ctx.tmp, tier='quick', seed=ctx.seed,
               collect=(rng.choice([1, 3, 10]), 2, 2) if name == 'collection' else None)
    argv = [sys.executable, '-B', *flags, os.path.join(engine.VERIF, 'mon', 'sub.py')]
    if '-I' in flags:    # the environment is not read
        argv[1:1] = ['-W', 'ignore']
    try:
        p = subprocess.run(argv, input=pickle.dumps(job), env=env, cwd='/' if name == 'directory' else ctx.tmp,
                           capture_output=True, timeout=240)
    except subprocess.TimeoutExpired:
        raise engine.Inconclusive(f'configuration {name}: no end after 240 s: {job.get("cases")}')
    if not os.path.exists(path):
        return name, None, f'exit {p.returncode}: {p.stderr[-1500:].decode(errors="replace")}'
    with open(path, 'rb') as f:
        out = pickle.load(f)
    if out['inconclusive']:
        raise engine.Inconclusive(f'configuration {name}: {out["inconclusive"]}')
    if not out['where'].startswith(engine.REPO_PKG):
        raise engine.Inconclusive(f'bitcoinx imported from {out["where"]}')
    return name, out, out['saw']


def judge(ctx, rng, n, job):
    '''Run a job in configuration n, and when it fails in the usual one too.'''
    name, out, saw = run(ctx, rng, n, job)
    if out is None:
        again = run(ctx, rng, None, job)
        if again[1] is None:
            ctx.n('jobs that fail in the usual configuration')
            return None
        ctx.fail('configuration: ' + name, f'no result, {saw}; in the usual configuration there is')
    ctx.ok(CONFIGS[n][3](saw), 'harness: the configuration was not in effect', name, saw)
    ctx.seen('configurations confirmed', name)
    return out


def cases(rng, modules, each):
    result = []
    for prop in modules:
        module = importlib.import_module(f'props.{prop.lower()}')
        for work in module.WORKLOADS:
            for _ in range(min(each, work.quick)):
                result.append((prop, work.name, rng.randrange(work.quick)))
    rng.shuffle(result)
    return result


def all_props():
    here = os.path.dirname(os.path.abspath(__file__))
    return [p for p in sorted(f[:3].upper() for f in os.listdir(here) if f[0] == 'c' and f.endswith('.py'))
            if p not in NOT]


@workload(52, 650)
def other_checks(ctx, rng, i):
    n = i % len(CONFIGS)
    props = all_props()
    # four jobs of a configuration see all properties, three times
    part = i // len(CONFIGS) % 4
    job = {'kind': 'checks', 'seconds': 40 if ctx.thorough else 20,
           'cases': cases(rng, [p for k, p in enumerate(props) if (k + n) % 4 == part], 3)}
    out = judge(ctx, rng, n, job)
    if out is None:
        return
    name = CONFIGS[n][0]
    for prop, work, index, evaluations, oracle in out['done']:
        ctx.case((name, prop, work, index))
        ctx.n('cases in a configuration')
        ctx.n('oracle checks in a configuration', oracle)
        ctx.n('executions judged in a configuration', evaluations)
        ctx.seen('workloads in a configuration', (name, prop, work))
        ctx.seen('properties in a configuration', (name, prop))
    ctx.sample(configuration=name, cases=out['done'][:3], interpreter=out['saw'])
    if out['violation']:
        v = out['violation']
        upto = [c[:3] for c in out['done']]
        usual = run(ctx, rng, None, {**job, 'cases': upto, 'seconds': 200})[1]
        if usual is None or usual['violation']:
            ctx.n('cases that fail in the usual configuration')
            return
        if len(usual['done']) < len(upto):
            raise engine.Inconclusive('too slow in the usual configuration')
        ctx.fail('configuration: ' + name, f'{v["property"]} {v["workload"]} case {v["case"]} [{v["key"]}] '
                 f'{v["detail"]}; the same cases pass in the usual configuration')


@workload(26, 260)
def operations(ctx, rng, i):
    n = i % len(CONFIGS)
    tags = [f'{ctx.seed}-{i}-{k}' for k in range(3 if ctx.thorough else 1)]
    skip = HASHES | (set() if i < len(CONFIGS) else c35.SLOW)
    out = judge(ctx, rng, n, {'kind': 'operations', 'tags': tags, 'skip': skip})
    if out is None:
        return
    for tag in tags:
        wanted = c35.alone(tag, [k for k in c35.OPS if k not in skip])
        got = out['results'][tag]
        for op, want in wanted.items():
            ctx.n('operations compared')
            ctx.case((CONFIGS[n][0], op, tag))
            if got[op] != want:
                again = c35.alone(tag, [op])[op]
                if again != want:
                    ctx.n('operations that vary by themselves')
                    continue
                ctx.fail('configuration: ' + CONFIGS[n][0], f'{op} gives {engine.short(got[op], 500)}, '
                         f'usually {engine.short(want, 500)}')
