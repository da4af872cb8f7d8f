'''Run by the configuration check (C39) in an interpreter of another configuration: reads a job on standard
input, runs the cases of other checks in it, or the operations of C35, and writes what they observed.'''
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

import gc           # noqa: E402
import importlib    # noqa: E402
import pickle       # noqa: E402
import signal       # noqa: E402
import tempfile     # noqa: E402
import shutil       # noqa: E402
import time         # noqa: E402

import engine       # noqa: E402
import taps         # noqa: E402


def checks(job, out, tmp):
    signal.signal(signal.SIGALRM, engine._on_alarm)
    engine.start_coverage()
    deadline = time.monotonic() + job['seconds']
    for prop, name, index in job['cases']:
        if time.monotonic() > deadline:
            break
        module = importlib.import_module(f'props.{prop.lower()}')
        ctx = engine.Ctx(prop, job['tier'], job['seed'], tempfile.mkdtemp(dir=tmp))
        work = next(w for w in module.WORKLOADS if w.name == name)
        violation = engine.run_case(module, work, ctx, index)
        known = engine.load_known(prop)
        if violation and violation['key'] in known:
            violation = None
        out['done'].append((prop, name, index, ctx.evaluations, ctx.counters.get('oracle checks', 0)))
        if violation:
            out['violation'] = violation
            break


def operations(job, out):
    from props import c35
    for tag in job['tags']:
        out['results'][tag] = c35.alone(tag, [n for n in c35.OPS if n not in job['skip']])


def main():
    job = pickle.loads(sys.stdin.buffer.read())
    taps.install()
    sys.path.insert(0, engine.REPO)
    import bitcoinx
    assert_on = False
    assert (assert_on := True)
    out = {'done': [], 'violation': None, 'results': {}, 'inconclusive': None, 'where': bitcoinx.__file__,
           'saw': {'assertions': assert_on, 'docstrings': bitcoinx.Script.__doc__ is not None,
                   'hash': hash('configuration'), 'utf8': sys.flags.utf8_mode, 'zone': time.tzname,
                   'dev': sys.flags.dev_mode,
                   'digits': sys.get_int_max_str_digits(), 'locale': os.environ.get('LC_ALL'),
                   'directory': os.getcwd(), 'malloc': os.environ.get('PYTHONMALLOC'),
                   'isolated': sys.flags.isolated, 'encoding': open(os.devnull).encoding}}
    if job['collect']:
        gc.set_threshold(*job['collect'])
    tmp = tempfile.mkdtemp(dir=job['tmp'])
    try:
        if job['kind'] == 'checks':
            checks(job, out, tmp)
        else:
            operations(job, out)
    except (engine.Inconclusive, engine.NoProgress) as e:
        out['inconclusive'] = repr(e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    with open(job['path'], 'wb') as f:
        pickle.dump(out, f)


if __name__ == '__main__':
    main()
