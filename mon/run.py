import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

import engine    # noqa: E402
import taps      # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                        choices=('quick', 'thorough'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--workers', type=int, default=max(1, min(8, os.cpu_count() or 1)))
    parser.add_argument('--budget', type=float)
    parser.add_argument('--replay')
    args = parser.parse_args()

    taps.install()
    if args.prop == 'C40':
        import cmon
        cmon.install()
    sys.path.insert(0, engine.REPO)
    import bitcoinx
    where = os.path.dirname(os.path.abspath(bitcoinx.__file__))
    if where != os.path.join(engine.REPO, 'bitcoinx'):
        print(f'INCONCLUSIVE: bitcoinx was imported from {where}')
        return 3

    module = importlib.import_module(f'props.{args.prop.lower()}')
    if args.replay:
        return engine.replay(module, args.replay)
    budget = args.budget or (600 if args.tier == 'quick' else 700)
    return engine.run_property(module, args.tier, args.seed, args.workers, budget)


if __name__ == '__main__':
    sys.exit(main())
