"""python3 -m rv.run C05 [--tier T] [--seed N] [--replay FILE] [--case N]"""
import argparse
import importlib
import json
import os
import sys

from . import core


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get(
        'VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get(
        'VERIF_SEED', '1') or 1))
    parser.add_argument('--replay')
    parser.add_argument('--case', type=int)
    args = parser.parse_args()

    # The same bytes, whatever the environment we are called from.
    for key in ('ALINT_IGNORE', 'PYTHONPATH', 'PYTHONWARNINGS'):
        os.environ.pop(key, None)
    if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.dont_write_bytecode:
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.execv(sys.executable, [
            sys.executable, '-m', 'rv.run'] + sys.argv[1:])

    # Everything is imported from the working tree of the repository, from
    # its sources.
    sys.pycache_prefix = os.path.join(core.WORK, 'none')
    sys.path.insert(0, core.REPO)
    sys.path.insert(1, os.path.join(core.VERIF, 'rv', 'stubs'))
    os.chdir(core.VERIF)
    sys.setrecursionlimit(1000)

    module = importlib.import_module('rv.checks.' + args.property.lower())
    if args.replay:
        with open(args.replay) as fp:
            replay = json.load(fp)
        if hasattr(module, 'prepare'):
            module.prepare(replay['tier'], replay['seed'])
        workload = module.Workload(replay['tier'], 0)
        case = core.run_case(
            workload, args.property, replay['seed'], replay['index'],
            core.unjson(replay['data']))
        if hasattr(workload, 'finish'):
            workload.finish()
        if hasattr(module, 'cleanup'):
            module.cleanup()
        for key, text in case.failures:
            print('-- {}: {}'.format(key, text))
        sys.exit(1 if case.failures else 0)
    only = None if args.case is None else [args.case]
    sys.exit(core.run_check(module, args.seed, args.tier, only=only))


if __name__ == '__main__':
    main()
