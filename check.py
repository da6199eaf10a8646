#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property
statically on the current source of /repo."""
import importlib
import os
import sys
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':      # same iteration order of sets in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.index import Index, AnalysisBroken   # noqa: E402
from sa import report                        # noqa: E402


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    try:
        mod = importlib.import_module('sa.rules.' + prop.lower())
        ix = Index()
        res = mod.run(ix, tier)
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={prop} {e}')
        return 3
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={prop} internal error')
        return 3
    return report.finish(prop, res, tier, seed, time.time() - t0, mod.__doc__ or '')


if __name__ == '__main__':
    sys.exit(main())
