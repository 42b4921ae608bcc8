#!/usr/bin/env python3
"""run_check.py <ID> [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
   run_check.py replay <file>
   run_check.py determinism <ID> [--seed N] [--runs N]   same seed, 1 and 8 workers: same digests
"""
import argparse
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    p = argparse.ArgumentParser()
    p.add_argument('what')
    p.add_argument('arg', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--runs', type=int)
    p.add_argument('--start', type=int, default=0)
    p.add_argument('--workers', type=int, default=8)
    p.add_argument('--wall', type=float)
    a = p.parse_args()
    from sim import kernel
    try:
        if a.what == 'replay':
            return kernel.replay(a.arg)
        if a.what == 'determinism':
            first, second = {}, {}
            runs = a.runs or 64
            kernel.run_check(a.arg, a.tier, a.seed, runs, 8, digests=first, wall=3600)
            kernel.run_check(a.arg, a.tier, a.seed, runs, 1, digests=second, wall=3600)
            bad = sorted(k for k in set(first) | set(second) if first.get(k) != second.get(k))
            print('{}: {} runs twice, {} differ {}'.format(a.arg, len(first), len(bad), bad[:10]))
            return 1 if bad else 0
        return kernel.run_check(a.what.upper(), a.tier, a.seed, a.runs, a.workers, a.wall, start=a.start)
    except kernel.HarnessError as e:
        print('HARNESS ERROR: {}'.format(e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
