import argparse
import importlib
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--workers', type=int)
    ap.add_argument('--budget', type=float, help='wall-clock limit in seconds')
    a = ap.parse_args()
    from . import core, target  # noqa: F401  (target imports md_toc from /repo)
    check = importlib.import_module('vp.checks.' + a.prop.lower()).CHECK
    if a.replay:
        return core.replay(check, a.replay)
    return core.run_check(check, a.seed, a.tier, a.workers, a.budget)


if __name__ == '__main__':
    sys.exit(main())
