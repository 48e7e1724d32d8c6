#!/usr/bin/env python3
"""run.py PID [--replay FILE] [--only SUB[,SUB]] [--scale X] [--workers N]

Tier and seed are taken from VERIF_TIER (quick, thorough) and VERIF_SEED.
"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from pbt import boot  # noqa: E402


def parse():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--tier', choices=['quick', 'thorough'])
    return ap.parse_args()


if __name__ == '__main__':
    args = parse()
    tier = args.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    if os.environ.get('REOR_PBT_CHILD') != '1':
        os.execve(boot.PYTHON, [boot.PYTHON, '-s', '-W', 'ignore'] +
                  [os.path.abspath(__file__)] + sys.argv[1:],
                  boot.clean_env(seed, tier))
    boot.install()
    from pbt import core
    if args.replay:
        sys.exit(core.replay(args.pid, args.replay))
    sys.exit(core.main(args.pid, tier, seed, workers=args.workers,
                       only=args.only.split(',') if args.only else None,
                       scale=args.scale))
