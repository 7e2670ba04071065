#!/usr/bin/env python3
"""Entry point of all checks: run.py CXX [--tier quick|thorough] [--replay FILE] [--workers N] [-v]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core  # noqa: E402

if __name__ == '__main__':
    core.ensure_environment(sys.argv[1:])
    a = argparse.ArgumentParser()
    a.add_argument('check')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a.add_argument('--replay')
    a.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1))
    a.add_argument('-v', action='store_true')
    o = a.parse_args()
    sys.exit(core.run(o.check, o.tier, int(os.environ.get('VERIF_SEED', '1')), o.workers, o.replay, o.v))
