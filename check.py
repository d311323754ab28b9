#!/usr/bin/env python3
"""Static check of one property: python3 check.py C01 [--tier thorough]."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.prog import BrokenAnalysis  # noqa: E402
from sa import rules  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        mod = importlib.import_module('sa.props.%s' % prop.lower())
        return rules.run(prop, mod.check, tier, seed)
    except BrokenAnalysis as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 2


if __name__ == '__main__':
    sys.exit(main())
