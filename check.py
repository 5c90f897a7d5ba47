#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property from /repo's current source."""
import importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, os.path.join(VERIF, 'checks'))
sys.setrecursionlimit(20000)
from report import Report
from build import Broken


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    rep = Report(prop, tier)
    try:
        importlib.import_module(prop.lower()).run(rep)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 3
    return rep.finish()


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(4)
