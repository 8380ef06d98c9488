#!/usr/bin/env python3
"""Decide one property:  ./run.py <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED)"""
import os
import sys
import traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.dont_write_bytecode = True
import common
import properties


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = 'thorough' if tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    o = common.Outcome(prop)
    p = properties.PROPS[prop]
    try:
        p.run(o, tier, seed)
    except Exception:
        traceback.print_exc()
        o.error('the analysis failed: ' + traceback.format_exc().strip().splitlines()[-1])
    return common.finish(o, tier, seed, p.explanation)


if __name__ == '__main__':
    sys.exit(main())
