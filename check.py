#!/usr/bin/env python3
"""check.py Pxx [quick|thorough]: decide one property from /repo's current source."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True
from common import Check, Broken


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    m = importlib.import_module(prop.lower())
    chk = Check(prop, tier, m.RULE)
    try:
        m.run(chk)
    except Broken as e:
        print('ANALYSIS BROKEN:', e)
        if not chk.viol:
            return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS BROKEN: internal error')
        if not chk.viol:
            return 2
    return chk.finish()


if __name__ == '__main__':
    sys.exit(main())
