#!/usr/bin/env python3
"""run.py <property id> : carry out the check of one property (VERIF_SEED, VERIF_TIER)."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core


def main():
    pid = sys.argv[1]
    try:
        if pid == 'setup':
            core.build_pex()
            core.build_hlc()
            return
        m = importlib.import_module('checks.' + pid.lower())
        rc = m.main()
    except core.CheckError as e:
        print('CHECK-ERROR %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
