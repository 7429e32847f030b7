#!/usr/bin/env python3
"""python3 rv/run.py <property id> [--replay file]: run one check (VERIF_TIER, VERIF_SEED)."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa

if __name__ == '__main__':
    try:
        code = core.main(sys.argv[1], sys.argv[2:])
    except Exception:
        import traceback
        traceback.print_exc()
        print('HARNESS ERROR')
        code = 3
    sys.stdout.flush()
    sys.exit(code)
