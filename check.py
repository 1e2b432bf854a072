#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current sources."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dv import frame
if __name__ == '__main__':
    try:
        rc = frame.main(sys.argv)
    except SystemExit:
        raise
    sys.stdout.flush()
    sys.exit(rc)
