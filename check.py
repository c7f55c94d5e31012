#!/usr/bin/env python3
"""check.py ID | setup | replay PATH"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
from common import *


def main():
    if sys.argv[1] == 'setup':
        build_shim()
        build('plain')
        build('asan')
        return 0
    if sys.argv[1] == 'replay':
        import engine
        engine.replay(sys.argv[2])
        return 0
    import checks
    try:
        return checks.run(sys.argv[1])
    except CheckError as e:
        print('ERROR: the check could not be carried out: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
