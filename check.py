#!/usr/bin/env python3-vt
"""Usage: python3-vt /verif/check.py <PROPERTY> [--tier quick|thorough] [--only REGEX] | --replay FILE"""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
try:
    import z3   # noqa: F401
except ImportError:         # started with another interpreter
    os.execvp('python3-vt', ['python3-vt'] + sys.argv)
sys.path[:0] = [ROOT, os.path.join(REPO, 'src'), '/opt/venv/lib/python3.12/site-packages']
from vf import run      # noqa: E402

if __name__ == '__main__':
    try:
        if sys.argv[1] == '--selftest':
            rc = run.selftest()
        elif sys.argv[1] == '--replay':
            rc = run.replay(sys.argv[2])
        else:
            rc = run.main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        sys.stdout.flush()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
