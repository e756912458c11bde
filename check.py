#!/usr/bin/env python3
"""check.py ID [quick|thorough]: runs one property's check against /repo."""
import os, sys
os.environ['VERIF_TIER'] = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'lib'))
sys.dont_write_bytecode = True
if sys.argv[1][0] == 'P' and not sys.executable.startswith('/opt/veriftools/pyvenv'):
    # the Python checks need the z3 bindings, and a fixed hash seed for re-execution
    os.environ.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    os.execv('/opt/veriftools/pyvenv/bin/python', ['/opt/veriftools/pyvenv/bin/python', os.path.abspath(__file__)] + sys.argv[1:])
path = os.path.join(here, 'checks', sys.argv[1] + '.py')
exec(compile(open(path).read(), path, 'exec'), {'__name__': '__main__', '__file__': path})
