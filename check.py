#!/opt/venv/bin/python
"""Run the check of one property:  check.py C01 [--replay FILE] [--cases N] [--jobs N] [--log FILE]"""
import sys, os, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'dst'))
sys.dont_write_bytecode = True
import runner

if __name__ == '__main__':
    mod = importlib.import_module('props.' + sys.argv[1].lower())
    sys.exit(runner.main(mod.P, sys.argv[2:]))
