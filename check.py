#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [quick|thorough]"""
import importlib
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, 'engine'), os.path.join(here, 'props')]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
try:
    seed = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    seed = 1
import runner
sys.exit(runner.main(pid, importlib.import_module(pid), tier, seed))
