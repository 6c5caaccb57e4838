# coding: utf-8
"""setup_cmd: verifies that the library can be imported from the current tree and that every world of the simulator loads"""
import glob
import importlib
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from sim import env
env.setup()
for f in sorted(glob.glob(os.path.join(HERE, 'sim', 'worlds', 'c*.py'))):
	importlib.import_module('sim.worlds.' + os.path.basename(f)[:-3])
env.teardown()
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print("ok")
