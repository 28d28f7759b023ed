"""setup: checks that the interpreter, the solver and the code under test are there"""
import sys, os
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, z3, astropy, scipy
assert os.path.isdir("/repo/pixell")
s = z3.Solver(); x = z3.Int("x"); s.add(x > 2, x < 4); assert s.check() == z3.sat
print("ok: python", sys.version.split()[0], "numpy", numpy.__version__, "z3", z3.get_version_string())
