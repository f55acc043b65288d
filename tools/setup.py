"""Checks that the interpreter, Z3 and the libraries the verifier needs are present (nothing is installed)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from engine import smt  # noqa
import numpy, sympy, astropy, scipy, mpmath  # noqa
print("ok")
