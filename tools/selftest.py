"""setup: the tools the checks need are there"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.engine.core import z3
import cvc5, numpy, scipy, menpo  # noqa: F401,E401
x = z3.Int('x')
s = z3.Solver()
s.add(x > x)
assert s.check() == z3.unsat
print('z3', z3.get_version_string(), 'cvc5', cvc5.__version__, 'numpy', numpy.__version__)
