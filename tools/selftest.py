"""Setup: nothing is built ahead of time (every check re-reads /repo); confirms that the solver and the engine load."""
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, here)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402
from symnp import harness, loader  # noqa: E402,F401

os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
s = z3.Solver()
x = z3.Real('x')
s.add(x * x < 0)
assert s.check() == z3.unsat
print('z3', z3.get_version_string(), 'engine loaded, repository at', loader.REPO)
