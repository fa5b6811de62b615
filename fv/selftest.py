"""the tools the checks need are present and z3 answers"""
import z3
import numpy
import scipy
import xarray

x = z3.Real("x")
s = z3.Solver()
s.add(x > 0, x < 0)
assert s.check() == z3.unsat
print("selftest ok: z3", z3.get_version_string(), "numpy", numpy.__version__, "scipy", scipy.__version__, "xarray", xarray.__version__)
