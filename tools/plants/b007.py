ID = "b007"
PROPERTY = "C09"
NEEDS = "more points in Z than in R"
BREAKS = "von Hagenow's method doesn't set the upper part of the inner boundary"
EDITS = [("freegs/boundary.py", """            [(0, y, -eps, 0.0) for y in range(ny)],  # Left boundary
""", """            [(0, y, -eps, 0.0) for y in range(nx)],  # Left boundary
""")]
DEMO = '''
import numpy as np, freegs, sys
from freegs import boundary
eq = freegs.Equilibrium(Rmin=0.2, Rmax=1.8, Zmin=-1, Zmax=1, nx=17, ny=33)
J = 1e5 * np.exp(-((eq.R - 1) ** 2 + (eq.Z - 0.2) ** 2) / 0.04)
a, b = np.zeros((17, 33)), np.zeros((17, 33))
boundary.freeBoundary(eq, J, a)
boundary.freeBoundaryHagenow(eq, J, b)
err = np.max(np.abs(a - b)[0, 1:-1]) / np.max(np.abs(a))
print(err)
sys.exit(0 if err < 0.05 else 1)
'''
