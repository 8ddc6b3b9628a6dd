ID = "b038"
PROPERTY = "C17"
NEEDS = "find_safety given the X-points, but not the axis"
BREAKS = "find_safety fails if only one of O- and X-points is given"
EDITS = [("freegs/critical.py", """    if (opoint is None) or (xpoint is None):
        opoint, xpoint = find_critical(eq.R, eq.Z, psi)

    if eq.psi_bndry""", """    if (opoint is None) and (xpoint is None):
        opoint, xpoint = find_critical(eq.R, eq.Z, psi)

    if eq.psi_bndry""")]
DEMO = '''
import sys, numpy as np, freegs
from freegs import machine, critical, jtor
from freegs.coil import Coil
R, Z = np.meshgrid(np.linspace(0.3, 1.7, 65), np.linspace(-1.4, 1.4, 65), indexing="ij")
t = machine.Machine([("A", Coil(1.0, 1.6, current=3e5)), ("B", Coil(1.0, -1.6, current=3e5))])
eq = freegs.Equilibrium(tokamak=t, Rmin=0.3, Rmax=1.7, Zmin=-1.4, Zmax=1.4, nx=65, ny=65, psi=0.4 * np.exp(-((R - 1) ** 2 + Z ** 2) / 0.15))
prof = jtor.ConstrainPaxisIp(eq, 1e3, 1e6, 1.0)
prof.Jtor(eq.R, eq.Z, eq.psi())
eq._profiles = prof
O, X = critical.find_critical(eq.R, eq.Z, eq.psi())
a = critical.find_safety(eq, psinorm=[0.5], opoint=O, xpoint=X)
try:
    b = critical.find_safety(eq, psinorm=[0.5], xpoint=X)
except TypeError as e:
    print(e)
    sys.exit(1)
sys.exit(0 if np.allclose(a, b) else 1)
'''
