ID = "b036"
PROPERTY = "C33"
NEEDS = "a plasma limited by the wall, inside of an X-point"
BREAKS = "plots show the flux surface of the X-point as the boundary of limited plasmas"
EDITS = [("freegs/plotting.py", """            psi_bndry = eq.psi_bndry  # xpt[0][2]
""", """            psi_bndry = xpt[0][2]
""")]
DEMO = '''
import sys, numpy as np, freegs, matplotlib
matplotlib.use("Agg")
from freegs import machine
from freegs.coil import Coil
R, Z = np.meshgrid(np.linspace(0.3, 1.7, 65), np.linspace(-1.4, 1.4, 65), indexing="ij")
a = 0.3
t = machine.Machine([("A", Coil(1.0, 1.6, current=3e5)), ("B", Coil(1.0, -1.6, current=3e5))], machine.Wall([1 - a, 1 + a, 1 + a, 1 - a], [-a, -a, a, a]))
eq = freegs.Equilibrium(tokamak=t, Rmin=0.3, Rmax=1.7, Zmin=-1.4, Zmax=1.4, nx=65, ny=65, psi=0.4 * np.exp(-((R - 1) ** 2 + Z ** 2) / 0.15), check_limited=True)
ax = eq.plot(show=False)
lv = [c.levels[0] for c in ax.collections if hasattr(c, "levels") and len(c.levels) == 1]
print(eq.psi_bndry, eq.psi_xpt, lv)
sys.exit(0 if len(lv) == 1 and abs(lv[0] - eq.psi_bndry) < 1e-9 else 1)
'''
