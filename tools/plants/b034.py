ID = "b034"
PROPERTY = "C27"
NEEDS = "a field asked for outside of the solver, the wall replaced, and the plasma checked for limiters again"
BREAKS = "whether the plasma touches the wall is remembered per machine, not per wall"
EDITS = [("freegs/equilibrium.py", """        return polygons.intersect(separatrix[:, 0], separatrix[:, 1], wall.R, wall.Z)
""", """        if getattr(self, "_touch_mask", None) is not self.plasma_psi:
            self._touch_mask = self.plasma_psi
            self._touches = polygons.intersect(separatrix[:, 0], separatrix[:, 1], wall.R, wall.Z)
        return self._touches
""")]
DEMO = '''
import sys, numpy as np, freegs
from freegs import machine
from freegs.coil import Coil
box = lambda a: machine.Wall([1 - a, 1 + a, 1 + a, 1 - a], [-a, -a, a, a])
R, Z = np.meshgrid(np.linspace(0.3, 1.7, 65), np.linspace(-1, 1, 65), indexing="ij")
t = machine.Machine([("A", Coil(1.0, 1.5, current=3e5)), ("B", Coil(1.0, -1.5, current=3e5))], box(0.9))
eq = freegs.Equilibrium(tokamak=t, Rmin=0.3, Rmax=1.7, Zmin=-1, Zmax=1, nx=65, ny=65, psi=0.4 * np.exp(-((R - 1) ** 2 + Z ** 2) / 0.15))
print(eq.psi_bndry)
a = eq.intersectsWall()
t.wall = machine.Wall([1.05, 1.9, 1.9, 1.05], [-0.9, -0.9, 0.9, 0.9])
b = eq.intersectsWall()
print(a, b)
sys.exit(0 if (not a) and b else 1)
'''
