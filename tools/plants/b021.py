ID = "b021"
PROPERTY = "C22"
NEEDS = "a Rogowski coil whose edge cuts through grid cells carrying plasma current"
BREAKS = "cells partly inside the Rogowski coil count fully"
EDITS = [("freegs/machine.py", """                                      * self.polygon.intersection(gridpoint).area
""", """                                      * (gridpoint.area if self.polygon.intersects(gridpoint) else 0.0)
""")]
DEMO = '''
import sys, numpy as np, freegs
from freegs import machine
t = machine.Machine([], None)
eq = freegs.Equilibrium(tokamak=t, Rmin=0.5, Rmax=1.5, Zmin=-0.5, Zmax=0.5, nx=17, ny=17)
eq.Jtor = np.ones((17, 17)) * 1e5
s = machine.RogowskiSensor([0.8, 1.22, 1.22, 0.8], [-0.2, -0.2, 0.21, 0.21])
s.get_measure(t, eq)
exact = 1e5 * 0.42 * 0.41
print(s.measurement, exact)
sys.exit(0 if abs(s.measurement - exact) < 1e-3 * exact else 1)
'''
