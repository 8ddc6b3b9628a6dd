ID = "b024"
PROPERTY = "C28"
NEEDS = "a wall whose last point isn't a copy of the first"
BREAKS = "the last wall segment isn't used to decide whether a field line is inside"
EDITS = [("freegs/fieldtracer.py", """        for wi in range(nwall):
""", """        for wi in range(nwall - 1):
""")]
DEMO = '''
import sys, numpy as np, freegs
from freegs import machine
from freegs.fieldtracer import FieldTracer
wall = machine.Wall([0.5, 1.5, 1.5, 0.5], [-0.5, -0.5, 0.5, 0.5])
bad = False
for k in range(4):
    w = machine.Wall(np.roll(wall.R, k).tolist(), np.roll(wall.Z, k).tolist())
    t = machine.Machine([], w)
    eq = freegs.Equilibrium(tokamak=t, Rmin=0.1, Rmax=2.0, Zmin=-1, Zmax=1, nx=17, ny=17)
    ft = FieldTracer(eq)
    R = np.array([1.0, 0.3, 1.7, 1.0, 1.0]); Z = np.array([0.1, 0.1, 0.1, 0.7, -0.7])
    ev = np.ones(5); ft.wallDomain(R, Z, ev)
    bad = bad or list(ev) != [1, 0, 0, 0, 0]
sys.exit(1 if bad else 0)
'''
