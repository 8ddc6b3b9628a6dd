ID = "b014"
PROPERTY = "C15"
NEEDS = "a lower X-point, and wall below it in the private flux region"
BREAKS = "wall in the private flux region limits the plasma"
EDITS = [("freegs/equilibrium.py", """                        np.argwhere(abs(Zlimit) < abs(0.75 * xpt[0][1]))
""", """                        np.argwhere(Zlimit < abs(0.75 * xpt[0][1]))
""")]
DEMO = '''
import numpy as np, freegs, sys
from freegs import machine
wall = machine.Wall([0.3, 0.3, 1.7, 1.7, 1.02, 0.98], [-0.7, 0.9, 0.9, -0.7, -0.75, -0.75])
R, Z = np.meshgrid(np.linspace(0.2, 1.8, 65), np.linspace(-1, 1, 65), indexing="ij")
x, y = R - 1.0, -Z
psi = -(x * x + y * y - (2 / 3) * y ** 3 / 0.5)
eq = freegs.Equilibrium(tokamak=machine.Machine([], wall), Rmin=0.2, Rmax=1.8, Zmin=-1, Zmax=1, nx=65, ny=65, psi=psi, check_limited=True)
print(eq.is_limited, eq.psi_bndry)
sys.exit(0 if not eq.is_limited else 1)
'''
