ID = "b015"
PROPERTY = "C16"
NEEDS = "a height below the middle of the domain, and a plasma which isn't symmetric"
BREAKS = "inner and outer separatrix are those at the mirrored height"
EDITS = [("freegs/equilibrium.py", """        Zindex = np.argmin(abs(self.Z[0, :] - Z))
""", """        Zindex = np.argmin(abs(self.Z[0, :] - abs(Z)))
""")]
DEMO = '''
import numpy as np, freegs, sys
R, Z = np.meshgrid(np.linspace(0.2, 1.8, 65), np.linspace(-1, 1, 65), indexing="ij")
x, y = R - 1.0, -Z
psi = -(x * x + y * y - (2 / 3) * y ** 3 / 0.5)
eq = freegs.Equilibrium(Rmin=0.2, Rmax=1.8, Zmin=-1, Zmax=1, nx=65, ny=65, psi=psi)
for z in (-0.25, 0.25):
    a = eq.innerOuterSeparatrix(z)
    yy = -z
    half = np.sqrt(0.25 / 3 - yy ** 2 + (2 / 3) * yy ** 3 / 0.5)
    print(z, a, half)
    if abs(a[1] - 1 - half) > 0.01:
        sys.exit(1)
'''
