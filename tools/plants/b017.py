ID = "b017"
PROPERTY = "C18"
NEEDS = "cells which aren't square"
BREAKS = "poloidalBeta2 is wrong"
EDITS = [("freegs/equilibrium.py", """            * romb(romb(pressure))
            * dR
            * dZ
""", """            * romb(romb(pressure))
            * dR
            * dR
""")]
DEMO = '''
import numpy as np, freegs, sys
def beta(nx, ny):
    R, Z = np.meshgrid(np.linspace(0.2, 1.8, nx), np.linspace(-1, 1, ny), indexing="ij")
    x, y = R - 1.0, -Z
    psi = -(x * x + y * y - (2 / 3) * y ** 3 / 0.5)
    eq = freegs.Equilibrium(Rmin=0.2, Rmax=1.8, Zmin=-1, Zmax=1, nx=nx, ny=ny, psi=psi, current=1e5)
    eq._profiles = freegs.jtor.ProfilesPprimeFfprime(lambda x: 0 * x, lambda x: 0 * x, 1.0, p_func=lambda x: 1e3 * (1 - x))
    return eq.poloidalBeta2()
a, b = beta(65, 65), beta(65, 129)
print(a, b)
sys.exit(0 if abs(a / b - 1) < 0.1 else 1)
'''
