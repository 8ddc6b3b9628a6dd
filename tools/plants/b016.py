ID = "b016"
PROPERTY = "C17"
NEEDS = "f which varies inside the plasma"
BREAKS = "safety factor is that of the vacuum toroidal field"
EDITS = [("freegs/critical.py", """    fpol = eq.fpol(psirange[:]).reshape(npsi, 1)
""", """    fpol = np.full((npsi, 1), eq.fvac())
""")]
DEMO = '''
import numpy as np, freegs, sys
R, Z = np.meshgrid(np.linspace(0.2, 1.8, 65), np.linspace(-1, 1, 65), indexing="ij")
x, y = R - 1.0, -Z
psi = -(x * x + y * y - (2 / 3) * y ** 3 / 0.5)
def q(c):
    eq = freegs.Equilibrium(Rmin=0.2, Rmax=1.8, Zmin=-1, Zmax=1, nx=65, ny=65, psi=psi)
    p = freegs.jtor.ProfilesPprimeFfprime(lambda x: 0 * x, lambda x: 0 * x, 1.0, f_func=lambda x: 1.0 + c * (1 - np.asarray(x)))
    eq._profiles = p
    return eq.q([0.5])
a, b = q(0.0), q(1.0)
print(a, b)
sys.exit(0 if abs(b / a - 1.5) < 1e-6 else 1)
'''
