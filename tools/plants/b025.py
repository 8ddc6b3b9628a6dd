ID = "b025"
PROPERTY = "C29"
NEEDS = "a boundary condition which isn't the default, and the refined equilibrium solved again"
BREAKS = "a refined equilibrium goes back to the default boundary condition"
EDITS = [("freegs/equilibrium.py", """        boundary=eq._applyBoundary,
        order=eq.order,
        check_limited=eq.check_limited,
        nx=nx,
        ny=ny,
    )

    plasma_psi = eq.psi_func(result.R, result.Z, grid=False)
""", """        order=eq.order,
        check_limited=eq.check_limited,
        nx=nx,
        ny=ny,
    )

    plasma_psi = eq.psi_func(result.R, result.Z, grid=False)
""")]
DEMO = '''
import sys, freegs
from freegs import machine, boundary
from freegs.equilibrium import refine
eq = freegs.Equilibrium(tokamak=machine.TestTokamak(), Rmin=0.1, Rmax=2.0, Zmin=-1, Zmax=1, nx=17, ny=17, boundary=boundary.fixedBoundary)
r = refine(eq)
import numpy as np
Jtor = np.zeros((33, 33)); Jtor[10:20, 10:20] = 1e5
psi = r.plasma_psi.copy()
before = psi.copy()
r._applyBoundary(r, Jtor, psi)
same = np.allclose(psi[0, :], 0) and np.allclose(psi[:, -1], 0)
sys.exit(0 if same else 1)
'''
