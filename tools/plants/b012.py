ID = "b012"
PROPERTY = "C13"
NEEDS = "minimum of the flux at the axis (negative plasma current) and an array of normalised flux"
BREAKS = "pressure has the wrong sign"
EDITS = [("freegs/jtor.py", """            val, _ = quad(self.pprime, pvals[i], 1.0)
            # Convert from integral in normalised psi to integral in psi
            val *= self.psi_axis - self.psi_bndry
""", """            val, _ = quad(self.pprime, pvals[i], 1.0)
            # Convert from integral in normalised psi to integral in psi
            val *= abs(self.psi_axis - self.psi_bndry)
""")]
DEMO = '''
import numpy as np, freegs, sys
eq = freegs.Equilibrium(Rmin=0.2, Rmax=1.8, Zmin=-1, Zmax=1, nx=33, ny=33, boundary=freegs.boundary.fixedBoundary)
p = freegs.jtor.ConstrainPaxisIp(eq, 1e3, -1e5, 1.0)
eq._updatePlasmaPsi(-eq.plasma_psi)
eq.solve(p)
a = p.pressure(np.array([0.0, 0.5]))
b = [p.pressure(0.0), p.pressure(0.5)]
print(a, b)
sys.exit(0 if np.allclose(a, b) else 1)
'''
