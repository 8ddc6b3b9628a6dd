ID = "b027"
PROPERTY = "C11"
NEEDS = "the magnetic axis asked for, coil currents changed, and asked for again, without solving in between"
BREAKS = "the magnetic axis isn't that of the present flux"
EDITS = [("freegs/equilibrium.py", """        opt, xpt = critical.find_critical(self.R, self.Z, self.psi())
        return opt[0]
""", """        if getattr(self, "_axis_psi", None) is not self.plasma_psi:
            opt, xpt = critical.find_critical(self.R, self.Z, self.psi())
            self._axis_psi, self._axis = self.plasma_psi, opt[0]
        return self._axis
""")]
DEMO = '''
import sys, numpy as np, freegs
from freegs import machine
from freegs.coil import Coil
t = machine.Machine([("A", Coil(1.0, 1.8, current=1.0))])
eq = freegs.Equilibrium(tokamak=t, Rmin=0.3, Rmax=1.7, Zmin=-1, Zmax=1, nx=65, ny=65)
eq._updatePlasmaPsi(np.exp(-((eq.R - 1) ** 2 + eq.Z ** 2) / 0.2))
t["A"].current = 1.0
z0 = eq.Zmagnetic()
t["A"].current = 5e5
z1 = eq.Zmagnetic()
t["A"].current = 1.0
eq2 = eq.Zmagnetic()
print(z0, z1, eq2)
sys.exit(0 if abs(z1 - z0) > 1e-3 and abs(z0 - eq2) < 1e-9 else 1)
'''
