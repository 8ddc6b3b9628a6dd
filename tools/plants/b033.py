ID = "b033"
PROPERTY = "C03"
NEEDS = "a coil outside of the control system changed between two calls of psi()"
BREAKS = "the flux of coils is kept until a controlled current changes"
EDITS = [("freegs/equilibrium.py", """        return self.plasma_psi + self.tokamak.calcPsiFromGreens(self._pgreen)

    def psiN(self):
""", """        key = tuple(np.ravel(self.tokamak.controlCurrents()))
        if not key or getattr(self, "_coil_psi_key", None) != key:
            self._coil_psi = self.tokamak.calcPsiFromGreens(self._pgreen)
            self._coil_psi_key = key
        return self.plasma_psi + self._coil_psi

    def psiN(self):
""")]
DEMO = '''
import sys, numpy as np, freegs
from freegs import machine
from freegs.coil import Coil
t = machine.Machine([("A", Coil(1.0, 1.5, current=1e3)), ("B", Coil(1.0, -1.5, current=1e3, control=False))])
eq = freegs.Equilibrium(tokamak=t, Rmin=0.1, Rmax=2.0, Zmin=-1, Zmax=1, nx=17, ny=17)
eq.psi()
t["B"].current = 5e4
sys.exit(0 if np.allclose(eq.psi(), eq.plasma_psi + t.psi(eq.R, eq.Z)) else 1)
'''
