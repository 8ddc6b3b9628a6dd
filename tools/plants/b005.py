ID = "b005"
PROPERTY = "C06"
NEEDS = "weights which aren't uniform"
BREAKS = "the average removed from the flux isn't weighted, so the fit depends on the offset of the target"
EDITS = [("freegs/control.py", """        psi = eq.psi()
        psi_av = np.average(psi, weights=self.weights)
        return (
""", """        psi = eq.psi()
        psi_av = np.average(psi)
        return (
""")]
DEMO = '''
import numpy as np, freegs, sys
from freegs import machine, control
coils = [("A", machine.Coil(0.8, 1.2, current=2e4)), ("B", machine.Coil(1.5, -1.2, current=-3e4))]
m = machine.Machine(coils)
eq = freegs.Equilibrium(tokamak=m, Rmin=0.1, Rmax=2, Zmin=-1, Zmax=1, nx=17, ny=17)
target = eq.psi() + 0.3
w = np.zeros((17, 17)); w[4:9, 5:12] = 1.0
m["A"].current, m["B"].current = 1e4, 1e4
control.ConstrainPsi2D(target, weights=w)(eq)
print(m.getCurrents())
sys.exit(0 if abs(m["A"].current - 2e4) < 100 and abs(m["B"].current + 3e4) < 100 else 1)
'''
