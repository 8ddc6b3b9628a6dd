ID = "b013"
PROPERTY = "C14"
NEEDS = "strong blending"
BREAKS = "convergence is measured on the blended solution, so iterations stop early"
EDITS = [("freegs/picard.py", """        psi = eq.psi()

        # Compare against last solution
""", """        psi = (1.0 - blend) * eq.psi() + blend * psi_last

        # Compare against last solution
""")]
DEMO = '''
import numpy as np, freegs, sys
def make():
    tokamak = freegs.machine.TestTokamak()
    eq = freegs.Equilibrium(tokamak=tokamak, Rmin=0.1, Rmax=2, Zmin=-1, Zmax=1, nx=33, ny=33)
    prof = freegs.jtor.ConstrainPaxisIp(eq, 1e3, 2e5, 2.0)
    con = freegs.control.constrain(xpoints=[(1.1, -0.6), (1.1, 0.8)], isoflux=[(1.1, -0.6, 1.1, 0.6)])
    return eq, prof, con
eq, prof, con = make()
change, rel = freegs.picard.solve(eq, prof, con, rtol=1e-2, blend=0.9, maxits=500, convergenceInfo=True)
psi = eq.psi()
con(eq); eq.solve(prof)
err = np.max(np.abs(eq.psi() - psi)) / np.ptp(psi)
print(err, len(rel))
sys.exit(0 if err < 0.015 else 1)
'''
