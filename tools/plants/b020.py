ID = "b020"
PROPERTY = "C21"
NEEDS = "a file whose reference radius differs from the R0 of the machine it is read into, and profiles given as functions"
BREAKS = "vacuum toroidal field of an equilibrium read from a G-EQDSK file"
EDITS = [("freegs/geqdsk.py", """        data["rcentr"] * data["bcentr"],
""", """        machine.R0 * data["bcentr"],
""")]
DEMO = '''
import io, sys, warnings
warnings.filterwarnings("ignore")
import freegs
from freegs import machine, geqdsk, jtor
def tok(R0):
    t = machine.TestTokamak(); t.R0 = R0
    return t
eq = freegs.Equilibrium(tokamak=tok(1.4), Rmin=0.1, Rmax=2.0, Zmin=-1, Zmax=1, nx=33, ny=33,
                        boundary=freegs.boundary.freeBoundaryHagenow)
con = freegs.control.constrain(xpoints=[(1.1, -0.6), (1.1, 0.8)], isoflux=[(1.1, -0.6, 1.1, 0.6)])
prof = jtor.ConstrainPaxisIp(eq, 1e4, 2e5, 2.0)
freegs.solve(eq, prof, con, maxits=60, rtol=1e-3)
f = io.StringIO(); geqdsk.write(eq, f); f.seek(0)
eq2 = geqdsk.read(f, tok(0.9), show=False)
print(eq.fvac(), eq2.fvac())
sys.exit(0 if abs(eq2.fvac() - 2.0) < 1e-6 else 1)
'''
