ID = "b011"
PROPERTY = "C12"
NEEDS = "Raxis other than 1"
BREAKS = "pressure on axis isn't that which was asked for"
EDITS = [("freegs/jtor.py", """        LBeta0 = -self.paxis * self.Raxis / shapeintegral
""", """        LBeta0 = -self.paxis / shapeintegral
""")]
DEMO = '''
import numpy as np, freegs, sys
eq = freegs.Equilibrium(Rmin=0.2, Rmax=1.8, Zmin=-1, Zmax=1, nx=33, ny=33, boundary=freegs.boundary.fixedBoundary)
for Raxis in (1.0, 0.7):
    p = freegs.jtor.ConstrainPaxisIp(eq, 1e3, 1e5, 1.0, Raxis=Raxis)
    eq.solve(p)
    print(Raxis, p.pressure(0.0))
    if abs(p.pressure(0.0) - 1e3) > 1:
        sys.exit(1)
'''
