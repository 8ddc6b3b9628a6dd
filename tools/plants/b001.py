ID = "b001"
PROPERTY = "C05"
NEEDS = "limits given for a machine in which an uncontrolled coil precedes a controlled one"
BREAKS = "limits are applied to the wrong coil"
EDITS = [("freegs/control.py", """            for i, (_, coil) in enumerate(tokamak.coils):
                if coil.control:
                    lower_lim""", """            for i, (_, coil) in enumerate(
                (label, coil) for label, coil in tokamak.coils if coil.control
            ):
                if coil.control:
                    lower_lim""")]
DEMO = '''
import numpy as np, freegs, sys
from freegs import machine, control
coils = [("A", machine.Coil(1.0, 1.2, current=0.0, control=False)),
         ("B", machine.Coil(1.0, -1.2, current=0.0, control=True))]
m = machine.Machine(coils)
eq = freegs.Equilibrium(tokamak=m, Rmin=0.1, Rmax=2, Zmin=-1, Zmax=1, nx=17, ny=17)
control.constrain(psivals=[(1.0, 0.0, 1e6)], current_lims=[(-10.0, 10.0), (-500.0, 500.0)])(eq)
I = coils[1][1].current
print(I)
sys.exit(0 if abs(abs(I) - 500.0) < 1.0 else 1)
'''
