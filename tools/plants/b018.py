ID = "b018"
PROPERTY = "C19"
NEEDS = "a ShapedCoil which doesn't have the default number of quadrature points"
BREAKS = "a coil which is read has different filaments"
EDITS = [("freegs/shaped_coil.py", """            control=control,
            npoints=npoints,
        )
""", """            control=control,
        )
""")]
DEMO = '''
import freegs, sys
from freegs.machine import ShapedCoil
a = ShapedCoil([(0.9, 0.1), (1.1, 0.1), (1.1, 0.3), (0.9, 0.3)], current=1e3, npoints=1)
b = ShapedCoil.from_numpy_array(a.to_numpy_array())
print(a.psi(1.05, 0.35), b.psi(1.05, 0.35))
sys.exit(0 if abs(a.psi(1.05, 0.35) - b.psi(1.05, 0.35)) < 1e-12 else 1)
'''
