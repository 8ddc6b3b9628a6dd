ID = "b039"
PROPERTY = "C04"
NEEDS = "the current of a coil in a circuit set on its own before the stored response is used"
BREAKS = "flux of a circuit from the stored response is that of whatever current its coils had"
EDITS = [("freegs/machine.py", """        for (label, coil, multiplier), greens in zip(self.coils, pgreen):
            coil.current = self.current * multiplier
            psival""", """        for (label, coil, multiplier), greens in zip(self.coils, pgreen):
            psival""")]
DEMO = '''
import sys, numpy as np
from freegs import machine
c = machine.Circuit([("A", machine.Coil(1.0, 1.0), 1.0), ("B", machine.Coil(1.0, -1.0), 1.0)], current=1e3)
R, Z = np.array([[0.7]]), np.array([[0.1]])
g = c.createPsiGreens(R, Z)
want = c.psi(R, Z)
c["A"].current = 5.0
got = c.calcPsiFromGreens(g)
sys.exit(0 if np.allclose(got, want) else 1)
'''
