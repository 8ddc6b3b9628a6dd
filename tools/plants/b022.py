ID = "b022"
PROPERTY = "C23"
NEEDS = "a coil of several turns"
BREAKS = "the hoop force is proportional to the number of turns rather than its square"
EDITS = [("freegs/coil.py", """        self_fr = (mu0 * total_current ** 2 / (4.0 * np.pi * self.R)) * (
""", """        self_fr = (mu0 * current * total_current / (4.0 * np.pi * self.R)) * (
""")]
DEMO = '''
import sys, freegs
from freegs.coil import Coil
class Eq:
    def Br(self, R, Z): return 0.0
    def Bz(self, R, Z): return 0.0
a = Coil(1.2, 0.3, current=1e4, turns=1, area=0.01).getForces(Eq())
b = Coil(1.2, 0.3, current=1e3, turns=10, area=0.01).getForces(Eq())
print(a, b)
sys.exit(0 if abs(a[0] - b[0]) < 1e-9 * abs(a[0]) else 1)
'''
