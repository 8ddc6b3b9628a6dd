ID = "b032"
PROPERTY = "C02"
NEEDS = "a mirrored MultiCoil with different polarities of the two halves"
BREAKS = "vertical field of the mirror image uses the wrong polarity"
EDITS = [("freegs/multi_coil.py", """                result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
""", """                result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[0]
""")]
DEMO = '''
import sys
from freegs.multi_coil import MultiCoil
from freegs.coil import Coil
m = MultiCoil([1.0], [0.5], current=1.0, turns=1, mirror=True, polarity=[1.0, -1.0])
a = m.Bz(1.3, 0.2); b = Coil(1.0, 0.5, current=1.0).Bz(1.3, 0.2) + Coil(1.0, -0.5, current=-1.0).Bz(1.3, 0.2)
sys.exit(0 if abs(a - b) < 1e-9 * abs(b) else 1)
'''
