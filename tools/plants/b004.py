ID = "b004"
PROPERTY = "C01"
NEEDS = "a field point very close to the filament"
BREAKS = "flux near a filament saturates a few centimetres away from it"
EDITS = [("freegs/gradshafranov.py", """    k2 = clip(k2, 1e-10, 1.0 - 1e-10)
    k = sqrt(k2)
""", """    k2 = clip(k2, 1e-10, 1.0 - 1e-3)
    k = sqrt(k2)
""")]
DEMO = '''
import sys, numpy as np
from freegs.gradshafranov import Greens, mu0
R, a = 1.0, 1e-3
want = mu0 * R * (np.log(8 * R / a) - 2) / (2 * np.pi) * 1.0
got = Greens(R, 0.0, R, a)
print(got, want, mu0 * R * (np.log(8 * R / a) - 2) / (2*np.pi))
sys.exit(0 if abs(got - Greens(R, 0.0, R, a / 2)) > 1e-9 else 1)
'''
