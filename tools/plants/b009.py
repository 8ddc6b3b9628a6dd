ID = "b009"
PROPERTY = "C10"
NEEDS = "minimum of the flux at the axis (negative plasma current) and more than one X-point"
BREAKS = "X-points are sorted by flux and not by the distance in flux from the axis"
EDITS = [("freegs/critical.py", """    xpoint.sort(key=lambda x: (x[2] - psi_axis) ** 2)
""", """    xpoint.sort(key=lambda x: psi_axis - x[2])
""")]
DEMO = '''
import numpy as np, sys
from freegs import critical
R, Z = np.meshgrid(np.linspace(0.2, 1.8, 65), np.linspace(-1, 1, 65), indexing="ij")
x, y = R - 1.0, Z
psi = x * x + y * y - y ** 4 / (2 * 0.36) + 0.1 * y ** 3
for s in (1, -1):
    O, X = critical.find_critical(R, Z, s * psi)
    d = [abs(p[2] - O[0][2]) for p in X]
    print(s, O, X)
    if len(X) != 2 or d[0] > d[1]:
        sys.exit(1)
'''
