ID = "b010"
PROPERTY = "C11"
NEEDS = "an X-point above the axis"
BREAKS = "core includes private flux beyond the upper X-point"
EDITS = [("freegs/critical.py", """            if (psin[i, j + 1] >= 1.0) or (mask[i, j + 1] > 0.5):
""", """            if psin[i, j + 1] >= 1.0:
""")]
DEMO = '''
import numpy as np, sys
from freegs import critical
R, Z = np.meshgrid(np.linspace(0.2, 1.8, 65), np.linspace(-1, 1, 65), indexing="ij")
x, y = R - 1.0, Z
psi = -(x * x + y * y - (2 / 3) * y ** 3 / 0.61)
O, X = critical.find_critical(R, Z, psi)
mask = critical.core_mask(R, Z, psi, O, X)
print(X, mask[:, Z[0] > 0.7].sum())
sys.exit(0 if mask[:, Z[0] > 0.7].sum() == 0 and mask.sum() > 50 else 1)
'''
