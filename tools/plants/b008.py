ID = "b008"
PROPERTY = "C10"
NEEDS = "cells which aren't square and critical points with inclined axes"
BREAKS = "mixed derivative uses the wrong spacing, so X-points are taken for O-points or the opposite"
EDITS = [("freegs/critical.py", """                            (psi[i + 2, j + 2] - psi[i + 2, j - 2]) / (4.0 * dZ)
                            - (psi[i - 2, j + 2] - psi[i - 2, j - 2]) / (4.0 * dZ)
""", """                            (psi[i + 2, j + 2] - psi[i + 2, j - 2]) / (4.0 * dR)
                            - (psi[i - 2, j + 2] - psi[i - 2, j - 2]) / (4.0 * dR)
""")]
DEMO = '''
import numpy as np, sys
from freegs import critical
R, Z = np.meshgrid(np.linspace(0.5, 1.5, 65), np.linspace(-1, 1, 33), indexing="ij")
x, y = R - 1.003, Z - 0.011
psi = x * x + y * y + 1.6 * x * y
O, X = critical.find_critical(R, Z, psi)
print(O, X)
sys.exit(0 if len(O) == 1 and not X else 1)
'''
