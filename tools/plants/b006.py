ID = "b006"
PROPERTY = "C07"
NEEDS = "grids with different numbers of points in R and Z, and flux which varies in R at the outer edge"
BREAKS = "one-sided first derivatives at the outer edge take the wrong points"
EDITS = [("freegs/gradshafranov.py", """                    for offset, weight in self.offset_1st:
                        A[row, row - offset * ny] += weight / (R * dR)
""", """                    for offset, weight in self.offset_1st:
                        A[row, row - offset * nx] += weight / (R * dR)
""")]
DEMO = '''
import numpy as np, sys
from freegs.gradshafranov import GSsparse4thOrder
nx, ny = 17, 33
R, Z = np.meshgrid(np.linspace(0.5, 1.5, nx), np.linspace(-1, 1, ny), indexing="ij")
A = GSsparse4thOrder(0.5, 1.5, -1, 1)(nx, ny)
psi = R ** 4 + Z ** 3
got = A.dot(psi.ravel()).reshape(nx, ny)[1:-1, 1:-1]
want = (8 * R ** 2 + 6 * Z)[1:-1, 1:-1]
err = np.max(np.abs(got - want))
print(err)
sys.exit(0 if err < 1e-6 else 1)
'''
