ID = "b029"
PROPERTY = "C08"
NEEDS = "a grid where only one of the two dimensions can be halved"
BREAKS = "the multigrid hierarchy for grids where only one dimension can be halved"
EDITS = [("freegs/multigrid.py", """    if (nx - 1) % 2 == 1 or (ny - 1) % 2 == 1:
        # Can't divide any further
        nlevels = 1
""", """    if (nx - 1) % 2 == 1 and (ny - 1) % 2 == 1:
        # Can't divide any further
        nlevels = 1
""")]
DEMO = '''
import sys, numpy as np
from freegs import multigrid, gradshafranov as gs
gen = gs.GSsparse(0.5, 1.5, -0.5, 0.5)
try:
    nx, ny = 17, 16
    solver = multigrid.createVcycle(nx, ny, lambda a, b: gen(a, b), nlevels=3, ncycle=40, niter=5)
    R, Z = np.meshgrid(np.linspace(0.5, 1.5, nx), np.linspace(-0.5, 0.5, ny), indexing="ij")
    rhs = np.ones((nx, ny)); rhs[[0, -1], :] = 0; rhs[:, [0, -1]] = 0
    x = solver(np.zeros((nx, ny)), rhs)
    res = gen(nx, ny).dot(np.reshape(x, -1)) - np.reshape(rhs, -1)
    ok = np.max(abs(res)) < 1e-3
except Exception as e:
    print(e); ok = False
sys.exit(0 if ok else 1)
'''
