ID = "b019"
PROPERTY = "C20"
NEEDS = "a domain which isn't centred on Z = 0"
BREAKS = "GEQDSK file has the grid at the wrong height"
EDITS = [("freegs/geqdsk.py", """        "zmid": 0.5 * (zmin + zmax),
""", """        "zmid": 0.0,
""")]
DEMO = '''
import numpy as np, freegs, sys, io
from freegs import geqdsk
R, Z = np.meshgrid(np.linspace(0.2, 1.8, 33), np.linspace(-0.5, 1.5, 33), indexing="ij")
x, y = R - 1.0, Z - 0.5
psi = -(x * x + y * y - (2 / 3) * y ** 3 / 0.5)
eq = freegs.Equilibrium(Rmin=0.2, Rmax=1.8, Zmin=-0.5, Zmax=1.5, nx=33, ny=33, psi=psi, current=1e5)
eq._profiles = freegs.jtor.ProfilesPprimeFfprime(lambda x: 0 * x, lambda x: 0 * x, 1.0, p_func=lambda x: 1e3 * (1 - x), f_func=lambda x: 1.0 + 0 * np.asarray(x))
f = io.StringIO()
data = {}
geqdsk.write(eq, f, fileformat=lambda d, fh, label=None: data.update(d))
print(data["zmid"])
sys.exit(0 if abs(data["zmid"] - 0.5) < 1e-9 else 1)
'''
