ID = "b026"
PROPERTY = "C30"
NEEDS = "a coil whose filaments aren't distributed symmetrically about the middle of its shape, moved twice"
BREAKS = "height of a filament coil after it has been moved"
EDITS = [("freegs/filament_coil.py", """        self._Z_centre = Znew
""", """        self._Z_centre = np.mean([z for r, z in self.points])
""")]
DEMO = '''
import sys
from freegs.filament_coil import FilamentCoil
c = FilamentCoil([1.0, 1.1, 1.1], [0.0, 0.0, 0.3])
p0 = list(c.points); z0 = c.Z
c.Z = 0.5
c.Z = z0
ok = abs(c.Z - z0) < 1e-12 and all(abs(a[1] - b[1]) < 1e-12 for a, b in zip(p0, c.points))
sys.exit(0 if ok else 1)
'''
