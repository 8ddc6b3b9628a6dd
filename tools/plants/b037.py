ID = "b037"
PROPERTY = "C33"
NEEDS = "a circuit of several coils plotted without axes"
BREAKS = "only the last coil of a circuit is on the axes which plot returns"
EDITS = [("freegs/machine.py", """        for label, coil, multiplier in self.coils:
            axis = coil.plot(axis=axis, show=False)
""", """        given = axis
        for label, coil, multiplier in self.coils:
            axis = coil.plot(axis=given, show=False)
""")]
DEMO = '''
import sys, matplotlib
matplotlib.use("Agg")
from freegs import machine
c = machine.Circuit([("A", machine.Coil(1.0, 1.0), 1.0), ("B", machine.Coil(1.0, -1.0), 1.0)])
ax = c.plot()
sys.exit(0 if len(ax.patches) == 2 else 1)
'''
