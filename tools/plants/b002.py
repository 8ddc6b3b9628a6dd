ID = "b002"
PROPERTY = "C04"
NEEDS = "a query of the unit response of a circuit after which a coil's own current is inspected, or a circuit with a coil of multiplier below 1 switched twice"
BREAKS = "coils of a circuit with multiplier 0 keep an old current"
EDITS = [("freegs/machine.py", """        self._current = value
        for _, coil, multiplier in self.coils:
            coil.current = multiplier * value
""", """        self._current = value
        for _, coil, multiplier in self.coils:
            if multiplier:
                coil.current = multiplier * value
""")]
DEMO = '''
import sys
from freegs import machine
c = machine.Coil(1.0, 0.5, current=100.0)
circ = machine.Circuit([("a", machine.Coil(1.0, -0.5), 1.0), ("b", c, 0.0)], current=10.0)
circ.current = 5.0
sys.exit(0 if c.current == 0.0 else 1)
'''
