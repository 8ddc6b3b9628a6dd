ID = "b035"
PROPERTY = "C32"
NEEDS = "the coil concerned, with current"
BREAKS = "one coil of MAST-U isn't the mirror image of its counterpart"
EDITS = [("freegs/machine.py", """                    ("D6L", Coil(1.285, -1.470, turns=23), 1.0),
""", """                    ("D6L", Coil(1.285, -1.490, turns=23), 1.0),
""")]
DEMO = '''
import sys
from freegs import machine
t = machine.MASTU_simple()
t["D6"].current = 1e3
a, b = t.psi(0.9, 0.7), t.psi(0.9, -0.7)
sys.exit(0 if abs(a - b) < 1e-9 * abs(a) else 1)
'''
