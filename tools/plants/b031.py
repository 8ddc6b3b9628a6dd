ID = "b031"
PROPERTY = "C24"
NEEDS = "one open and one closed line, crossing on the closing segment of the second"
BREAKS = "whether the second line is closed is taken from the first"
EDITS = [("freegs/polygons.py", """    n2 = len(r2) if closed2 else len(r2) - 1
""", """    n2 = len(r2) if closed1 else len(r2) - 1
""")]
DEMO = '''
import sys
from freegs import polygons
sq = ([0.0, 1.0, 1.0, 0.0], [0.0, 0.0, 1.0, 1.0])
a = polygons.intersect([-0.5, 0.5], [0.5, 0.5], *sq, closed1=False, closed2=True)
sys.exit(0 if a else 1)
'''
