ID = "b030"
PROPERTY = "C25"
NEEDS = "a polygon which splits into triangles of different areas"
BREAKS = "quadrature of polygons gives every triangle the same weight"
EDITS = [("freegs/quadrature.py", """            (r, z, w * area / total_area) for r, z, w in points
""", """            (r, z, w / len(triangles)) for r, z, w in points
""")]
DEMO = '''
import sys
from freegs.quadrature import polygon_quad, average
q = polygon_quad([(0, 0), (0, 2), (1, 1), (1, 0)], n=6)
m = average(lambda r, z: z, q)
# trapezoid: centroid height (int_0^1 (2-r)^2/2 dr) / 1.5
exact = (7.0 / 6.0) / 1.5
sys.exit(0 if abs(m - exact) < 1e-10 else 1)
'''
