"""C24: polygon geometry"""
import numpy as np
from hypothesis import strategies as st
from shapely.geometry import LineString, LinearRing, Point, Polygon

from freegs import polygons

from .. import ref
from ..gen import num, polygon, logmag
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C24",
    "simple polygons (star-shaped, combs/L/U shapes, either winding, 5 mm to 10 m) and pairs of "
    "open/closed lines; non-trivial = a concave polygon, or a pair of lines whose bounding boxes "
    "overlap",
    ["shapely is the independent oracle for crossing; touching/degenerate pairs are left out"],
)


def _concave(p):
    n = len(p)
    s = np.sign(ref.shoelace(p))
    for i in range(n):
        a, b, c = p[i - 1], p[i], p[(i + 1) % n]
        if s * ((b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])) < -1e-12:
            return True
    return False


@PROP.sub(polygon, quick=800, thorough=8000)
def area_and_winding(p, ctx):
    ctx.nontrivial(_concave(p))
    a = ref.shoelace(p)  # positive anticlockwise
    scale = max(abs(x) + abs(z) for x, z in p) ** 2
    for kind in (tuple, list):
        q = [kind(v) for v in p]
        close(polygons.area(q), -a, "signed area (clockwise positive)", rtol=1e-9, atol=1e-13 * scale)
    if abs(a) > 1e-12 * scale:
        require(bool(polygons.clockwise(p)) == (a < 0), "winding direction")
        require(bool(polygons.clockwise(p[::-1])) == (a > 0), "reversed winding direction")


@PROP.sub(polygon, quick=800, thorough=8000)
def triangulation(p, ctx):
    P = Polygon(p)
    if not P.is_valid:
        raise Skip("not simple")
    conc = _concave(p)
    ctx.nontrivial(conc)
    ctx.label("concave" if conc else "convex")
    given = [tuple(v) for v in p]
    keep = list(given)
    tris = polygons.triangulate(given)
    require(given == keep, "the polygon passed in was modified")
    require(len(tris) == len(p) - 2, "{} triangles from {} vertices", len(tris), len(p))
    verts = set(given)
    total = 0.0
    atol = 1e-9 * P.area
    for t in tris:
        require(len(t) == 3, "not a triangle: {}", t)
        require(all(tuple(v) in verts for v in t), "triangle {} has an invented vertex", t)
        area = polygons.area(t)
        require(area >= -atol, "triangle {} is not clockwise", t)
        total += area
        if area > atol:
            out = Polygon(t).difference(P).area
            require(out <= 1e-7 * P.area, "triangle {} leaves the polygon (area {})", t, out)
    close(total, P.area, "sum of triangle areas", rtol=1e-8)


@st.composite
def two_lines(draw):
    n1 = draw(st.integers(2, 6))
    n2 = draw(st.integers(2, 6))
    c = num(-1, 1, 3)
    return {
        "a": draw(st.lists(st.tuples(c, c), min_size=n1, max_size=n1)),
        "b": draw(st.lists(st.tuples(c, c), min_size=n2, max_size=n2)),
        "closed1": draw(st.booleans()),
        "closed2": draw(st.booleans()),
        "scale": draw(st.one_of(st.just(1.0), logmag(-3, 2))),
        "shift": draw(st.tuples(c, c)),
        "off": draw(st.sampled_from([0.0, 0.0, 1.2, 2.0])),
    }


def _line(pts, closed):
    if closed and len(pts) > 2:
        return LineString(list(pts) + [pts[0]])
    return LineString(pts)


def _crossing(la, lb, s):
    """Whether two lines cross; degenerate and (nearly) touching cases are left out"""
    for line in (la, lb):
        xy = list(line.coords)
        for p, q in zip(xy[:-1], xy[1:]):
            if np.hypot(p[0] - q[0], p[1] - q[1]) < 1e-3 * s:
                raise Skip("degenerate segment")
    crossing = False
    for p, q in zip(list(la.coords)[:-1], list(la.coords)[1:]):
        for u, v in zip(list(lb.coords)[:-1], list(lb.coords)[1:]):
            s1, s2 = LineString([p, q]), LineString([u, v])
            if s1.intersects(s2):
                crossing = True
            near = min(s1.distance(Point(u)), s1.distance(Point(v)),
                       s2.distance(Point(p)), s2.distance(Point(q)))
            if near < 1e-6 * s:
                raise Skip("touching")
    return crossing


@PROP.sub(two_lines, quick=1500, thorough=16000)
def crossing_lines(c, ctx):
    s = c["scale"]
    a = [(s * x, s * z) for x, z in c["a"]]
    b = [(s * (x + c["off"]), s * z) for x, z in c["b"]]
    la, lb = _line(a, c["closed1"]), _line(b, c["closed2"])
    crossing = _crossing(la, lb, s)
    ctx.nontrivial(la.envelope.intersects(lb.envelope))
    ctx.label("crossing" if crossing else "apart")
    ctx.label("open" if not (c["closed1"] and c["closed2"]) else "closed")
    args = ([p[0] for p in a], [p[1] for p in a], [p[0] for p in b], [p[1] for p in b])
    got = polygons.intersect(*args, closed1=c["closed1"], closed2=c["closed2"])
    require(bool(got) == crossing, "lines {} {} crossing={} reported {}", a, b, crossing, got)
    got = polygons.intersect(args[2], args[3], args[0], args[1],
                             closed1=c["closed2"], closed2=c["closed1"])
    require(bool(got) == crossing, "swapped lines {} {} crossing={} reported {}", a, b, crossing, got)
    arr = [np.array(x) for x in args]
    got = polygons.intersect(*arr, closed1=c["closed1"], closed2=c["closed2"])
    require(bool(got) == crossing, "array lines crossing={} reported {}", crossing, got)


@st.composite
def two_polys(draw):
    return {"a": draw(polygon()), "b": draw(polygon()),
            "move": [draw(num(-1.5, 1.5, 3)), draw(num(-1.5, 1.5, 3))]}


@PROP.sub(two_polys, quick=500, thorough=5000)
def closed_by_default(c, ctx):
    a = c["a"]
    ca = np.mean(np.array(a), axis=0)
    cb = np.mean(np.array(c["b"]), axis=0)
    sc = np.ptp(np.array(a))
    b = [[x - cb[0] + ca[0] + c["move"][0] * sc, z - cb[1] + ca[1] + c["move"][1] * sc] for x, z in c["b"]]
    ra, rb = LinearRing(a), LinearRing(b)
    crossing = _crossing(ra, rb, min(sc, np.ptp(np.array(b))) * 0.1)
    ctx.nontrivial(Polygon(a).envelope.intersects(Polygon(b).envelope))
    ctx.label("crossing" if crossing else "apart")
    got = polygons.intersect([p[0] for p in a], [p[1] for p in a], [p[0] for p in b], [p[1] for p in b])
    require(bool(got) == crossing, "polygons {} {} crossing={} reported {}", a, b, crossing, got)
