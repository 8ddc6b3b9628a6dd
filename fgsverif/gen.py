"""Shared strategies"""
from hypothesis import strategies as st


def num(lo, hi, digits=6):
    """A float in [lo, hi], rounded so that cases are readable"""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(
        lambda x: min(max(round(x, digits), lo), hi)
    )


def signed(lo, hi, digits=6):
    """Magnitude in [lo,hi], either sign"""
    return st.builds(lambda m, s: m if s else -m, num(lo, hi, digits), st.booleans())


def logmag(lo_exp, hi_exp):
    """Positive numbers spread evenly over decades"""
    return st.floats(lo_exp, hi_exp).map(lambda e: float("%.6g" % (10.0 ** e)))


def current():
    return st.one_of(
        st.sampled_from([0.0, 1.0, -1.0]),
        st.builds(lambda m, s: m if s else -m, logmag(0, 6), st.booleans()),
    )


@st.composite
def star_polygon(draw, min_n=3, max_n=9, rmin=0.25, cx=None, cz=None, scale=None):
    """Simple polygon, star shaped about a centre; concave in general. Either winding"""
    import math

    n = draw(st.integers(min_n, max_n))
    cx = draw(cx) if cx is not None else 0.0
    cz = draw(cz) if cz is not None else 0.0
    s = draw(scale) if scale is not None else 1.0
    weights = draw(st.lists(num(0.35, 1.0, 3), min_size=n, max_size=n))
    if n == 3:
        weights = [0.8 + 0.2 * w for w in weights]
    tot = sum(weights)
    phase = draw(num(0, 6.28, 3))
    rad = draw(st.lists(num(rmin, 1.0, 3), min_size=n, max_size=n))
    th = phase
    pts = []
    for w, r in zip(weights, rad):
        pts.append([cx + s * r * math.cos(th), cz + s * r * math.sin(th)])
        th += 2 * math.pi * w / tot
    if draw(st.booleans()):
        pts.reverse()
    return [[float("%.9g" % x), float("%.9g" % z)] for x, z in pts]


@st.composite
def comb_polygon(draw):
    """Rectilinear comb / L / U shapes: strongly concave, many collinear vertices"""
    k = draw(st.integers(1, 3))
    base = draw(num(0.1, 0.5, 2))
    x = 0.0
    top = [[0.0, 0.0]]
    for _ in range(k):
        w = draw(num(0.1, 0.5, 2))
        h = draw(num(0.6, 1.5, 2))
        g = draw(num(0.1, 0.5, 2))
        top += [[x, h], [x + w, h], [x + w, base], [x + w + g, base]]
        x += w + g
    top += [[x, 0.0]]
    sx = draw(st.sampled_from([1.0, 0.1, 0.013]))
    ang = draw(num(0, 6.28, 2))
    import math

    c, s = math.cos(ang), math.sin(ang)
    pts = [[float("%.9g" % (2 + sx * (c * a - s * b))), float("%.9g" % (sx * (s * a + c * b)))] for a, b in top]
    k = draw(st.integers(0, len(pts) - 1))
    pts = pts[k:] + pts[:k]
    if draw(st.booleans()):
        pts.reverse()
    return pts


def rect_polygon(cx, cz):
    return st.builds(
        lambda x, z, w, h, rev: (lambda p: p[::-1] if rev else p)(
            [[x - w, z - h], [x - w, z + h], [x + w, z + h], [x + w, z - h]]
        ),
        cx, cz, num(0.005, 0.1, 4), num(0.005, 0.1, 4), st.booleans(),
    )


def polygon():
    return st.one_of(
        star_polygon(), star_polygon(scale=logmag(-2.5, 1), cx=num(-3, 3, 3), cz=num(-3, 3, 3)),
        comb_polygon(),
    )
