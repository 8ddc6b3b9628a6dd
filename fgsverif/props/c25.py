"""C25: quadrature over triangles and polygons"""
import numpy as np
from hypothesis import strategies as st
from shapely.geometry import Polygon

from freegs import quadrature

from .. import ref
from ..gen import num, polygon
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C25",
    "simple polygons x rule (1, 3 or 6 points per triangle) x polynomial integrand up to the "
    "degree the rule is exact for (1, 2, 4); exact moments come from Green's theorem along the "
    "edges; non-trivial = more than three vertices, or a non-constant integrand",
)

DEGREE = {1: 1, 3: 2, 6: 4}


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 3, 6]))
    deg = draw(st.integers(0, DEGREE[n]))
    p = draw(st.integers(0, deg))
    return {"poly": draw(polygon()), "n": n, "p": p, "q": deg - p}


@PROP.sub(cases, quick=1500, thorough=16000)
def polynomial_exactness(c, ctx):
    P = Polygon(c["poly"])
    if not P.is_valid:
        raise Skip("not simple")
    ctx.nontrivial(len(c["poly"]) > 3 or c["p"] + c["q"] > 0)
    ctx.label("n={}".format(c["n"]))
    poly = [tuple(v) for v in c["poly"]]
    # Centre and scale, so that the moments are well conditioned
    cx, cz = P.centroid.x, P.centroid.y
    s = np.sqrt(P.area)
    unit = [((x - cx) / s, (z - cz) / s) for x, z in poly]
    exact = ref.poly_moment(unit, c["p"], c["q"]) / ref.poly_moment(unit, 0, 0)
    quad = quadrature.polygon_quad(poly, n=c["n"])
    require(poly == [tuple(v) for v in c["poly"]], "polygon modified")
    if c["n"] == 6:
        require(quadrature.polygon_quad(poly) == quad, "default number of points")
    close(sum(w for _, _, w in quad), 1.0, "sum of weights", rtol=1e-9)
    require(len(quad) == c["n"] * (len(poly) - 2), "number of points {}", len(quad))
    got = quadrature.average(
        lambda r, z: ((r - cx) / s) ** c["p"] * ((z - cz) / s) ** c["q"], quad
    )
    big = max(abs(x) + abs(z) for x, z in unit) ** (c["p"] + c["q"])
    close(got, exact, "average of x^{}y^{} with {} points".format(c["p"], c["q"], c["n"]),
          rtol=1e-8, atol=1e-8 * big)
    for r, z, w in quad:
        require(w > -1e-12, "negative weight {}", w)
        # inside the polygon
        require(ref.point_in_poly(poly, r, z) or ref.seg_dist(poly, r, z) < 1e-7 * s,
                "evaluation point ({}, {}) outside the polygon", r, z)


@st.composite
def tri(draw):
    c = num(-2, 2, 3)
    n = draw(st.sampled_from([1, 3, 6]))
    deg = draw(st.integers(0, DEGREE[n]))
    p = draw(st.integers(0, deg))
    return {"t": draw(st.lists(st.tuples(c, c), min_size=3, max_size=3)), "n": n, "p": p, "q": deg - p}


@PROP.sub(tri, quick=800, thorough=8000)
def triangle_rule(c, ctx):
    t = [tuple(v) for v in c["t"]]
    a = ref.shoelace(t)
    if abs(a) < 1e-4:
        raise Skip("degenerate")
    ctx.nontrivial(c["p"] + c["q"] > 0)
    quad = quadrature.triangle_quad(t, n=c["n"])
    require(len(quad) == c["n"], "number of points")
    close(sum(w for _, _, w in quad), 1.0, "sum of weights", rtol=1e-9)
    got = quadrature.average(lambda r, z: r ** c["p"] * z ** c["q"], quad)
    exact = ref.poly_moment(t, c["p"], c["q"]) / a
    close(got, exact, "average of x^{}y^{} over triangle".format(c["p"], c["q"]),
          rtol=1e-9, atol=1e-8 * 2.0 ** (c["p"] + c["q"]) + (1e-14 / abs(a)) * 2.0 ** (c["p"] + c["q"]))


@PROP.sub(st.integers(-3, 12), quick=20, thorough=20)
def unavailable_rule_refused(n, ctx):
    ctx.nontrivial(n not in DEGREE)
    try:
        quad = quadrature.triangle_quad([(0, 0), (0, 1), (1, 0)], n=n)
    except ValueError:
        require(n not in DEGREE, "rule {} refused", n)
        return
    require(n in DEGREE and len(quad) == n, "rule n={} accepted", n)
