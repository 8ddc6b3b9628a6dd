"""
Descriptions of coils as plain data: strategies, construction of the library's
objects from a description, and the reference set of filaments each stands for.
"""
import math

import numpy as np
from hypothesis import strategies as st

from . import ref
from .gen import current, logmag, num, rect_polygon, star_polygon

POINT = "coil"


def turns():
    return st.one_of(st.just(1), st.integers(1, 60))


def point_coil(R=num(0.2, 3.0, 4), Z=num(-2.0, 2.0, 4), I=None, area=False):
    d = {
        "t": st.just("coil"), "R": R, "Z": Z, "I": I or current(), "turns": turns(),
        "control": st.booleans(),
    }
    if area:
        d["area"] = st.one_of(st.none(), logmag(-4, -1))
    return st.fixed_dictionaries(d)


def small_polygon(R=num(0.5, 3.0, 3), Z=num(-2.0, 2.0, 3)):
    return st.one_of(
        rect_polygon(R, Z),
        star_polygon(min_n=3, max_n=8, cx=R, cz=Z, scale=num(0.01, 0.12, 3), rmin=0.3),
    )


def shaped_coil(I=None):
    return st.fixed_dictionaries({
        "t": st.just("shaped"), "shape": small_polygon(), "I": I or current(),
        "turns": turns(), "control": st.booleans(),
        "npoints": st.sampled_from([6, 6, 3, 1]),
    })


@st.composite
def filament_coil(draw, I=None):
    n = draw(st.integers(1, 6))
    R0, Z0 = draw(num(0.4, 3.0, 3)), draw(num(-2, 2, 3))
    off = num(-0.1, 0.1, 4)
    d = {
        "t": "fil",
        "Rfil": [round(R0 + draw(off), 6) for _ in range(n)],
        "Zfil": [round(Z0 + draw(off), 6) for _ in range(n)],
        "I": draw(I or current()), "turns": draw(turns()), "control": draw(st.booleans()),
    }
    if n == 1 and draw(st.booleans()):
        d["Rfil"], d["Zfil"] = d["Rfil"][0], d["Zfil"][0]
    return d


@st.composite
def multi_coil(draw, I=None):
    n = draw(st.integers(1, 6))
    R0, Z0 = draw(num(0.4, 3.0, 3)), draw(num(-2, 2, 3))
    off = num(-0.1, 0.1, 4)
    d = {
        "t": "multi",
        "R": [round(R0 + draw(off), 6) for _ in range(n)],
        "Z": [round(Z0 + draw(off), 6) for _ in range(n)],
        "I": draw(I or current()), "turns": draw(turns()), "control": draw(st.booleans()),
        "mirror": draw(st.booleans()),
        "polarity": draw(st.sampled_from([[1.0, 1.0], [1.0, -1.0], [-1.0, 1.0], [-1.0, -1.0]])),
    }
    if n == 1 and draw(st.booleans()):
        d["R"], d["Z"] = d["R"][0], d["Z"][0]
    return d


@st.composite
def solenoid(draw, I=None):
    z0 = draw(num(-1.5, 1.0, 3))
    return {
        "t": "sol", "R": draw(num(0.05, 0.8, 4)), "Zmin": z0,
        "Zmax": round(z0 + draw(num(0.05, 2.5, 3)), 6),
        "Ns": draw(st.integers(2, 40)), "I": draw(I or current()), "control": draw(st.booleans()),
    }


def simple(I=None):
    return st.one_of(point_coil(I=I), shaped_coil(I=I), filament_coil(I=I), multi_coil(I=I),
                     solenoid(I=I))


def multiplier():
    return st.one_of(st.sampled_from([1.0, -1.0, 0.0, 2.0, 0.01]), num(-3, 3, 3))


@st.composite
def circuit(draw, inner=None, I=None, min_size=1, unique=True):
    inner = inner or simple()
    n = draw(st.integers(min_size, 4))
    coils = []
    for i in range(n):
        label = "c{}".format(i) if unique else draw(st.sampled_from(["c0", "c1"]))
        coils.append([label, draw(inner), draw(multiplier())])
    return {"t": "circuit", "coils": coils, "I": draw(I or current()), "control": draw(st.booleans())}


@st.composite
def mirrored(draw, I=None):
    return {
        "t": "mirrored", "R": draw(num(0.2, 3, 3)), "Z": draw(num(-2, 2, 3)),
        "I": draw(I or current()), "turns": draw(turns()), "control": draw(st.booleans()),
        "symmetric": draw(st.booleans()),
    }


def any_coil(I=None):
    return st.one_of(point_coil(I=I), shaped_coil(I=I), filament_coil(I=I), multi_coil(I=I),
                     solenoid(I=I), circuit(I=I), mirrored(I=I))


def build(s):
    """The library's object for a description"""
    from freegs import machine

    t = s["t"]
    if t == "coil":
        kw = {}
        if s.get("area") is not None:
            kw["area"] = s["area"]
        return machine.Coil(s["R"], s["Z"], current=s["I"], turns=s["turns"],
                            control=s["control"], **kw)
    if t == "shaped":
        return machine.ShapedCoil([tuple(p) for p in s["shape"]], current=s["I"],
                                  turns=s["turns"], control=s["control"], npoints=s["npoints"])
    if t == "fil":
        kw = {}
        if s.get("shape"):
            kw["shape"] = [tuple(p) for p in s["shape"]]
        return machine.FilamentCoil(s["Rfil"], s["Zfil"], current=s["I"], turns=s["turns"],
                                    control=s["control"], **kw)
    if t == "multi":
        R, Z = s["R"], s["Z"]
        if isinstance(R, list):
            R, Z = list(R), list(Z)
        return machine.MultiCoil(R, Z, current=s["I"], turns=s["turns"], control=s["control"],
                                 mirror=s["mirror"], polarity=list(s["polarity"]))
    if t == "sol":
        return machine.Solenoid(s["R"], s["Zmin"], s["Zmax"], s["Ns"], current=s["I"],
                                control=s["control"])
    if t == "circuit":
        return machine.Circuit([(lab, build(c), m) for lab, c, m in s["coils"]],
                               current=s["I"], control=s["control"])
    if t == "mirrored":
        return machine.MirroredCoil(s["R"], s["Z"], current=s["I"], turns=s["turns"],
                                    control=s["control"], symmetric=s["symmetric"])
    raise KeyError(t)


def _subdivide(tri, k):
    """Points of a degree 2 rule on each of 4^k congruent parts of a triangle"""
    tris = [tri]
    for _ in range(k):
        out = []
        for a, b, c in tris:
            ab, bc, ca = (a + b) / 2, (b + c) / 2, (c + a) / 2
            out += [(a, ab, ca), (ab, b, bc), (ca, bc, c), (ab, bc, ca)]
        tris = out
    return [q for a, b, c in tris
            for q in ((4 * a + b + c) / 6, (a + 4 * b + c) / 6, (a + b + 4 * c) / 6)]


def polygon_filaments(shape, k=2):
    """Points and (signed) weights summing to one representing uniform density over a
    polygon: a fan of signed triangles from the first vertex, so concave is fine"""
    p = [np.array(v, float) for v in shape]
    pts = []
    areas = []
    for i in range(1, len(p) - 1):
        a, b, c = p[0], p[i], p[i + 1]
        area = 0.5 * ((b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]))
        cs = _subdivide((a, b, c), k)
        for q in cs:
            pts.append((q[0], q[1]))
            areas.append(area / len(cs))
    tot = sum(areas)
    return [(r, z, w / tot) for (r, z), w in zip(pts, areas)]


def filaments(s):
    """[(R, Z, ampere-turns per unit current)] which the description stands for"""
    t = s["t"]
    if t == "coil":
        return [(s["R"], s["Z"], float(s["turns"]))]
    if t == "shaped":
        return [(r, z, w * s["turns"]) for r, z, w in polygon_filaments(s["shape"])]
    if t == "fil":
        R, Z = np.atleast_1d(s["Rfil"]), np.atleast_1d(s["Zfil"])
        return [(r, z, s["turns"] / len(R)) for r, z in zip(R, Z)]
    if t == "multi":
        scalar = not isinstance(s["R"], list)
        R, Z = np.atleast_1d(s["R"]), np.atleast_1d(s["Z"])
        n = s["turns"] if scalar else 1
        out = [(r, z, n * s["polarity"][0]) for r, z in zip(R, Z)]
        if s["mirror"]:
            out += [(r, -z, n * s["polarity"][1]) for r, z in zip(R, Z)]
        return out
    if t == "sol":
        return [(s["R"], s["Zmin"] + (s["Zmax"] - s["Zmin"]) * i / (s["Ns"] - 1), 1.0)
                for i in range(s["Ns"])]
    if t == "circuit":
        return [(r, z, w * m) for _, c, m in s["coils"] for r, z, w in filaments(c)]
    if t == "mirrored":
        sign = 1.0 if s["symmetric"] else -1.0
        return [(s["R"], s["Z"], float(s["turns"])), (s["R"], -s["Z"], sign * s["turns"])]
    raise KeyError(t)


def quad_error(s, R, Z):
    """Allowance (flux, field) per unit current for polygon quadrature seen from (R,Z)"""
    if s["t"] == "circuit":
        f = b = 0.0
        for _, c, m in s["coils"]:
            cf, cb = quad_error(c, R, Z)
            f += abs(m) * cf
            b += abs(m) * cb
        return f, b
    if s["t"] != "shaped":
        return 0.0, 0.0
    P = np.array(s["shape"])
    c = P.mean(axis=0)
    h = np.max(np.hypot(P[:, 0] - c[0], P[:, 1] - c[1]))
    d = np.min(np.hypot(P[:, 0] - R, P[:, 1] - Z))
    x = min(h / max(d, 1e-9), 1.0)
    p = {1: 2, 3: 3, 6: 5}[s["npoints"]]
    # the reference itself is a degree 2 rule on 4^2 parts per triangle
    rel = QFAC * x ** p + 0.2 * (x / 4) ** 3 + 0.05 * (h / max(c[0] - h, 0.05)) ** p
    flux = ref.MU0 * math.sqrt(R * c[0])
    return s["turns"] * rel * flux, s["turns"] * rel * ref.MU0 / (2 * math.pi) * (1 / d + 1 / R)


QFAC = 0.4


def reference(s, R, Z):
    """(psi, Br, Bz, tolerances) per unit current at one point, from the filaments"""
    psi = br = bz = 0.0
    tb = ts = 0.0
    for r, z, w in filaments(s):
        psi += w * float(ref.greens_arr(r, z, R, Z))
        b = ref.greens_B_arr(r, z, R, Z)
        br += w * float(b[0])
        bz += w * float(b[1])
        tb += abs(w) * ref.fd_tol(r, z, R, Z)
        ts += abs(w) * ref.MU0 * math.sqrt(r * R) * 1e-8
    qf, qb = quad_error(s, R, Z)
    return psi, br, bz, ts + qf, tb + qb


def distance(s, R, Z):
    """Distance of a point from the conductors"""
    d = min(math.hypot(r - R, z - Z) for r, z, _ in filaments(s))
    if s["t"] == "shaped":
        d = min(d, ref.seg_dist(s["shape"], R, Z))
    if s["t"] == "circuit":
        d = min([d] + [distance(c, R, Z) for _, c, _ in s["coils"]])
    return d
