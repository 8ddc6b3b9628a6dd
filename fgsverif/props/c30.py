"""C30: coils which are moved"""
import copy

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import Polygon

from .. import coils
from ..gen import current, num
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C30",
    "coils of every movable type (point, polygon, filaments with and without outline or filled automatically, blocks with and without mirror), alone or in circuits, in a machine with others; 1-8 operations which set or shift R or Z, move it there and back, change current, turns or control, "
    "copy the coil or store and load it; afterwards everything about it is compared with a coil built at the final place; non-trivial = at least two moves",
    ["the position of a polygon or outline is the mean of its corners, that of a block the mean of its filaments"],
)


def movable():
    return st.one_of(coils.point_coil(area=True), coils.shaped_coil(), coils.filament_coil(), coils.multi_coil(), outlined(), filled())


@st.composite
def outlined(draw):
    d = draw(coils.filament_coil())
    r0, z0 = np.min(d["Rfil"]), np.min(d["Zfil"])
    r1, z1 = np.max(d["Rfil"]) + 0.02, np.max(d["Zfil"]) + 0.03
    d["shape"] = [[float(r0), float(z0)], [float(r1), float(z0)], [float(r1), float(z1)], [float(r0) - 0.01, float(z1) + 0.05]]
    return d


@st.composite
def filled(draw):
    return {"t": "filled", "shape": draw(coils.small_polygon()), "Nfils": draw(st.integers(4, 30)), "I": draw(current()), "turns": draw(coils.turns()), "control": draw(st.booleans())}


op = st.one_of(
    st.tuples(st.just("R"), num(0.3, 3, 3)), st.tuples(st.just("Z"), num(-2, 2, 3)), st.tuples(st.just("dR"), num(0, 0.5, 3)), st.tuples(st.just("dZ"), num(-0.5, 0.5, 3)),
    st.tuples(st.just("there and back"), num(0.5, 2, 2)), st.tuples(st.just("I"), current()), st.tuples(st.just("turns"), st.integers(1, 30)), st.tuples(st.just("control"), st.booleans()),
    st.tuples(st.just("copy"), st.just(0)), st.tuples(st.just("store"), st.just(0)),
)


@st.composite
def history(draw):
    return {"coil": draw(movable()), "circuit": draw(st.booleans()), "mult": draw(num(-2, 2, 2)), "other": draw(coils.simple()), "ops": draw(st.lists(op, min_size=1, max_size=8)),
            "pts": draw(st.lists(st.tuples(num(0.2, 3.2, 2), num(-2.2, 2.2, 2)), min_size=1, max_size=4)), "poly": draw(coils.star_polygon(cx=num(0.5, 2.5, 2), cz=num(-1, 1, 2), scale=num(0.5, 1.5, 2)))}


def build(s):
    from freegs import machine as m

    if s["t"] == "filled":
        return m.FilamentCoil(shape=[tuple(p) for p in s["shape"]], Nfils=s["Nfils"], current=s["I"], turns=s["turns"], control=s["control"])
    return coils.build(s)


def position(s):
    if s["t"] == "coil":
        return s["R"], s["Z"]
    if s["t"] in ("shaped", "filled") or s.get("shape"):
        P = np.array(s["shape"])
        return P[:, 0].mean(), P[:, 1].mean()
    if s["t"] == "fil":
        return (np.min(s["Rfil"]) + np.max(s["Rfil"])) / 2, (np.min(s["Zfil"]) + np.max(s["Zfil"])) / 2
    return np.mean(s["R"]), np.mean(s["Z"])


def moved(s, dR, dZ):
    """Description of the same coil elsewhere"""
    s = copy.deepcopy(s)
    if s.get("shape"):
        s["shape"] = [[float(r + dR), float(z + dZ)] for r, z in s["shape"]]
    for a, b in (("R", "Z"), ("Rfil", "Zfil")):
        if a in s:
            if isinstance(s[a], list):
                s[a], s[b] = [float(x + dR) for x in s[a]], [float(x + dZ) for x in s[b]]
            else:
                s[a], s[b] = float(s[a] + dR), float(s[b] + dZ)
    return s


@PROP.sub(history, quick=500, thorough=8000)
def moves(c, ctx):
    from freegs import machine as m

    s = copy.deepcopy(c["coil"])
    given = build(s)
    # What was passed stays as it is
    args = {k: copy.deepcopy(s[k]) for k in ("R", "Z", "Rfil", "Zfil", "shape") if k in s}
    if s["t"] in ("multi", "fil") and isinstance(s.get("R", s.get("Rfil")), list):
        names = ("R", "Z") if s["t"] == "multi" else ("Rfil", "Zfil")
        lists = [np.array(s[k], float) for k in names]
        keep = [x.copy() for x in lists]
        if s["t"] == "multi":
            given = m.MultiCoil(*lists, current=s["I"], turns=s["turns"], control=s["control"], mirror=s["mirror"], polarity=list(s["polarity"]))
        else:
            given = m.FilamentCoil(*lists, shape=[tuple(p) for p in s["shape"]] if s.get("shape") else None, current=s["I"], turns=s["turns"], control=s["control"])
    else:
        lists = keep = []
    if c["circuit"]:
        s["I"] = s["I"] * c["mult"]
        outer = m.Circuit([("x", given, c["mult"]), ("y", coils.build(c["other"]), 0.5)], current=c["coil"]["I"], control=c["coil"]["control"])
        tok = m.Machine([("C", outer)])
        get = lambda: tok["C"]["x"]
        Iout = c["coil"]["I"]
    else:
        tok = m.Machine([("C", given), ("other", coils.build(c["other"]))])
        get = lambda: tok["C"]
    R, Z = position(s)
    close(get().R, R, "R", rtol=1e-12)
    close(get().Z, Z, "Z", rtol=1e-12, atol=1e-12)
    n = 0
    copies = []
    for name, v in c["ops"]:
        k = get()
        R, Z = position(s)
        low = 0.12
        ctx.label(name)
        if name in ("R", "dR"):
            new = v if name == "R" else R + v
            if min(moved(s, new - R, 0).get("Rfil") or [9] if isinstance(moved(s, new - R, 0).get("Rfil"), list) else [9]) < low or (s.get("shape") and min(p[0] for p in s["shape"]) + new - R < low):
                continue
            if s["t"] == "multi" and np.min(s["R"]) + new - R < low:
                continue
            if name == "R":
                k.R = new
            else:
                k.R += v
            s = moved(s, new - R, 0)
            n += 1
        elif name in ("Z", "dZ"):
            new = v if name == "Z" else Z + v
            if name == "Z":
                k.Z = new
            else:
                k.Z += v
            s = moved(s, 0, new - Z)
            n += 1
        elif name == "there and back":
            k.R, k.Z = k.R * v, k.Z + v
            k.Z, k.R = k.Z - v, k.R / v
            n += 1
        elif name == "I":
            if c["circuit"]:
                tok["C"].current = Iout = v
                s["I"] = v * c["mult"]
            else:
                k.current = s["I"] = v
        elif name == "turns":
            if s["t"] in ("multi", "filled"):
                continue
            k.turns = s["turns"] = v
        elif name == "control":
            tok["C"].control = v
            s["control"] = v
        elif name == "copy":
            copies.append((copy.deepcopy(tok), copy.deepcopy(s)))
        elif name == "store":
            if s["t"] == "filled" or len(s.get("shape") or []) > 10:
                continue
            if c["circuit"]:
                continue
            new = type(k).from_numpy_array(k.to_numpy_array())
            tok.coils[0] = ("C", new)
            if s["t"] == "coil":
                s["area"] = None  # Not stored
    ctx.nontrivial(n > 1)
    ctx.label(s["t"])
    check(tok, get(), s, c)
    for t, d in copies:
        check(t, t["C"]["x"] if c["circuit"] else t["C"], d, c)
    for a, b in zip(lists, keep):
        require(np.array_equal(a, b), "moving the coil changed the arrays it was made from")


def check(tok, k, s, c):
    from freegs import machine as m

    R, Z = position(s)
    close(k.R, R, "R", rtol=1e-9)
    close(k.Z, Z, "Z", rtol=1e-9, atol=1e-9)
    close(k.current, s["I"], "current", rtol=1e-12, atol=1e-12)
    require(k.turns == (s["turns"] if not (s["t"] == "multi" and isinstance(s["R"], list)) else len(s["R"])), "{} turns", k.turns)
    require(bool(k.control) == s["control"], "control is {}", k.control)
    new = build(s)
    # Filling an outline depends on where the scan lines are, so start from the first position
    points = [p for p in c["pts"]]
    if s["t"] == "filled":
        start = build(c["coil"])
        R0, Z0 = position(c["coil"])
        new = m.FilamentCoil([p[0] + R - R0 for p in start.points], [p[1] + Z - Z0 for p in start.points], shape=[tuple(p) for p in s["shape"]], current=s["I"], turns=s["turns"], control=s["control"])
    if getattr(k, "shape", None) is not None:
        close(np.array(k.shape, float), np.array(new.shape, float), "outline", rtol=1e-8, atol=1e-8)
        close(k.area, new.area, "area", rtol=1e-9, atol=1e-15)
    elif s["t"] == "coil":
        close(k.area, s["area"] if s.get("area") is not None else abs(s["I"] * s["turns"]) / 3.5e9, "area", rtol=1e-9)
    fils = coils.filaments(s) if s["t"] != "filled" else [(p[0], p[1], 1) for p in new.points]
    total = tok.psi
    for Rp, Zp in points:
        d = min(np.hypot(Rp - f[0], Zp - f[1]) for f in fils)
        if d < 0.05:
            continue
        # Differences of fluxes, as the field is, multiply rounding errors
        one = 1e-6 * max(s["turns"], 1) * len(fils)
        for f, tol in (("controlPsi", 1e-7 * one), ("controlBr", 3e-5 * one / d), ("controlBz", 3e-5 * one / d)):
            close(float(getattr(k, f)(Rp, Zp)), float(getattr(new, f)(Rp, Zp)), f + " at {}".format((Rp, Zp)), rtol=1e-6, atol=tol)
            g = {"controlPsi": "psi", "controlBr": "Br", "controlBz": "Bz"}[f]
            close(float(getattr(k, g)(Rp, Zp)), float(getattr(new, g)(Rp, Zp)), g, rtol=1e-6, atol=tol * abs(s["I"]) + 1e-30)
        maps = tok.createPsiGreens(np.array([Rp]), np.array([Zp]))
        other = coils.build(c["other"])
        if c["circuit"]:
            oc = float(other.controlPsi(Rp, Zp)) * 0.5 * tok["C"].current
        else:
            oc = float(other.psi(Rp, Zp))
        want = float(new.psi(Rp, Zp)) + oc
        close(float(np.ravel(tok.calcPsiFromGreens(maps))[0]), want, "flux of the machine from precomputed maps", rtol=1e-6, atol=1e-7 * one * abs(s["I"]) + 1e-9 * abs(oc))
        close(float(tok.psi(Rp, Zp)), want, "flux of the machine", rtol=1e-6, atol=1e-7 * one * abs(s["I"]) + 1e-9 * abs(oc))
    poly = Polygon(c["poly"])
    if poly.is_valid:
        if s["t"] == "shaped":
            close(k.inShape(poly), new.inShape(poly), "turns inside", rtol=1e-6, atol=1e-6 * s["turns"])
        elif min(poly.exterior.distance(_pt(f)) for f in fils) > 1e-6:
            close(k.inShape(poly), new.inShape(poly), "turns inside", rtol=1e-9, atol=1e-12)


def _pt(f):
    from shapely.geometry import Point

    return Point(f[0], f[1])
