"""C22: sensors"""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import Point, Polygon

from .. import coils, plasma, ref
from ..gen import num, star_polygon
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C22",
    "machines of 1-5 coils of any type (turns, circuits with multipliers, mirrored blocks, solenoids), with and without a plasma of known flux or current density, flux loops, field probes at any angle and Rogowski loops "
    "of any simple outline, switched on or off; non-trivial = plasma present, or more than one coil with some current inside the loop",
    ["sensors at least 15 cm from conductors (field) and with no conductor on the outline (Rogowski)", "plasma current density is constant in each cell around a grid point, as the library takes it"],
)


@st.composite
def machine(draw, kinds=None):
    n = draw(st.integers(1, 5))
    return [["c{}".format(i), draw(coils.any_coil())] for i in range(n)]


@st.composite
def point_case(draw):
    c = draw(plasma.analytic(sizes=(17, 33)))
    return {
        "c": c, "coils": draw(machine()), "plasma": draw(st.booleans()),
        "points": [[draw(num(0.1, 0.9, 3)), draw(num(0.1, 0.9, 3)), draw(num(-7, 7, 2)), draw(st.sampled_from([True, True, False]))]
                   for _ in range(draw(st.integers(1, 4)))],
        "arrangement": draw(st.sampled_from(["one by one", "machine", "print"])),
    }


def measure(tok, eq, how):
    if how == "one by one":
        for s in tok.sensors:
            s.get_measure(tok, eq)
    elif how == "machine":
        tok.takeMeasurements(eq) if eq is not None else tok.takeMeasurements()
    else:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            tok.printMeasurements(eq)
        for s in tok.sensors:
            if s.name is not None:
                require(s.name in out.getvalue(), "sensor {} isn't printed", s.name)
            if s.status:
                require(str(s.measurement) in out.getvalue(), "measurement {} isn't printed", s.measurement)


@PROP.sub(point_case, quick=300, thorough=4000)
def flux_and_field(cc, ctx):
    from freegs import machine as m

    c = cc["c"]
    g = plasma._grid(c)
    sensors, want = [], []
    for x, z, theta, on in cc["points"]:
        R, Z = g["Rmin"] + x * (g["Rmax"] - g["Rmin"]), g["Zmin"] + z * (g["Zmax"] - g["Zmin"])
        if min(coils.distance(s, R, Z) for _, s in cc["coils"]) < 0.15:
            raise Skip("next to a coil")
        psi = br = bz = ts = tb = 0.0
        for _, s in cc["coils"]:
            r = coils.reference(s, R, Z)
            I = s["I"]
            psi, br, bz = psi + I * r[0], br + I * r[1], bz + I * r[2]
            ts, tb = ts + abs(I) * r[3], tb + abs(I) * r[4]
        if cc["plasma"]:
            s = c["scale"]
            p = plasma.plasma_psi(c, R, Z)
            dR = -2 * (R / s - c["axis"][0]) / c["width"][0] ** 2 / s * p
            dZ = -2 * ((Z - c["Z0"]) / s - c["axis"][1]) / c["width"][1] ** 2 / s * p
            psi, br, bz = psi + p, br - dZ / R, bz + dR / R
            h = 1.0 / (min(c["nx"], c["ny"]) - 1)
            ts += c["amp"] * (30 * h ** 4 + 1e-12)
            tb += c["amp"] / (s * s) * (200 * h ** 3) / (R / s)
        sensors += [m.FluxLoopSensor(R, Z, name="loop{}".format(len(sensors)), status=on), m.PoloidalFieldSensor(R, Z, theta, name=None, status=on)]
        want += [(psi, ts), (br * math.cos(theta) + bz * math.sin(theta), tb * 1.5)]
    tok = m.Machine([(n, coils.build(s)) for n, s in cc["coils"]], None, sensors)
    eq = plasma.make(c, tok) if cc["plasma"] else None
    before = [repr(x) for x in tok.coils]
    ctx.nontrivial(cc["plasma"] or len(cc["coils"]) > 1)
    ctx.label("plasma" if cc["plasma"] else "coils")
    measure(tok, eq, cc["arrangement"])
    for s, (w, tol) in zip(sensors, want):
        if not s.status:
            require(s.measurement is None, "sensor which is off has measured {}", s.measurement)
            s.status = True
            s.get_measure(tok, eq)
        close(float(s.measurement), w, type(s).__name__, rtol=1e-7, atol=tol + 1e-15)
    require([repr(x) for x in tok.coils] == before, "measuring changed the coils")
    # As made
    a = c["Z0"] + 0.25
    for make, theta in ((lambda **k: m.FluxLoopSensor(1.5, a, **k), None), (lambda **k: m.PoloidalFieldSensor(1.5, a, 0.75, **k), 0.75)):
        x, y = make(), make(name="some", weight=2.5, status=False, measurement=1.25)
        require([x.name, x.weight, bool(x.status), x.measurement] == [None, 1, True, None], "sensor without a name and so on has {}", [x.name, x.weight, x.status, x.measurement])
        require([y.name, y.weight, bool(y.status), y.measurement] == ["some", 2.5, False, 1.25], "sensor has {}", [y.name, y.weight, y.status, y.measurement])
        require((y.R, y.Z) == (1.5, a) and (theta is None or y.theta == theta), "position of a sensor is {}, {}", y.R, y.Z)
    # Opposite direction of a probe
    for s in sensors:
        if isinstance(s, m.PoloidalFieldSensor):
            o = m.PoloidalFieldSensor(s.R, s.Z, s.theta + math.pi)
            o.get_measure(tok, eq)
            close(float(o.measurement), -float(s.measurement), "probe turned round", rtol=1e-6, atol=1e-9 * (abs(s.measurement) + 1e-6) + 1e-12 * sum(abs(x["I"]) for _, x in cc["coils"]) * 4e-5)


@st.composite
def rogowski_case(draw):
    c = {"coils": draw(machine()), "loop": draw(star_polygon(min_n=3, max_n=8, cx=num(0.8, 2.5, 3), cz=num(-1, 1, 3), scale=num(0.3, 2.2, 3), rmin=0.4)),
         "around": draw(st.booleans()), "on": draw(st.sampled_from([True, True, True, False])),
         "plasma": draw(st.booleans()), "nx": draw(st.sampled_from([9, 17])), "ny": draw(st.sampled_from([9, 17])),
         "J": [draw(num(-1e6, 1e6, 0)), draw(num(-1e6, 1e6, 0)), draw(num(0, 6, 1)), draw(num(0, 6, 1))], "arrangement": draw(st.sampled_from(["one by one", "machine", "print"]))}
    return c


def inside(s, P):
    """Ampere-turns inside per unit current, exactly"""
    if s["t"] == "shaped":
        A = Polygon(s["shape"])
        return s["turns"] * P.intersection(A).area / A.area
    if s["t"] == "circuit":
        return sum(m * inside(k, P) for _, k, m in s["coils"])
    total = 0.0
    for r, z, w in coils.filaments(s):
        if P.exterior.distance(Point(r, z)) < 1e-7:
            raise Skip("conductor on the loop")
        if P.contains(Point(r, z)):
            total += w
    return total


@PROP.sub(rogowski_case, quick=240, thorough=3000)
def rogowski(c, ctx):
    import freegs
    from freegs import machine as m

    loop = c["loop"]
    if c["around"]:
        # Around the first coil
        f = np.array([x[:2] for x in coils.filaments(c["coils"][0][1])])
        k = f.mean(axis=0) - np.mean(np.array(loop), axis=0)
        loop = [[p[0] + k[0], p[1] + k[1]] for p in loop]
    P = Polygon(loop)
    if not P.is_valid:
        raise Skip("not a simple loop")
    turns = [inside(s, P) for _, s in c["coils"]]
    want = sum(s["I"] * t for (_, s), t in zip(c["coils"], turns))
    scale = sum(abs(s["I"]) * sum(abs(x[2]) for x in coils.filaments(s)) for _, s in c["coils"])
    s = m.RogowskiSensor([p[0] for p in loop], [p[1] for p in loop], status=c["on"], name="rog")
    tok = m.Machine([(n, coils.build(x)) for n, x in c["coils"]], sensors=[s])
    eq = None
    tol = 1e-9 * scale
    if c["plasma"]:
        eq = freegs.Equilibrium(tokamak=tok, Rmin=0.3, Rmax=2.5, Zmin=-1.5, Zmax=1.2, nx=c["nx"], ny=c["ny"])
        a = c["J"]
        eq.Jtor = a[0] * np.sin(a[2] * eq.R) * np.cos(eq.Z) + a[1] * np.cos(a[3] * eq.Z)
        # Cells around grid points; those cut by the loop are sampled
        dR, dZ = 2.2 / (c["nx"] - 1), 2.7 / (c["ny"] - 1)
        for i in range(c["nx"]):
            for j in range(c["ny"]):
                R, Z = 0.3 + i * dR, -1.5 + j * dZ
                box = [[R - dR / 2, Z - dZ / 2], [R + dR / 2, Z - dZ / 2], [R + dR / 2, Z + dZ / 2], [R - dR / 2, Z + dZ / 2]]
                want += eq.Jtor[i, j] * _clipped_area(loop, box)
        tol += 1e-7 * np.max(np.abs(eq.Jtor)) * 6
    ctx.nontrivial(c["plasma"] or (len(turns) > 1 and any(turns)))
    ctx.label("plasma" if c["plasma"] else "coils")
    for (_, x), t in zip(c["coils"], turns):
        if t:
            ctx.label(x["t"])
    measure(tok, eq, c["arrangement"])
    if not c["on"]:
        require(s.measurement is None, "sensor which is off has measured {}", s.measurement)
        s.status = True
        s.get_measure(tok, eq)
    close(float(s.measurement), want, "current inside the loop", rtol=1e-9, atol=tol)


def _clipped_area(poly, box):
    """Area of a polygon inside a rectangle, by clipping against its four sides (Sutherland-Hodgman); concave polygons give the right area"""
    (x0, y0), (x1, _), (_, y1), _ = box
    out = [tuple(p) for p in poly]
    for axis, lim, keep in ((0, x0, 1), (0, x1, -1), (1, y0, 1), (1, y1, -1)):
        new = []
        for p, q in zip(out, out[1:] + out[:1]):
            a, b = keep * (p[axis] - lim), keep * (q[axis] - lim)
            if a >= 0:
                new.append(p)
            if (a > 0 > b) or (a < 0 < b):
                t = a / (a - b)
                new.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
        out = new
        if not out:
            return 0.0
    return abs(ref.shoelace(out))


@PROP.sub(lambda: st.fixed_dictionaries({"coils": machine()}), quick=10, thorough=50)
def without_sensors(c, ctx):
    from freegs import machine as m

    ctx.nontrivial()
    tok = m.Machine([(n, coils.build(s)) for n, s in c["coils"]])
    tok.takeMeasurements()
    with contextlib.redirect_stdout(io.StringIO()):
        tok.printMeasurements()
