"""C23: forces on coils"""
import contextlib
import copy
import io
import math
import re

import numpy as np
from hypothesis import strategies as st

from .. import coils, plasma, ref
from ..gen import current, logmag, num
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C23",
    "machines of 1-6 coils (points with given, limited or derived area and turns; polygons; circuits of these with any multipliers; solenoids and blocks of filaments as sources), with and without a plasma of known flux; "
    "non-trivial = at least two coils with current, or a plasma",
    ["coils at least 15 cm apart", "forces on blocks of filaments and solenoids aren't calculated by the library"],
)


def area():
    return st.one_of(st.none(), logmag(-4, -1), st.fixed_dictionaries({"J": logmag(6, 10)}))


@st.composite
def target(draw, I=None):
    """A coil for which forces are calculated"""
    s = draw(st.one_of(coils.point_coil(I=I), coils.point_coil(I=I), coils.shaped_coil(I=I)))
    if s["t"] == "coil":
        s["area"] = draw(area())
    return s


@st.composite
def force_case(draw):
    n = draw(st.integers(1, 4))
    out = []
    for i in range(n):
        kind = draw(st.sampled_from(["coil", "coil", "circuit", "circuit", "sol"]))
        if kind == "coil":
            s = draw(target())
        elif kind == "circuit":
            s = draw(coils.circuit(inner=st.one_of(target(), target(), target(), coils.solenoid())))
        else:
            s = draw(coils.solenoid())
        out.append(["m{}".format(i), s])
    return {"c": draw(plasma.analytic(sizes=(17, 33))), "coils": out, "plasma": draw(st.booleans()),
            "change": draw(st.one_of(st.none(), current())), "scale": draw(st.sampled_from([-1.0, 2.0, -0.5]))}


def build(s):
    from freegs import coil as fc, machine

    if s["t"] == "circuit":
        return machine.Circuit([(lab, build(c), m) for lab, c, m in s["coils"]], current=s["I"], control=s["control"])
    if s["t"] == "coil" and isinstance(s.get("area"), dict):
        return machine.Coil(s["R"], s["Z"], current=s["I"], turns=s["turns"], control=s["control"], area=fc.AreaCurrentLimit(s["area"]["J"]))
    return coils.build(s)


def parts(spec):
    """[(path, description, current)] of every conductor, circuits resolved"""
    out = []
    for name, s in spec:
        if s["t"] == "circuit":
            out += [((name, lab), c, m * s["I"]) for lab, c, m in s["coils"]]
        else:
            out.append(((name,), s, s["I"]))
    return out


def place(s):
    """Where the force is calculated"""
    if s["t"] == "coil":
        return s["R"], s["Z"]
    P = np.array(s["shape"])
    return float(P[:, 0].mean()), float(P[:, 1].mean())


def area_of(s, I):
    if s["t"] == "shaped":
        return abs(ref.shoelace(s["shape"]))
    a = s.get("area")
    if isinstance(a, dict):
        return abs(I * s["turns"]) / a["J"]
    if a is None:
        return abs(I * s["turns"]) / 3.5e9
    return a


def expected(spec, c=None):
    """{path: ((Fr, Fz), tolerance)}"""
    every = parts(spec)
    out = {}
    for path, s, I in every:
        if s["t"] == "sol":
            continue
        R, Z = place(s)
        br = bz = tol = 0.0
        for p2, s2, I2 in every:
            if p2 == path:
                continue
            if coils.distance(s2, R, Z) < 0.15:
                raise Skip("coils touch")
            r = coils.reference(s2, R, Z)
            br, bz, tol = br + I2 * r[1], bz + I2 * r[2], tol + abs(I2) * (r[4] + 1e-8 * (abs(r[1]) + abs(r[2])))
        if c is not None:
            q = c["scale"]
            g = plasma._grid(c)
            h = 1.0 / (min(c["nx"], c["ny"]) - 1)
            if g["Rmin"] < R < g["Rmax"] and g["Zmin"] < Z < g["Zmax"]:
                p = plasma.plasma_psi(c, R, Z)
                br -= -2 * ((Z - c["Z0"]) / q - c["axis"][1]) / c["width"][1] ** 2 / q * p / R
                bz += -2 * (R / q - c["axis"][0]) / c["width"][0] ** 2 / q * p / R
                tol += c["amp"] / (q * q) * (200 * h ** 3) / (R / q)
            else:
                raise Skip("coil outside the domain with plasma")
        It = I * s["turns"]
        if It == 0.0:
            out[path] = (np.zeros(2), 0.0)
            continue
        a = math.sqrt(area_of(s, I) / math.pi)
        hoop = ref.MU0 * It ** 2 / 2 * (math.log(8 * R / a) - 0.75)
        L = 2 * math.pi * R
        out[path] = (np.array([It * bz * L + hoop, -It * br * L]), abs(It) * tol * L * 1.5 + 1e-9 * abs(hoop) + 1e-30)
    return out


def flat(forces):
    out = {}
    for k, v in forces.items():
        if isinstance(v, dict):
            for k2, v2 in v.items():
                if isinstance(v2, dict):
                    require(v2 == {}, "forces of {} are {}", k2, v2)
                else:
                    out[(k, k2)] = v2
        else:
            out[(k,)] = v
    return out


def compare(got, want, what):
    got = flat(got)
    require(set(got) == set(want), "{}: forces are on {}, expected {}", what, sorted(got), sorted(want))
    for path, (f, tol) in want.items():
        require(np.shape(got[path]) == (2,), "{}: force on {} is {}", what, path, got[path])
        for k in (0, 1):
            close(float(got[path][k]), float(f[k]), "{}: F{} on {}".format(what, "RZ"[k], "/".join(path)), rtol=1e-6, atol=tol)


def scaled(spec, k):
    out = copy.deepcopy(spec)
    for _, s in out:
        s["I"] = s["I"] * k
    return out


@PROP.sub(force_case, quick=260, thorough=4000)
def forces(cc, ctx):
    from freegs import machine as m

    spec = cc["coils"]
    c = cc["c"] if cc["plasma"] else None
    want = expected(spec, c)
    live = [1 for _, s, I in parts(spec) if I != 0]
    ctx.nontrivial(len(live) > 1 or (cc["plasma"] and live))
    for _, s in spec:
        ctx.label(s["t"])
    ctx.label("plasma" if cc["plasma"] else "no plasma")
    tok = m.Machine([(n, build(s)) for n, s in spec])
    eq = plasma.make(c, tok) if c else None
    before = ([repr(x) for x in tok.coils], tok.getCurrents(), parts_now(tok))
    compare(eq.getForces() if eq is not None else tok.getForces(), want, "forces")
    require(([repr(x) for x in tok.coils], tok.getCurrents(), parts_now(tok)) == before, "calculating forces changed the coils:\n{}\nto\n{}", before, [repr(x) for x in tok.coils])
    if eq is not None:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            eq.printForces()
        printed = sum(1 for line in out.getvalue().splitlines() if " kN" in line)
        require(printed == len(want), "{} forces printed, expected {}", printed, len(want))
        got = [(float(a), float(b)) for a, b in re.findall(r"R = (\S+) kN , Z = (\S+) kN", out.getvalue())]
        for (path, (f, tol)), g in zip(want.items(), got):
            for k in (0, 1):
                close(g[k] * 1e3, float(f[k]), "printed force on {}".format("/".join(path)), rtol=1e-5, atol=tol + 5.01)
        compare(tok.getForces(), expected(spec), "forces of the coils alone")
        compare(eq.getForces(), want, "forces again")
    # A current is changed
    if cc["change"] is not None:
        new = copy.deepcopy(spec)
        new[-1][1]["I"] = cc["change"]
        tok[spec[-1][0]].current = cc["change"]
        compare(eq.getForces() if eq is not None else tok.getForces(), expected(new, c), "after changing a current")


def parts_now(tok):
    from freegs import machine as m

    return [[(lab, x.current, mult) for lab, x, mult in coil.coils] if isinstance(coil, m.Circuit) else coil.current for _, coil in tok.coils]


@st.composite
def relation_case(draw):
    n = draw(st.integers(2, 5))
    return {"coils": [["m{}".format(i), draw(target())] for i in range(n)], "k": draw(st.sampled_from([-1.0, 2.0, 3.0, -0.5])), "dz": draw(num(-2, 2, 2)),
            "circuit": draw(st.booleans()), "mult": [draw(num(-2, 2, 2)) for _ in range(n)]}


@PROP.sub(relation_case, quick=140, thorough=2000)
def relations(cc, ctx):
    """Newton's third law, currents scaled or reversed, mirrored, shifted, fed by one circuit"""
    from freegs import machine as m

    spec = cc["coils"]
    for i, (_, a) in enumerate(spec):
        for _, b in spec[:i]:
            if min(coils.distance(a, *place(b)), coils.distance(b, *place(a))) < 0.15:
                raise Skip("coils touch")
    spec = copy.deepcopy(spec)
    for _, s in spec:
        if s["t"] == "coil" and not isinstance(s["area"], float):
            s["area"] = 0.01
    I = [s["I"] for _, s in spec]
    ctx.nontrivial(sum(1 for x in I if x) > 1)

    def run(spec):
        return m.Machine([(n, build(s)) for n, s in spec]).getForces()

    f = run(spec)
    size = sum(abs(i) * s["turns"] for i, (_, s) in zip(I, spec))
    # Fields are differences of fluxes, so their precision is limited
    noise = {n: 3 * t + 1e-7 * ref.MU0 * abs(size * s["I"]) * s["turns"] for (n, s), (_, t) in zip(spec, expected(spec).values())}
    tol = sum(noise.values())
    if all(s["t"] == "coil" for _, s in spec):
        close(float(sum(x[1] for x in f.values())), 0.0, "sum of the vertical forces", atol=tol)
    g = run(scaled(spec, cc["k"]))
    for n in f:
        for k in (0, 1):
            close(float(g[n][k]), float(f[n][k]) * cc["k"] ** 2, "force when all currents are multiplied", rtol=1e-9, atol=1e-9 * noise[n])
    up, shift = copy.deepcopy(spec), copy.deepcopy(spec)
    for (_, s), (_, t) in zip(up, shift):
        if s["t"] == "coil":
            s["Z"] = -s["Z"]
            t["Z"] += cc["dz"]
        else:
            s["shape"] = [[r, -z] for r, z in s["shape"]]
            t["shape"] = [[r, z + cc["dz"]] for r, z in t["shape"]]
    # Vertices may be cut in other places when mirrored, so only near enough
    slack = [noise[n] + (0 if all(s["t"] == "coil" for _, s in spec) else 2e-2 * sum(abs(v) for v in f[n])) for n in f]
    g, h = run(up), run(shift)
    for n, t in zip(f, slack):
        close(float(g[n][0]), float(f[n][0]), "radial force, mirrored", rtol=1e-6, atol=t)
        close(float(g[n][1]), -float(f[n][1]), "vertical force, mirrored", rtol=1e-6, atol=t)
        for k in (0, 1):
            close(float(h[n][k]), float(f[n][k]), "force, everything moved up", rtol=1e-6, atol=noise[n])
    # One circuit, or as many coils with the same currents
    Ic = 1234.5
    one = m.Machine([("C", m.Circuit([(n, build(s), mult) for (n, s), mult in zip(spec, cc["mult"])], current=Ic))]).getForces()["C"]
    for (_, s), mult in zip(spec, cc["mult"]):
        s["I"] = mult * Ic
    sep = run(spec)
    require(set(one) == set(sep), "forces of a circuit are on {}", sorted(one))
    for n in sep:
        for k in (0, 1):
            close(float(one[n][k]), float(sep[n][k]), "force on a coil in a circuit", rtol=1e-9, atol=1e-15)
