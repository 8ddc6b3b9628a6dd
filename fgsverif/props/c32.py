"""C32: the predefined machines"""
import contextlib
import copy
import io
import os

import numpy as np
from hypothesis import strategies as st

from ..gen import num, signed
from ..runner import Property, Skip
from ..util import close, require

# Coils which are mirror images of each other (label: label), the accuracy of that, and those without a mirror image
UD = {"U": "L", "L": "U"}
MACHINES = {
    "TestTokamak": 1e-6, "TestTokamakLimited": 1e-6, "TestTokamakSensor": 1e-6, "DIIID": 0.03,
    "MAST": 1e-9, "MAST_sym": 1e-9, "TCV": 1e-9, "MASTU_simple": 1e-9, "MASTU": 1e-2,
}

# Coils which aren't controlled to start with
UNCONTROLLED = [("MASTU", "Solenoid")]

PROP = Property(
    "C32",
    "each of the nine predefined machines with random currents, seen from random points: mirrored currents give mirrored flux, field and measurements; machines don't share anything; control, adjustment, "
    "limits, printing, plotting, storing, tracing and measuring work with all of them and agree with sums over the coils; non-trivial = at least two coils with current",
    ["DIII-D's coils are mirror images to 3 %, the central coil of MAST-U's detailed description to 1 %; the vertical position coils of TCV (T1-T3) have no counterpart"],
)


def counterpart(name, label):
    if name == "DIIID":
        n = int(label[2:])
        pairs = {1: 10, 2: 11, 3: 12, 4: 13, 5: 14, 6: 15, 7: 16, 8: 17, 9: 18}
        pairs.update({v: k for k, v in pairs.items()})
        return "FC{}".format(pairs[n])
    if name == "TCV":
        return {"E": "E{}".format(9 - int(label[1:])), "F": "F{}".format(9 - int(label[1:]))}.get(label[0]) if label[1:].isdigit() else label
    if name in ("MAST", "TestTokamak", "TestTokamakLimited", "TestTokamakSensor") and label[-1] in UD:
        return label[:-1] + UD[label[-1]]
    return label


def antisymmetric(name, label):
    # Vertical position coils
    return (name, label) in (("MAST_sym", "P6"), ("MASTU", "P6"), ("MASTU_simple", "P61"), ("MASTU_simple", "P62"))


@st.composite
def case(draw):
    return {"name": draw(st.sampled_from(sorted(MACHINES))), "I": draw(st.lists(signed(1e2, 1e5, 1), min_size=20, max_size=20)),
            "off": draw(st.lists(st.booleans(), min_size=20, max_size=20)),
            "pts": draw(st.lists(st.tuples(num(0.02, 3, 3), num(-2, 2, 3)), min_size=1, max_size=4))}


def make(cc):
    from freegs import machine

    t = getattr(machine, cc["name"])()
    labels = [lab for lab, _ in t.coils]
    I = {lab: 0.0 if o else i for lab, i, o in zip(labels, cc["I"], cc["off"])}
    for lab in labels:
        t[lab].current = I[lab]
    return t, labels, I


def filaments(coil, w=1.0):
    from freegs import machine as m

    if isinstance(coil, m.Circuit):
        return [f for _, c, k in coil.coils for f in filaments(c, w * k)]
    if isinstance(coil, m.Solenoid):
        return [(coil.Rs, z, w) for z in np.linspace(coil.Zsmin, coil.Zsmax, coil.Ns)]
    if isinstance(coil, m.ShapedCoil):
        return [(coil.R, coil.Z, w)]
    if hasattr(coil, "points"):
        return [(r, z, w * coil.turns / len(coil.points)) for r, z in coil.points]
    return [(coil.R, coil.Z, w * coil.turns)]


@PROP.sub(case, quick=150, thorough=1500, shards=(4, 8))
def mirrored(cc, ctx):
    t, labels, I = make(cc)
    name, tol = cc["name"], MACHINES[cc["name"]]
    require(len(set(labels)) == len(labels), "labels of {} aren't unique: {}", name, labels)
    other = make(cc)[0]
    where = [f[:2] for _, c in t.coils for f in filaments(c)]
    pts = [p for p in cc["pts"] if all(np.hypot(r - p[0], abs(z) - abs(p[1])) > 0.2 for r, z in where)]
    if not pts:
        raise Skip("points at coils")
    for lab in labels:
        pair = counterpart(name, lab)
        if name == "TCV" and lab[0] == "T":
            other[lab].current = t[lab].current = I[lab] = 0.0
            continue
        require(pair in labels, "{} has no {}, the counterpart of {}", name, pair, lab)
        require(type(t[lab]) is type(t[pair]), "{} and {} of {} are of different types", lab, pair, name)
        if antisymmetric(name, lab):
            I[lab] = -I[lab]
        other[pair].current = I[lab]
    ctx.label(name)
    ctx.nontrivial(sum(v != 0 for v in I.values()) > 1)
    for r, z in pts:
        sc = sum(abs(c.current * c.controlPsi(r, z)) for _, c in t.coils)
        sb = sum(abs(c.current) * np.hypot(c.controlBr(r, z), c.controlBz(r, z)) for _, c in t.coils)
        # ShapedCoils aren't symmetric to better than the noise of the finite differences
        noise = 1e-8 * sum(abs(c.current) for _, c in t.coils)
        close(other.psi(r, -z), t.psi(r, z), "flux of mirrored " + name, atol=tol * sc + 1e-15)
        close(other.Br(r, -z), -t.Br(r, z), "Br of mirrored " + name, atol=3 * tol * sb + noise * 1e-4 + 1e-9)
        close(other.Bz(r, -z), t.Bz(r, z), "Bz of mirrored " + name, atol=3 * tol * sb + noise * 1e-4 + 1e-9)
    if name == "TestTokamakSensor":
        # Pairs of sensors above and below
        pairs = {"BP1": "BP2", "BP3": "BP4", "BP5": "BP6", "FL1": "FL2", "FL3": "FL4", "FL5": "FL6"}
        for x in (t, other):
            for s in x.sensors:
                s.get_measure(x, None)
        got = {s.name: s.measurement for s in t.sensors}
        mirror = {s.name: s.measurement for s in other.sensors}
        big = max(abs(v) for v in got.values()) + 1e-9
        for a, b in pairs.items():
            sign = -1 if a[0] == "B" else 1
            close(mirror[b], sign * got[a], "sensor {} against {}".format(b, a), atol=1e-5 * big)


@PROP.sub(case, quick=120, thorough=1200, shards=(4, 8))
def usable(cc, ctx):
    """Everything works with every machine"""
    import freegs
    from freegs import dump, machine, optimise
    from freegs.fieldtracer import FieldTracer

    t, labels, I = make(cc)
    name = cc["name"]
    before = getattr(machine, name)()
    ctx.label(name)
    ctx.nontrivial(sum(v != 0 for v in I.values()) > 1)
    # Nothing is shared with other machines of the kind
    require(all(c.current == 0.0 and c.control is ((name, lab) not in UNCONTROLLED) for lab, c in before.coils), "a new {} has currents {} and control {}", name, [c.current for _, c in before.coils], [c.control for _, c in before.coils])
    ids = {id(c) for _, c in t.coils} | {id(s) for s in t.sensors} | ({id(t.wall)} if t.wall else set())
    require(not any(id(x) in ids for x in [c for _, c in before.coils] + list(before.sensors) + ([before.wall] if before.wall else [])), "two {} share something", name)
    # Control: all coils, in order
    ctl = [lab for lab in labels if (name, lab) not in UNCONTROLLED]
    close(t.controlCurrents(), [I[lab] for lab in ctl], "controlled currents of " + name)
    change = np.arange(1, len(ctl) + 1, dtype=float)
    t.controlAdjust(change)
    close([t[lab].current for lab in labels], [I[lab] + (change[ctl.index(lab)] if lab in ctl else 0.0) for lab in labels], "adjusted currents of " + name)
    t.controlAdjust(-change)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        t.printCurrents()
    require(all(lab in out.getvalue() for lab in labels), "printCurrents of {} leaves out coils", name)
    # Sum over coils
    R, Z = np.meshgrid(np.linspace(0.05, 2.5, 9), np.linspace(-2, 2, 9), indexing="ij")
    eq = freegs.Equilibrium(tokamak=t, Rmin=0.05, Rmax=2.5, Zmin=-2, Zmax=2, nx=9, ny=9, psi=np.zeros((9, 9)))
    want = sum(c.current * c.controlPsi(R, Z) for _, c in t.coils)
    sc = sum(np.max(np.abs(c.current * c.controlPsi(R, Z))) for _, c in t.coils) + 1e-12
    close(eq.psi(), want, "flux of " + name, atol=1e-10 * sc)
    forces = t.getForces()
    require(sorted(forces) == sorted(labels), "forces on {}: {}", name, sorted(forces))
    # The wall encloses the plasma, and no coil outside it is inside
    if t.wall is not None:
        close(np.size(t.wall.R), np.size(t.wall.Z), "size of the wall of " + name)
        ft = FieldTracer(eq)
        mid = 0.5 * (min(t.wall.R) + max(t.wall.R))
        r = np.array([mid, min(t.wall.R) - 0.05, max(t.wall.R) + 0.05, mid, mid])
        z = np.array([0.1, 0.1, 0.1, max(t.wall.Z) + 0.1, min(t.wall.Z) - 0.1])
        inside = np.ones(5)
        ft.updateEvolving(r, z, inside)
        require(list(inside) == [1, 0, 0, 0, 0], "inside the wall of {}: {}", name, inside)
        W = np.column_stack([t.wall.R, t.wall.Z])
        a, b = W, np.roll(W, -1, axis=0)
        for x in np.column_stack([t.limit_points_R, t.limit_points_Z])[::7]:
            d = b - a
            L2 = np.maximum(np.sum(d * d, axis=1), 1e-30)
            s = np.clip(np.sum((x - a) * d, axis=1) / L2, 0, 1)
            require(np.min(np.hypot(*(x - a - s[:, None] * d).T)) < 1e-9, "limiter point {} of {} isn't on the wall", x, name)
        if name != "DIIID":
            # Mirror symmetric
            close(min(t.wall.Z), -max(t.wall.Z), "height of the wall of " + name)
            for x in W:
                require(np.min(np.hypot(W[:, 0] - x[0], W[:, 1] + x[1])) < 1e-9, "wall of {} has no mirror image of {}", name, x)
    # Storing: either refused or complete
    path = os.path.join(ctx.tmpdir(), "m.h5")
    stored = True
    try:
        with dump.OutputFile(path, "w") as f:
            f.write_equilibrium(eq)
    except (ValueError, TypeError, NotImplementedError, AttributeError):
        stored = False
    require(stored or name in ("TCV", "MASTU_simple", "MASTU"), "{} can't be stored", name)
    if stored:
        with dump.OutputFile(path, "r") as f:
            back = f.read_equilibrium()
        close(back.psi(), eq.psi(), "flux of stored " + name, atol=1e-10 * sc)
    # Largest current
    close(optimise.max_abs_coil_current(eq), max(abs(v) for v in I.values()), "largest current of " + name)
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    fig, ax = plt.subplots()
    try:
        for _, c in t.coils:
            c.plot(axis=ax, show=False)
    finally:
        plt.close("all")


@st.composite
def control_case(draw):
    return {"name": draw(st.sampled_from(sorted(MACHINES))), "xpt": [draw(num(0.55, 0.9, 3)), draw(num(-0.75, -0.5, 3))], "iso": draw(num(0.8, 1.3, 3)), "amp": draw(signed(0.1, 1, 2))}


@PROP.sub(control_case, quick=60, thorough=600, shards=(4, 8))
def control(cc, ctx):
    """X-points can be made with every machine"""
    import freegs
    from freegs import machine

    t = getattr(machine, cc["name"])()
    s = 1.6 if cc["name"] == "DIIID" else 1.0
    eq = freegs.Equilibrium(tokamak=t, Rmin=0.1, Rmax=2.5, Zmin=-2, Zmax=2, nx=17, ny=17)
    eq._updatePlasmaPsi(cc["amp"] * np.exp(-((eq.R - 0.9 * s) ** 2 + eq.Z ** 2) / 0.3))
    x = (s * cc["xpt"][0], cc["xpt"][1])
    where = [f[:2] for _, c in t.coils for f in filaments(c)]
    if any(np.hypot(r - x[0], abs(z) - abs(x[1])) < 0.1 for r, z in where):
        raise Skip("X-point at a coil")
    pts = [x, (x[0], -x[1])]
    if cc["name"] in ("MASTU", "MASTU_simple", "MAST_sym"):
        # These can't do without symmetry, and have it
        ctx.label("symmetric circuits")
    freegs.control.constrain(xpoints=pts, isoflux=[x + (x[0], -x[1])], gamma=1e-14)(eq)
    ctx.label(cc["name"])
    ctx.nontrivial()
    size = np.max(np.abs(eq.plasma_psi))
    for r, z in pts:
        require(np.hypot(eq.Br(r, z), eq.Bz(r, z)) < 2e-3 * size, "field {} {} at the X-point {} {} of {}", float(eq.Br(r, z)), float(eq.Bz(r, z)), r, z, cc["name"])
    close(eq.psiRZ(*pts[0]), eq.psiRZ(*pts[1]), "flux at the X-points of " + cc["name"], atol=1e-3 * size)
