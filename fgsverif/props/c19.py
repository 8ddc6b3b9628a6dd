"""C19: saving equilibria to HDF5 and reading them back"""
import io
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import coils, plasma
from ..gen import current, num, star_polygon
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C19",
    "machines of 0-6 coils of every type the format holds (circuits of point coils, mirrored, multi-filament, shaped, filaments with and without an outline, solenoids), labels "
    "of any characters, optional walls, domains, non-square grids, fluxes, boundary conditions and orders, in memory and on disk; solved equilibria; coils which "
    "the format can't hold; non-trivial = at least two coils, one of them not a point coil",
    ["not stored, by design: sensors, coil areas, current limits, profiles, R0, order of the coils",
     "labels are unique, not empty, and have no '/' (they are the names of HDF5 datasets)",
     "the current of a circuit all of whose multipliers are zero isn't stored"],
)

FUNCS = ["freeBoundary", "freeBoundaryHagenow", "fixedBoundary"]


@st.composite
def storable(draw):
    kind = draw(st.sampled_from(["coil", "shaped", "fil", "fil shape", "multi", "sol", "circuit", "mirrored"]))
    if kind == "coil":
        return draw(coils.point_coil())
    if kind == "shaped":
        return draw(coils.shaped_coil())
    if kind.startswith("fil"):
        c = draw(coils.filament_coil())
        if kind == "fil shape":
            c["shape"] = draw(coils.small_polygon())
        return c
    if kind == "multi":
        return draw(coils.multi_coil())
    if kind == "sol":
        return draw(coils.solenoid())
    if kind == "circuit":
        return draw(coils.circuit(inner=coils.point_coil(), unique=draw(st.booleans())))
    return draw(coils.mirrored())


LABEL = st.one_of(
    st.sampled_from(["P1L", "P1U", "a", "A", "10", "9", "Sol", "P 1", "β-coil", "x" * 60]),
    st.text(st.characters(codec="utf-8", exclude_characters="/\x00", exclude_categories=("Cs", "Cc")), min_size=1, max_size=8).filter(
        lambda s: s.strip(".") != ""),
)


@st.composite
def case(draw):
    labels = draw(st.lists(LABEL, min_size=0, max_size=6, unique=True))
    Rmin, Zmin = draw(num(0.05, 1, 4)), draw(num(-2, 1, 4))
    return {
        "coils": [[n, draw(storable())] for n in labels],
        "wall": draw(st.one_of(st.none(), star_polygon(min_n=3, max_n=12, cx=num(1.5, 2, 3), scale=num(0.3, 1, 3)))),
        "arrays": draw(st.booleans()),
        "Rmin": Rmin, "Rmax": round(Rmin + draw(num(0.3, 2, 4)), 6), "Zmin": Zmin, "Zmax": round(Zmin + draw(num(0.3, 2, 4)), 6),
        "nx": draw(st.sampled_from([9, 9, 17, 33])), "ny": draw(st.sampled_from([9, 9, 17, 33])),
        "psi": [draw(num(-1, 1, 3)) for _ in range(4)], "current": draw(current()),
        "boundary": draw(st.sampled_from(FUNCS)), "order": draw(st.sampled_from([2, 4])), "disk": draw(st.booleans()),
    }


def make(c):
    import freegs

    wall = None
    if c["wall"]:
        R, Z = [p[0] for p in c["wall"]], [p[1] for p in c["wall"]]
        wall = freegs.machine.Wall(np.array(R), np.array(Z)) if c["arrays"] else freegs.machine.Wall(R, Z)
    tok = freegs.machine.Machine([(n, coils.build(s)) for n, s in c["coils"]], wall)
    R, Z = np.meshgrid(np.linspace(c["Rmin"], c["Rmax"], c["nx"]), np.linspace(c["Zmin"], c["Zmax"], c["ny"]), indexing="ij")
    a = c["psi"]
    psi = a[0] * np.sin(3 * R + a[1]) * np.cos(2 * Z + a[2]) + a[3] * R * Z
    return freegs.Equilibrium(tokamak=tok, Rmin=c["Rmin"], Rmax=c["Rmax"], Zmin=c["Zmin"], Zmax=c["Zmax"], nx=c["nx"], ny=c["ny"],
                              psi=psi, current=c["current"], boundary=getattr(freegs.boundary, c["boundary"]), order=c["order"])


def through_file(eq, disk):
    import freegs

    if not disk:
        f = io.BytesIO()
        with freegs.OutputFile(f, "w") as out:
            out.write_equilibrium(eq)
        with freegs.OutputFile(f, "r") as inp:
            return inp.read_equilibrium()
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, "eq.h5")
        with freegs.OutputFile(name, "w") as out:
            out.write_equilibrium(eq)
        with freegs.OutputFile(name, "r") as inp:
            return inp.read_equilibrium()


def check_coil(got, want, R, Z, what):
    """The same type of coil, with the same current, and the same field everywhere"""
    require(type(got) is type(want), "{}: {} read as {}", what, type(want).__name__, type(got).__name__)
    require(bool(got.control) == bool(want.control), "{}: control", what)
    close(got.current, want.current, what + " current", rtol=1e-14)
    for name in ("R", "Z", "turns", "Rs", "Zsmin", "Zsmax", "Ns", "npoints_per_triangle", "mirror"):
        if hasattr(want, name) and type(want).__name__ != "Circuit":
            close(getattr(got, name), getattr(want, name), what + " " + name, rtol=1e-14)
    for name in ("shape", "points", "polarity"):
        if hasattr(want, name):
            close(np.asarray(getattr(got, name)), np.asarray(getattr(want, name)), what + " " + name, rtol=1e-14)
    for f in ("psi", "Br", "Bz", "controlPsi", "controlBr", "controlBz"):
        g, w = getattr(got, f)(R, Z), getattr(want, f)(R, Z)
        close(g, w, what + " " + f, rtol=1e-12, atol=1e-13 * float(np.max(np.abs(w)) + 1e-300))
    if type(want).__name__ == "Circuit":
        require([n for n, _, _ in got.coils] == [n for n, _, _ in want.coils], "{}: labels in the circuit", what)
        for (_, g, m), (n, w, k) in zip(got.coils, want.coils):
            close(m, k, what + " multiplier", rtol=1e-14)
            check_coil(g, w, R, Z, what + "/" + n)


def check_same(new, eq, spec=None):
    tol = dict(rtol=1e-14)
    for name in ("Rmin", "Rmax", "Zmin", "Zmax", "dR", "dZ"):
        close(getattr(new, name), getattr(eq, name), name, **tol)
    for name in ("R", "Z", "R_1D", "Z_1D", "plasma_psi"):
        close(getattr(new, name), getattr(eq, name), name, **tol)
    require((new.nx, new.ny) == (eq.nx, eq.ny), "grid size")
    close(new.plasmaCurrent(), eq.plasmaCurrent(), "plasma current", **tol)
    require(new._applyBoundary is eq._applyBoundary, "boundary condition {} read as {}", eq._applyBoundary.__name__, new._applyBoundary.__name__)
    require(new.order == eq.order, "order {} read as {}", eq.order, new.order)
    names = sorted(n for n, _ in eq.tokamak.coils)
    require(sorted(n for n, _ in new.tokamak.coils) == names, "labels {} read as {}", names, sorted(n for n, _ in new.tokamak.coils))
    R, Z = np.array([0.31, 1.07, 3.3]), np.array([0.213, -2.4, 1.1])
    for n in names:
        check_coil(new.tokamak[n], eq.tokamak[n], R, Z, n)
    a, b = eq.tokamak.wall, new.tokamak.wall
    require((a is None) == (b is None), "wall")
    if a is not None:
        close(b.R, np.array(a.R), "wall R", **tol)
        close(b.Z, np.array(a.Z), "wall Z", **tol)
        require(new.tokamak.limit_points_R is not None, "limiter points")
    p, q = eq.psi(), new.psi()
    close(q, p, "total flux", rtol=1e-11, atol=1e-12 * (np.max(np.abs(p)) + 1e-300))


@PROP.sub(case, quick=240, thorough=3000)
def round_trip(c, ctx):
    for _, s in c["coils"]:
        if s["t"] == "circuit" and all(m == 0 for _, _, m in s["coils"]):
            s["coils"][0][2] = 1.0
    eq = make(c)
    ctx.nontrivial(len(c["coils"]) > 1 and any(s["t"] != "coil" for _, s in c["coils"]))
    for _, s in c["coils"]:
        ctx.label(s["t"])
    before = [repr(x) for x in eq.tokamak.coils]
    new = through_file(eq, c["disk"])
    require([repr(x) for x in eq.tokamak.coils] == before, "writing changed the coils")
    check_same(new, eq)
    # Currents of circuits can differ in the last bit, so compare the machine read with its own copy
    again = through_file(new, not c["disk"])
    check_same(again, eq)
    if not any(s["t"] in ("circuit", "mirrored") for _, s in c["coils"]):
        require(new.tokamak == eq.tokamak, "machines don't compare equal")
        require(not (new.tokamak != eq.tokamak), "machines compare unequal")
        if c["coils"]:
            k = new.tokamak.coils[0][1]
            k.current = k.current + 1.0
            require(new.tokamak != eq.tokamak, "machines with different currents compare equal")


@st.composite
def solved_case(draw):
    c = draw(plasma.tokamak_case(sizes=(33, 17)))
    c["tokamak"] = draw(st.sampled_from(["TestTokamak", "MAST_sym", "TestTokamak"]))
    c["hagenow"] = draw(st.booleans())
    return c


@PROP.sub(solved_case, quick=16, thorough=160, shards=(8, 8))
def solved(c, ctx):
    """What is calculated from an equilibrium which was read is the same as from the original"""
    import freegs

    eq, prof, constrain = plasma.solved(c, getattr(freegs.machine, c["tokamak"])(),
                                        boundary=freegs.boundary.freeBoundaryHagenow if c["hagenow"] else freegs.boundary.freeBoundary)
    if eq.mask is None or np.sum(eq.mask) < 20:
        raise Skip("plasma too small")
    ctx.nontrivial()
    new = through_file(eq, True)
    check_same(new, eq)
    require((new.psi_axis is None) == (eq.psi_axis is None) and (new.psi_bndry is None) == (eq.psi_bndry is None), "critical points")
    close(new.psi_bndry, eq.psi_bndry, "boundary flux", rtol=1e-9)
    close(new.psi_axis, eq.psi_axis, "axis flux", rtol=1e-9)
    close(new.magneticAxis(), eq.magneticAxis(), "axis", rtol=1e-7, atol=1e-9)
    close(new.mask, eq.mask, "core")
    close(new.plasmaVolume(), eq.plasmaVolume(), "volume", rtol=1e-9)
    R, Z = np.array([0.9, 1.3]), np.array([0.1, -0.3])
    for f in ("psiRZ", "Br", "Bz"):
        close(getattr(new, f)(R, Z), getattr(eq, f)(R, Z), f, rtol=1e-8, atol=1e-10)
    # One more step from here is the same
    for e in (eq, new):
        p = plasma.profiles(e, c, c["sign"])
        constrain(e)
        e.solve(p)
    close(new.psi(), eq.psi(), "flux after another step", rtol=1e-6, atol=1e-7 * np.max(np.abs(eq.psi())))
    for (n, k) in eq.tokamak.coils:
        close(new.tokamak[n].current, k.current, "current in {} after another step".format(n), rtol=1e-5, atol=1.0)


@st.composite
def awkward_case(draw):
    kind = draw(st.sampled_from(["circuit of shaped", "many corners", "many filaments", "many multi", "unknown"]))
    return {"kind": kind, "n": draw(st.integers(0, 30)), "c": draw(coils.shaped_coil()), "f": draw(coils.filament_coil()), "m": draw(coils.multi_coil()),
            "which": draw(st.sampled_from(["shaped", "fil", "multi"])), "mult": draw(num(0.5, 2, 2))}


@PROP.sub(awkward_case, quick=60, thorough=600)
def never_silently_wrong(c, ctx):
    """What the file format can't hold is refused, or else read back right"""
    import freegs
    from freegs import machine

    kind = c["kind"]
    if kind == "circuit of shaped":
        inner = {"shaped": c["c"], "fil": c["f"], "multi": c["m"]}[c["which"]]
        coil = machine.Circuit([("a", coils.build(inner), c["mult"]), ("b", machine.Coil(1.0, 2.0), 1.0)], current=5.0)
    elif kind == "many corners":
        n = 9 + c["n"]
        t = 2 * np.pi * np.arange(n) / n
        coil = machine.ShapedCoil([(2 + 0.1 * np.cos(a), 0.1 * np.sin(a)) for a in t], current=7.0)
        ctx.label("holds" if n <= 10 else "too many")
    elif kind == "many filaments":
        n = 490 + c["n"]
        coil = machine.FilamentCoil(list(1 + np.arange(n) * 1e-3), list(np.arange(n) * 1e-3), current=7.0)
        ctx.label("holds" if n <= 500 else "too many")
    elif kind == "many multi":
        n = 490 + c["n"]
        coil = machine.MultiCoil(list(1 + np.arange(n) * 1e-3), list(np.arange(n) * 1e-3), current=7.0, mirror=bool(c["n"] % 2))
        ctx.label("holds" if n <= 500 else "too many")
    else:
        class Other:
            dtype = np.dtype([("x", float)])
            current, control = 1.0, True

            def psi(self, R, Z):
                return 0 * R

            Br = Bz = controlPsi = controlBr = controlBz = createPsiGreens = psi

            def calcPsiFromGreens(self, g):
                return g

            def to_numpy_array(self):
                return np.array((1.0,), dtype=self.dtype)

        coil = Other()
    ctx.label(kind)
    ctx.nontrivial()
    eq = freegs.Equilibrium(tokamak=machine.Machine([("P", coil)]), Rmin=0.5, Rmax=3, nx=9, ny=9)
    try:
        new = through_file(eq, False)
    except (ValueError, TypeError, AssertionError):
        require(kind not in ("many corners", "many filaments", "many multi") or (kind == "many corners" and 9 + c["n"] > 10)
                or (kind != "many corners" and 490 + c["n"] > 500), "refused to store {}", kind)
        return
    check_same(new, eq)
