"""C02: what each kind of coil produces"""
import numpy as np
from hypothesis import strategies as st
from shapely.geometry import Polygon

from .. import coils, ref
from ..gen import current, logmag, num
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C02",
    "every coil type with generated geometry, current, turns, polarity, mirroring and circuit "
    "multipliers, at generated points outside the conductors, against a superposition of "
    "reference filaments; non-trivial = non-zero current and not a single-turn point coil",
    [
        "polygonal coils: allowance for the quadrature order chosen (1, 3 or 6 points)",
        "fields: allowance for 1 mm central differences",
    ],
)


@st.composite
def case(draw):
    s = draw(coils.any_coil())
    pts = draw(st.lists(st.tuples(num(0.06, 3.5, 4), num(-2.5, 2.5, 4)), min_size=1, max_size=3))
    return {"coil": s, "pts": pts, "I2": draw(current())}


def _interesting(s):
    if s["t"] == "circuit":
        return s["I"] != 0 and any(m != 0 for _, _, m in s["coils"])
    return s["I"] != 0 and not (s["t"] == "coil" and s["turns"] == 1)


@PROP.sub(case, quick=700, thorough=8000, shards=(2, 8))
def response_is_sum_of_filaments(c, ctx):
    s = c["coil"]
    coil = coils.build(s)
    ctx.label(s["t"])
    n = 0
    for R, Z in c["pts"]:
        if coils.distance(s, R, Z) < 0.06:
            continue
        n += 1
        psi, br, bz, tpsi, tb = coils.reference(s, R, Z)
        close(coil.controlPsi(R, Z), psi, s["t"] + " flux per unit current", rtol=1e-7, atol=tpsi)
        close(coil.controlBr(R, Z), br, s["t"] + " Br per unit current", rtol=1e-7, atol=tb)
        close(coil.controlBz(R, Z), bz, s["t"] + " Bz per unit current", rtol=1e-7, atol=tb)
        for I in (s["I"], c["I2"]):
            if I != s["I"]:
                coil.current = I
            a = abs(I)
            close(coil.psi(R, Z), I * psi, s["t"] + " flux", rtol=1e-7, atol=a * tpsi)
            close(coil.Br(R, Z), I * br, s["t"] + " Br", rtol=1e-7, atol=a * tb)
            close(coil.Bz(R, Z), I * bz, s["t"] + " Bz", rtol=1e-7, atol=a * tb)
            require(coil.current == I, "current reads back as {}", coil.current)
        coil.current = s["I"]
    if n == 0:
        raise Skip("all points inside conductors")
    ctx.nontrivial(_interesting(s))


@st.composite
def grid_case(draw):
    shape = draw(st.sampled_from([[1], [4], [3, 2], [2, 2, 2]]))
    n = int(np.prod(shape))
    return {
        "coil": draw(coils.any_coil()),
        "shape": shape,
        "R": draw(st.lists(num(0.06, 3.5, 4), min_size=n, max_size=n)),
        "Z": draw(st.lists(num(-2.5, 2.5, 4), min_size=n, max_size=n)),
        "I2": draw(current()),
    }


@PROP.sub(grid_case, quick=300, thorough=3000)
def arrays_and_stored_response(c, ctx):
    """Array evaluation is elementwise, and the stored response on a grid gives the same
    flux as direct evaluation, for the current at the time of use"""
    s = c["coil"]
    coil = coils.build(s)
    ctx.label(s["t"])
    ctx.nontrivial(_interesting(s) and len(c["R"]) > 1)
    R = np.array(c["R"]).reshape(c["shape"])
    Z = np.array(c["Z"]).reshape(c["shape"])
    stored = coil.createPsiGreens(R, Z)
    for I in (s["I"], c["I2"]):
        coil.current = I
        scale = sum(abs(w) for _, _, w in coils.filaments(s)) * 1e-5 * max(abs(I), 1)
        for name in ("psi", "Br", "Bz", "controlPsi", "controlBr", "controlBz"):
            f = getattr(coil, name)
            got = f(R, Z)
            want = np.array([f(r, z) for r, z in zip(c["R"], c["Z"])]).reshape(c["shape"])
            close(got, want, "{} {} of array".format(s["t"], name), rtol=1e-11, atol=1e-13 * scale)
        close(coil.calcPsiFromGreens(stored), coil.psi(R, Z), s["t"] + " flux from stored response",
              rtol=1e-11, atol=1e-13 * scale)


@st.composite
def populated(draw):
    return {
        "shape": draw(coils.small_polygon(R=num(0.6, 2.5, 3))),
        "n": draw(st.integers(1, 60)),
        "I": draw(current()),
        "turns": draw(coils.turns()),
        "far": [draw(num(3.0, 6.0, 3)), draw(num(-3, 3, 3))],
    }


@PROP.sub(populated, quick=120, thorough=1200)
def populated_outline(c, ctx):
    """A filament coil given only an outline fills it with filaments sharing its current"""
    from freegs.machine import FilamentCoil

    coil = FilamentCoil(shape=[tuple(p) for p in c["shape"]], current=c["I"], Nfils=c["n"],
                        turns=c["turns"])
    pts = np.array(coil.points)
    ctx.nontrivial(c["n"] > 1)
    require(len(pts) >= 1, "no filaments")
    ext = np.ptp(np.array(c["shape"]))
    for r, z in pts:
        require(ref.point_in_poly(c["shape"], r, z) or ref.seg_dist(c["shape"], r, z) < 1e-6 * ext,
                "filament ({}, {}) outside the outline", r, z)
    R, Z = c["far"]
    want = np.mean([ref.greens_arr(r, z, R, Z) for r, z in pts]) * c["turns"]
    close(coil.controlPsi(R, Z), want, "flux per unit current of outlined coil", rtol=1e-7)
    close(coil.psi(R, Z), want * c["I"], "flux of outlined coil", rtol=1e-7, atol=1e-30)
    close(coil.area, abs(ref.shoelace(c["shape"])), "cross-section area", rtol=1e-9)


@st.composite
def precalc(draw):
    nR, nZ = draw(st.integers(5, 9)), draw(st.integers(5, 9))
    return {
        "nR": nR, "nZ": nZ, "src": [draw(num(2.5, 3.5, 3)), draw(num(-1, 1, 3))],
        "I": draw(current()), "turns": draw(coils.turns()),
        "i": draw(st.integers(0, nR - 1)), "j": draw(st.integers(0, nZ - 1)),
    }


@PROP.sub(precalc, quick=150, thorough=1500)
def tabulated_response(c, ctx):
    """A coil with tabulated 1 A-turn response reproduces the tables, times current x turns"""
    from freegs.machine import PreCalcCoil

    r = np.linspace(0.5, 2.0, c["nR"])
    z = np.linspace(-1.0, 1.0, c["nZ"])
    Rg, Zg = np.meshgrid(r, z)  # [Z, R]
    rc, zc = c["src"]
    psi = ref.greens_arr(rc, zc, Rg, Zg)
    br, bz = ref.greens_B_arr(rc, zc, Rg, Zg)
    coil = PreCalcCoil([(rc - .1, zc - .1), (rc + .1, zc - .1), (rc + .1, zc + .1), (rc - .1, zc + .1)],
                       Rg, Zg, br, bz, psi, current=c["I"], turns=c["turns"])
    ctx.nontrivial(c["turns"] > 1 and c["I"] != 0)
    i, j = c["i"], c["j"]
    N, I = c["turns"], c["I"]
    for name, table in (("Psi", psi), ("Br", br), ("Bz", bz)):
        scale = np.max(np.abs(table)) * N
        got = getattr(coil, "control" + name)(r[i], z[j])
        close(got, table[j, i] * N, "tabulated " + name, rtol=1e-7, atol=1e-8 * scale)
        full = getattr(coil, "psi" if name == "Psi" else name)
        close(full(r[i], z[j]), table[j, i] * N * I, "tabulated " + name + " x current",
              rtol=1e-7, atol=1e-8 * scale * abs(I))
        close(full(Rg, Zg), table * N * I, "tabulated " + name + " array", rtol=1e-7,
              atol=1e-8 * scale * abs(I))


BUILTIN = ["TestTokamak", "TestTokamakLimited", "TestTokamakSensor", "DIIID", "MAST", "MAST_sym",
           "TCV", "MASTU_simple", "MASTU"]


@st.composite
def machine_case(draw):
    return {
        "coils": draw(st.lists(coils.any_coil(), min_size=0, max_size=4)),
        "R": draw(num(0.06, 3.5, 4)), "Z": draw(num(-2.5, 2.5, 4)),
    }


@PROP.sub(machine_case, quick=300, thorough=3000)
def machine_is_superposition(c, ctx):
    from freegs.machine import Machine

    m = Machine([("c{}".format(i), coils.build(s)) for i, s in enumerate(c["coils"])])
    R, Z = c["R"], c["Z"]
    if any(coils.distance(s, R, Z) < 0.06 for s in c["coils"]):
        raise Skip("inside conductor")
    ctx.nontrivial(len(c["coils"]) > 1)
    tot = np.zeros(3)
    tp = tb = 0.0
    for s in c["coils"]:
        psi, br, bz, t1, t2 = coils.reference(s, R, Z)
        tot += np.array([psi, br, bz]) * s["I"]
        tp += t1 * abs(s["I"]) + 1e-7 * abs(psi * s["I"])
        tb += t2 * abs(s["I"]) + 1e-7 * abs(s["I"]) * (abs(br) + abs(bz))
    close(m.psi(R, Z), tot[0], "machine flux", atol=tp)
    close(m.Br(R, Z), tot[1], "machine Br", atol=tb)
    close(m.Bz(R, Z), tot[2], "machine Bz", atol=tb)
    # Responses of the controlled coils only, in order
    ctl = [s for s in c["coils"] if s["control"]]
    for name, k in (("controlPsi", 0), ("controlBr", 1), ("controlBz", 2)):
        got = getattr(m, name)(R, Z)
        require(len(got) == len(ctl), "{} responses for {} controlled coils", len(got), len(ctl))
        for g, s in zip(got, ctl):
            r = coils.reference(s, R, Z)
            close(g, r[k], name, rtol=1e-7, atol=r[3] if k == 0 else r[4])
    require(m.controlCurrents() == [s["I"] for s in ctl], "control currents")
    cur = m.getCurrents()
    require(cur == {"c{}".format(i): s["I"] for i, s in enumerate(c["coils"])}, "currents {}", cur)
