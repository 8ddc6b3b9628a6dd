"""C31: asking an equilibrium doesn't change it"""
import contextlib
import copy
import io
import os

import numpy as np
from hypothesis import strategies as st

from .. import plasma
from ..gen import num
from ..runner import Property, Skip
from ..util import close, require
from . import c16, c17

SHAPE = ["geometricAxis", "Rgeometric", "Zgeometric", "minorRadius", "aspectRatio", "inverseAspectRatio", "elongation", "elongationUpper", "elongationLower", "effectiveElongation",
         "triangularityUpper", "triangularityLower", "triangularity", "shafranovShift", "separatrix", "internalInductance1", "internalInductance3", "internalInductance", "betaN"]
PLAIN = ["plasmaCurrent", "plasmaVolume", "psi", "psiN", "fvac", "magneticAxis", "Rmagnetic", "Zmagnetic", "internalInductance2", "poloidalBeta", "poloidalBeta2", "poloidalBeta3", "toroidalBeta",
         "totalBeta", "pressure_ave", "w_th", "qcyl", "innerOuterSeparatrix", "getForces", "intersectsWall", "q"]
POINTS = ["plasmaBr", "plasmaBz", "Br", "Bz", "Bpol", "Btor", "Btot", "psiRZ", "psiNRZ"]
NORM = ["pprime", "ffprime", "pressure", "fpol"]
QNORM = ["q", "tor_flux", "rhotor"]
OTHER = ["geqdsk", "dump", "divgeo", "printForces", "printCurrents", "measure", "lines", "separatrix with arguments", "safety", "critical", "solver", "plot", "repr", "mask", "limits"]

PROP = Property(
    "C31",
    "equilibria of known flux (diverted and limited, with profiles, wall and sensors) and 6-20 queries in any order drawn from {} methods and functions: global quantities, shapes, fields at scalars, lists and arrays, profiles, safety factor, forces, measurements, "
    "tracing, writing files, plotting; every answer is that of an untouched copy, and nothing which was there before has changed; non-trivial = at least three different queries".format(len(SHAPE + PLAIN + POINTS + NORM + QNORM + OTHER)),
    ["the answers themselves are the subject of the other properties"],
)


@st.composite
def case(draw):
    cc = draw(c17.case())
    cc["c"]["nx"] = cc["c"]["ny"] = 17 if draw(st.booleans()) else 33
    n = draw(st.integers(6, 20))
    cc["queries"] = [draw(st.one_of(st.sampled_from(SHAPE), st.sampled_from(PLAIN), st.sampled_from(POINTS), st.sampled_from(NORM), st.sampled_from(QNORM), st.sampled_from(OTHER))) for _ in range(n)]
    cc["npts"] = draw(st.sampled_from([90, 180, 360]))
    cc["points"] = [[draw(num(0.2, 0.8, 2)), draw(num(0.2, 0.8, 2))] for _ in range(3)]
    cc["pform"] = draw(st.sampled_from(["scalar", "array", "2d"]))
    return cc


def state(eq):
    """Everything there is to an equilibrium"""
    tok = eq.tokamak
    prof = eq._profiles
    out = {k: copy.deepcopy(v) for k, v in vars(eq).items() if isinstance(v, (int, float, bool, str, type(None), np.ndarray, np.generic))}
    out["currents"] = [repr(x) for x in tok.coils]
    out["exact"] = [getattr(c, "current") for _, c in tok.coils] + [(c.R, c.Z) for _, c in tok.coils]
    out["controls"] = [c.control for _, c in tok.coils]
    out["wall"] = None if not tok.wall else (list(tok.wall.R), list(tok.wall.Z))
    out["profiles"] = {k: copy.deepcopy(v) for k, v in vars(prof).items() if isinstance(v, (int, float, np.generic))}
    out["spline"] = eq.psi_func(eq.R[::4, ::4], eq.Z[::4, ::4], grid=False)
    out["greens"] = copy.deepcopy(getattr(eq, "_pgreen", None))
    out["boundary"] = getattr(eq, "_applyBoundary", None)
    return out


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, float, np.generic)):
        return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)
    return a == b


def ask(eq, name, cc, ctx, which):
    from freegs import critical, divgeo, dump, fieldtracer, geqdsk, plotting

    g = plasma._grid(cc["c"])
    R = np.array([g["Rmin"] + p[0] * (g["Rmax"] - g["Rmin"]) for p in cc["points"]])
    Z = np.array([g["Zmin"] + p[1] * (g["Zmax"] - g["Zmin"]) for p in cc["points"]])
    if cc["pform"] == "2d":
        R, Z = np.stack([R, R]), np.stack([Z, Z])
    R0, Z0 = R.copy(), Z.copy()
    x = np.array([0.5, 0.2, 0.8])
    x0 = x.copy()
    if name in SHAPE:
        out = getattr(eq, name)() if cc["npts"] == 360 else getattr(eq, name)(npoints=cc["npts"])
    elif name in POINTS:
        out = getattr(eq, name)(float(R.flat[0]), float(Z.flat[0])) if cc["pform"] == "scalar" else getattr(eq, name)(R, Z)
    elif name in NORM + QNORM and which % 2:
        out = getattr(eq, name)(x)
    elif name in NORM:
        out = [getattr(eq, name)(float(v)) for v in x]
    elif name in PLAIN + QNORM:
        out = getattr(eq, name)()
    elif name == "geqdsk":
        f = io.StringIO()
        geqdsk.write(eq, f)
        # The header has the date
        out = f.getvalue().splitlines()[1:]
    elif name == "divgeo":
        f = io.StringIO()
        divgeo.write(eq, f)
        out = [line for line in f.getvalue().splitlines() if not any(m in line for m in ("written", "date", "time", "Date"))][3:]
    elif name == "dump":
        path = os.path.join(ctx.tmpdir(), "eq{}.h5".format(which))
        with dump.OutputFile(path, "w") as f:
            f.write_equilibrium(eq)
        out = None
    elif name in ("printForces", "printCurrents", "measure"):
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            {"printForces": eq.printForces, "printCurrents": eq.tokamak.printCurrents, "measure": lambda: eq.tokamak.printMeasurements(eq)}[name]()
        out = text.getvalue()
    elif name == "lines":
        out = fieldtracer.FieldTracer(eq).follow(R.ravel()[:2], Z.ravel()[:2], np.linspace(0, 1.0, 3))
    elif name == "separatrix with arguments":
        O, X = critical.find_critical(eq.R, eq.Z, eq.psi())
        keep = copy.deepcopy((O, X))
        psi = eq.psi()
        p0 = psi.copy()
        out = critical.find_separatrix(eq, O, X, ntheta=8, psi=psi)
        require(np.array_equal(psi, p0) and same(keep, (O, X)), "find_separatrix changed its arguments")
    elif name == "safety":
        out = critical.find_safety(eq, npsi=5)
    elif name == "critical":
        psi = eq.psi()
        a = [eq.R.copy(), eq.Z.copy(), psi.copy()]
        b = copy.deepcopy(a)
        out = critical.find_critical(*a)
        require(same(a, b), "find_critical changed its arguments")
    elif name == "mask":
        psi = eq.psi()
        O, X = critical.find_critical(eq.R, eq.Z, psi)
        a = [eq.R.copy(), eq.Z.copy(), psi.copy(), list(O), list(X)]
        b = copy.deepcopy(a)
        out = critical.core_mask(*a, psi_bndry=eq.psi_bndry)
        require(same(a, b), "core_mask changed its arguments")
    elif name == "solver":
        psi, rhs = eq.plasma_psi.copy(), -eq.R * np.exp(-eq.Z ** 2)
        p0, r0 = psi.copy(), rhs.copy()
        out = eq.callSolver(psi, rhs)
        require(np.array_equal(psi, p0) and np.array_equal(rhs, r0), "callSolver changed its arguments")
    elif name == "plot":
        import matplotlib.pyplot as plt

        try:
            ax = eq.plot(show=False)
            out = len(ax.lines)
            for _, c in eq.tokamak.coils:
                c.plot(axis=ax, show=False)
        finally:
            plt.close("all")
    elif name == "repr":
        out = [repr(c) for _, c in eq.tokamak.coils]
    elif name == "limits":
        out = eq.tokamak.generate_limit_points(20) if eq.tokamak.wall else None
    else:
        raise KeyError(name)
    require(np.array_equal(R, R0) and np.array_equal(Z, Z0) and np.array_equal(x, x0), "{} changed its arguments", name)
    return out


@PROP.sub(case, quick=80, thorough=2500, shards=(8, 8))
def queries(cc, ctx):
    import matplotlib

    matplotlib.use("Agg")
    from freegs import machine as m

    eq = c17.setup(cc)
    g = plasma._grid(cc["c"])
    mid = (g["Rmin"] + g["Rmax"]) / 2, (g["Zmin"] + g["Zmax"]) / 2
    eq.tokamak.sensors = [m.FluxLoopSensor(*mid, name="loop"), m.PoloidalFieldSensor(mid[0], mid[1], 0.4, name="probe"), m.RogowskiSensor([g["Rmin"], g["Rmax"], mid[0]], [g["Zmin"], g["Zmin"], g["Zmax"]], name="rog")]
    if eq.tokamak.wall is None:
        eq.tokamak.wall = m.Wall([g["Rmin"], g["Rmax"], g["Rmax"], g["Rmin"]], [g["Zmin"], g["Zmin"], g["Zmax"], g["Zmax"]])
    eq.Jtor = eq._profiles.Jtor(eq.R, eq.Z, eq.psi(), eq.psi_bndry)
    eq._current = cc["c"]["sign"] * 1.0e5
    from freegs import critical

    if not critical.find_critical(eq.R, eq.Z, eq.psi())[1] and any(q in ("separatrix with arguments",) for q in cc["queries"]):
        ctx.label("no X-point")
    pristine = copy.deepcopy(eq)
    before = state(eq)
    ctx.nontrivial(len(set(cc["queries"])) > 2)
    for i, name in enumerate(cc["queries"]):
        ctx.label(name)
        try:
            want = ask(copy.deepcopy(pristine), name, cc, ctx, i)
        except Exception as e:
            # Not for this equilibrium: the same again
            try:
                ask(eq, name, cc, ctx, i)
            except type(e):
                pass
            else:
                raise
            require(same(state(eq), before), "{} failed and changed the equilibrium", name)
            ctx.label("fails: {} {}".format(name, type(e).__name__))
            continue
        got = ask(eq, name, cc, ctx, i)
        require(same(got, want), "{} is {} after {}, but {} if asked first", name, got, cc["queries"][:i], want)
        after = state(eq)
        for k in before:
            require(k in after and same(after[k], before[k]), "{} changed {} of the equilibrium from {} to {}", name, k, before[k], after.get(k))
        require(set(after) == set(before), "{} added {}", name, set(after) - set(before))


@PROP.sub(c17.case, quick=24, thorough=200)
def starting_flux(cc, ctx):
    """An equilibrium doesn't change the flux it was made from"""
    import freegs

    c = cc["c"]
    c["nx"] = c["ny"] = 17
    g = plasma._grid(c)
    R, Z = np.meshgrid(np.linspace(g["Rmin"], g["Rmax"], g["nx"]), np.linspace(g["Zmin"], g["Zmax"], g["ny"]), indexing="ij")
    psi = plasma.plasma_psi(c, R, Z)
    keep = psi.copy()
    eq = plasma.make(c, freegs.machine.EmptyTokamak(), psi=psi)
    J = 1e5 * np.exp(-((R - R.mean()) ** 2 + (Z - Z.mean()) ** 2))
    J0 = J.copy()
    ctx.nontrivial()
    eq.solve(type("P", (), {})(), Jtor=J)
    require(np.array_equal(J, J0), "solve changed the current density given")
    require(np.array_equal(psi, keep), "solve changed the flux which the equilibrium was made from")
