"""C14: the nonlinear (Picard) solve"""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import romb

from .. import plasma
from ..gen import num
from ..runner import Property, Skip
from ..util import close, finite, require

MU0 = 4e-7 * np.pi

PROP = Property(
    "C14",
    "free-boundary calculations on the test tokamak (domain, X-points, pressure/beta, current, field, profile exponents, direction "
    "of current, tolerance, blending, order and 17-65 point grids generated), fixed-boundary calculations without coils, and iteration limits "
    "too small to converge; the iteration is recorded from outside by wrapping the control system; non-trivial = at least three iterations",
    ["cases which don't converge within 100 iterations are only required to say so"],
)


@st.composite
def case(draw, sizes=(33, 33, 33, 65, 17)):
    c = draw(plasma.tokamak_case(sizes=sizes))
    c["rtol"] = draw(st.sampled_from([1e-2, 1e-3, 1e-3, 1e-4]))
    c["blend"] = draw(st.sampled_from([0.0, 0.0, 0.3, 0.6]))
    c["method"] = draw(st.sampled_from(["free", "free", "free", "hagenow"]))
    return c


def _run(c, maxits=100, **kw):
    """Solve, recording the flux before and after each call of the control system"""
    import freegs
    from freegs import boundary

    eq, prof, constrain = plasma.tokamak_problem(
        c, boundary=boundary.freeBoundaryHagenow if c.get("method") == "hagenow" else boundary.freeBoundary)
    if "field" in c:
        eq._updatePlasmaPsi(eq.plasma_psi * c["field"])
    rec = []

    def control(e):
        require(e is eq, "control system called with something else")
        before = e.psi(), e.psi_bndry
        constrain(e)
        rec.append((before[0], e.psi(), before[1]))

    info = freegs.solve(eq, prof, control, rtol=c["rtol"], blend=c["blend"], maxits=maxits, convergenceInfo=True, **kw)
    return eq, prof, constrain, rec, info


def _converged(c, **kw):
    try:
        return _run(c, **kw)
    except RuntimeError:
        raise Skip("didn't converge")
    except ValueError as e:
        if "O-point" in str(e):
            raise Skip("plasma lost")
        raise


def _residual(eq):
    """Of the Grad-Shafranov equation, away from the edges, by differences of the equilibrium's order"""
    p, R = eq.plasma_psi, eq.R
    h, k = eq.dR, eq.dZ
    if eq.order == 2:
        c = slice(1, -1)
        d2R = (p[2:, c] - 2 * p[1:-1, c] + p[:-2, c]) / h ** 2
        dR = (p[2:, c] - p[:-2, c]) / (2 * h)
        d2Z = (p[c, 2:] - 2 * p[c, 1:-1] + p[c, :-2]) / k ** 2
    else:
        c = slice(2, -2)
        d2R = (-p[4:, c] + 16 * p[3:-1, c] - 30 * p[2:-2, c] + 16 * p[1:-3, c] - p[:-4, c]) / (12 * h * h)
        dR = (-p[4:, c] + 8 * p[3:-1, c] - 8 * p[1:-3, c] + p[:-4, c]) / (12 * h)
        d2Z = (-p[c, 4:] + 16 * p[c, 3:-1] - 30 * p[c, 2:-2] + 16 * p[c, 1:-3] - p[c, :-4]) / (12 * k * k)
    return d2R - dR / R[c, c] + d2Z + MU0 * R[c, c] * eq.Jtor[c, c]


@PROP.sub(case, quick=64, thorough=800, shards=(8, 8))
def converged_solution(c, ctx):
    eq, prof, constrain, rec, (mx, rel) = _converged(c)
    psi = eq.psi()
    ctx.nontrivial(len(mx) >= 3)
    ctx.label(c["kind"])
    ctx.label("blend {}".format(c["blend"]))
    finite(psi, "flux")
    # The record of convergence is what happened
    require(len(mx) == len(rel) == len(rec), "{} and {} changes recorded in {} iterations", len(mx), len(rel), len(rec))
    last = rec[0][1]
    for i in range(len(rec)):
        new = rec[i + 1][0] if i + 1 < len(rec) else psi
        d = np.max(np.abs(new - last))
        scale = np.ptp(new)
        close(mx[i], d, "change in iteration {}".format(i), rtol=1e-9, atol=1e-12 * scale)
        close(rel[i], d / scale, "relative change in iteration {}".format(i), rtol=1e-9, atol=1e-12)
        if i + 1 < len(rec):
            # Next step starts from a blend of new and old
            last = (1 - c["blend"]) * rec[i + 1][1] + c["blend"] * last
    require(rel[-1] < c["rtol"] or mx[-1] < 1e-10, "last relative change {} is not below {}", float(rel[-1]), c["rtol"])
    b0, b1 = rec[-1][2], eq.psi_bndry
    if len(rec) > 1 and b0 is not None:
        require(abs(b1 - b0) <= 1.001 * c["rtol"] * abs(b1) + 1e-10, "boundary flux still changing: {} {}", float(b0), float(b1))
    # Solves the equation, with the current of its own flux
    J = eq.Jtor
    s = MU0 * np.max(np.abs(eq.R * J)) + np.max(np.abs(eq.plasma_psi)) / min(eq.dR, eq.dZ) ** 2
    close(_residual(eq), np.zeros(_residual(eq).shape), "residual of the equation", atol=1e-9 * s)
    close(eq.plasmaCurrent(), c["sign"] * c["Ip"], "plasma current", rtol=1e-9)
    if c["rtol"] <= 1e-3 and c["blend"] < 0.5 and c["nx"] >= 33 and c["ny"] >= 33:
        # Steps are proportional to 1-blend, so blending hides a part of the change
        J2 = prof.Jtor(eq.R, eq.Z, psi)
        m = np.sum(np.abs(J2 - J)) / np.sum(np.abs(J))
        require(m < 60 * c["rtol"] + 1e-3, "current density of the flux differs by {} from that of the solution", m)
        I = np.array([k.current for _, k in eq.tokamak.coils])
        constrain(eq)
        d = np.max(np.abs(np.array([k.current for _, k in eq.tokamak.coils]) - I))
        require(d < (100 * c["rtol"] + 1e-3) * np.max(np.abs(I)), "coil currents haven't converged: change {} of {}", d, np.max(np.abs(I)))
    if c["kind"] == "paxis":
        close(eq.pressure(0.0), c["value"], "pressure on axis", rtol=1e-6)


@st.composite
def limit_case(draw):
    c = draw(case(sizes=(17,)))
    c["rtol"] = draw(st.sampled_from([0.1, 1e-2, 1e-3, 1e-12]))
    c["maxits"] = draw(st.one_of(st.integers(1, 8), st.integers(5, 25)))
    return c


@PROP.sub(limit_case, quick=60, thorough=500, shards=(8, 8))
def says_if_not_converged(c, ctx):
    calls = []
    try:
        eq, prof, constrain, rec, (mx, rel) = _run(c, maxits=c["maxits"], atol=0.0)
    except ValueError:
        raise Skip("plasma lost")
    except RuntimeError:
        ctx.label("said so")
        ctx.nontrivial()
        return
    ctx.label("converged")
    ctx.nontrivial()
    require(len(mx) <= c["maxits"] + 1, "{} iterations with a limit of {}", len(mx), c["maxits"])
    require(rel[-1] < c["rtol"], "returned without converging: last relative change {}, tolerance {}", float(rel[-1]), c["rtol"])


@st.composite
def symmetry_case(draw):
    c = draw(plasma.tokamak_case(sizes=(33,)))
    c["rtol"], c["blend"] = 1e-4, draw(st.sampled_from([0.0, 0.2]))
    c["how"] = draw(st.sampled_from(["reversed", "mirrored", "scaled"]))
    c["k"] = draw(st.sampled_from([0.5, 2.0, 3.0]))
    return c


@PROP.sub(symmetry_case, quick=32, thorough=400, shards=(8, 8))
def symmetries(c, ctx):
    """Reversed current, upside down, and all fields multiplied by a number"""
    eq, prof, constrain, rec, (mx, rel) = _converged(c)
    d = dict(c)
    if c["how"] == "reversed":
        d["sign"], d["fvac"] = -c["sign"], -c["fvac"]
        back, cur = (lambda p: -p), -1.0
    elif c["how"] == "mirrored":
        d.update(Zmin=-c["Zmax"], Zmax=-c["Zmin"], xl=[c["xu"][0], -c["xu"][1]], xu=[c["xl"][0], -c["xl"][1]])
        back, cur = (lambda p: p[:, ::-1]), None
    else:
        k = c["k"]
        d.update(Ip=c["Ip"] * k, fvac=c["fvac"] * k, field=k)
        if c["kind"] == "paxis":
            d["value"] = c["value"] * k * k
        back, cur = (lambda p: p / k), k
    eq2, _, _, rec2, (mx2, rel2) = _converged(d)
    ctx.nontrivial(len(mx) >= 3)
    ctx.label(c["how"])
    # Both are within the tolerance of the exact solution, up to how slowly the iteration converges
    slow = max(0.0, min(0.98, (mx[-1] / mx[max(0, len(mx) - 6)]) ** 0.2))
    tol = (10 * c["rtol"]) / (1 - slow) + 1e-3
    psi = eq.plasma_psi
    close(back(eq2.plasma_psi), psi, "flux of the plasma when " + c["how"], atol=tol * np.ptp(psi))
    # The upper and lower coils swap places
    swap = {"L": "U", "U": "L"}
    I = {n: k.current for n, k in eq.tokamak.coils}
    I2 = {(n if cur is not None else n[:-1] + swap[n[-1]]): k.current / (cur or 1.0) for n, k in eq2.tokamak.coils}
    for n in I:
        close(I2[n], I[n], "current in {} when {}".format(n, c["how"]), atol=10 * tol * max(map(abs, I.values())))


@st.composite
def fixed_case(draw):
    Rmin = draw(num(0.3, 2, 2))
    kind = draw(st.sampled_from(["paxis", "betap"]))
    return {"Rmin": Rmin, "L": draw(num(0.6, 2, 2)), "H": draw(num(0.6, 2, 2)), "nx": draw(st.sampled_from([17, 33])),
            "ny": draw(st.sampled_from([17, 33])), "sign": draw(st.sampled_from([1, -1])), "kind": kind,
            "value": draw(num(100, 1e4, 0)) if kind == "paxis" else draw(num(0.1, 1.5, 2)), "Ip": draw(num(1e5, 1e6, 0)),
            "fvac": 2.0, "m": 1.0, "n": draw(st.sampled_from([1.0, 2.0])), "Raxis": 1.0, "rtol": draw(st.sampled_from([1e-3, 1e-5])),
            "order": draw(st.sampled_from([2, 4]))}


@PROP.sub(fixed_case, quick=40, thorough=400, shards=(8, 8))
def fixed_boundary(c, ctx):
    import freegs
    from freegs import boundary

    eq = freegs.Equilibrium(Rmin=c["Rmin"], Rmax=c["Rmin"] + c["L"], Zmin=-c["H"] / 2, Zmax=c["H"] / 2, nx=c["nx"], ny=c["ny"],
                            boundary=boundary.fixedBoundary, order=c["order"])
    if c["sign"] < 0:
        eq._updatePlasmaPsi(-eq.plasma_psi)
    prof = plasma.profiles(eq, c, c["sign"])
    try:
        mx, rel = freegs.solve(eq, prof, rtol=c["rtol"], convergenceInfo=True)
    except RuntimeError:
        raise Skip("didn't converge")
    except ValueError as e:
        if "O-point" in str(e):
            raise Skip("plasma lost")
        raise
    ctx.nontrivial(len(mx) >= 3)
    p = eq.plasma_psi
    edge = np.concatenate([p[0], p[-1], p[:, 0], p[:, -1]])
    close(edge, np.zeros(edge.shape), "flux on the edges", atol=1e-10 * np.max(np.abs(p)))
    s = MU0 * np.max(np.abs(eq.R * eq.Jtor)) + np.max(np.abs(p)) / min(eq.dR, eq.dZ) ** 2
    close(_residual(eq), np.zeros(_residual(eq).shape), "residual of the equation", atol=1e-9 * s)
    close(eq.plasmaCurrent(), c["sign"] * c["Ip"], "plasma current", rtol=1e-9)
    J2 = prof.Jtor(eq.R, eq.Z, eq.psi())
    m = np.sum(np.abs(J2 - eq.Jtor)) / np.sum(np.abs(eq.Jtor))
    # (axis and boundary can jump by a little between iterations, as they are found on the grid)
    require(m < 20 * np.max(rel[-4:]) + 1e-6, "current density of the flux differs by {} from that of the solution", m)
    close(p[:, ::-1], p, "up-down symmetry", atol=1e-6 * np.max(np.abs(p)))


@st.composite
def given_case(draw):
    c = draw(plasma.tokamak_case(sizes=(33,)))
    c["rtol"], c["blend"] = draw(st.sampled_from([1e-3, 1e-4])), draw(st.sampled_from([0.0, 0.2]))
    c["frac"] = draw(st.one_of(st.none(), num(0.02, 0.3, 2)))
    c["control"] = draw(st.booleans())
    c["again"] = draw(st.integers(1, 4))
    return c


@PROP.sub(given_case, quick=40, thorough=400, shards=(8, 8))
def given_boundary(c, ctx):
    """Solving on from a solution, with a flux surface chosen as the boundary and without control of the coils"""
    import freegs

    eq, prof, constrain, rec, (mx, rel) = _converged(c)
    I = {n: k.current for n, k in eq.tokamak.coils}
    pb = None if c["frac"] is None else float(eq.psi_bndry + c["frac"] * (eq.psi_axis - eq.psi_bndry))
    stopped = False
    try:
        mx, rel = freegs.solve(eq, prof, constrain if c["control"] else None, rtol=c["rtol"], blend=c["blend"], psi_bndry=pb,
                               convergenceInfo=True, maxits=60 if c["control"] else c["again"])
    except RuntimeError:
        # Without control the plasma needn't be stable
        stopped = True
        if c["control"]:
            raise Skip("didn't converge")
    ctx.label("control" if c["control"] else "no control")
    ctx.label("boundary given" if pb is not None else "boundary found")
    ctx.nontrivial(pb is not None or not c["control"])
    if not c["control"]:
        require(I == {n: k.current for n, k in eq.tokamak.coils}, "coil currents changed without a control system")
    s = MU0 * np.max(np.abs(eq.R * eq.Jtor)) + np.max(np.abs(eq.plasma_psi)) / min(eq.dR, eq.dZ) ** 2
    close(_residual(eq), np.zeros(_residual(eq).shape), "residual of the equation", atol=1e-9 * s)
    close(eq.plasmaCurrent(), c["sign"] * c["Ip"], "plasma current", rtol=1e-9)
    if stopped or not c["control"]:
        return
    J = eq.Jtor
    psi = eq.psi()
    if pb is not None:
        out = c["sign"] * (psi - pb) < -0.02 * abs(eq.psi_axis - pb)
        require(np.all(J[out] == 0), "current outside the given boundary")
        b = eq.R, eq.Z
        inside = c["sign"] * (psi - pb) > 0.1 * abs(eq.psi_axis - pb)
        inside &= eq.mask > 0.5
        require(np.all(J[inside] != 0), "no current inside the given boundary")
    m = np.sum(np.abs(prof.Jtor(eq.R, eq.Z, psi, pb) - J)) / np.sum(np.abs(J))
    require(m < 60 * c["rtol"] + 1e-3, "current density of the flux differs by {} from that of the solution", m)
