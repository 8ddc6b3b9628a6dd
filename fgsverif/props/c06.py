"""C06: fitting coil currents to a 2D map of flux"""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import lsq_linear

from .. import coils
from ..gen import num, signed
from ..runner import Property, Skip
from ..util import require

PROP = Property(
    "C06",
    "machines of 1-5 coils (some not controlled), target flux made by other currents plus an offset and optionally a "
    "mismatch no currents can make, weights missing/a number/a map with zeros, limits on the currents or none; "
    "compared with an independent linear least-squares solution; non-trivial = some controlled coil and a target the start doesn't meet",
    ["limits are listed for the controlled coils"],
)

NX, NY = 9, 17
I0 = st.one_of(st.just(0.0), signed(10.0, 1e5, 2))


def outside(I=I0):
    """Coils outside the grid, not too close to each other to tell apart"""
    R = num(0.25, 2.6, 3)
    Z = st.builds(lambda z, s: z if s else -z, num(1.05, 1.9, 3), st.booleans())
    return st.one_of(
        coils.point_coil(R=R, Z=Z, I=I),
        st.fixed_dictionaries({"t": st.just("mirrored"), "R": R, "Z": Z, "I": I, "turns": coils.turns(),
                               "control": st.booleans(), "symmetric": st.booleans()}),
        coils.circuit(inner=coils.point_coil(R=R, Z=Z, I=I), I=I),
    )


@st.composite
def cases(draw, limits):
    n = draw(st.integers(1, 5))
    c = {
        "coils": [draw(outside()) for _ in range(n)],
        "target": [draw(I0) for _ in range(n)],
        "offset": draw(num(-2, 2, 2)),
        "plasma": [draw(num(0.8, 1.3, 2)), draw(num(-0.3, 0.3, 2)), draw(num(-1, 1, 3))],
        "noise": draw(st.sampled_from([0.0, 0.0, 0.1])),
        "weights": draw(st.sampled_from(["none", "number", "map", "mask"])),
        "cls": "plain" if not limits else "limited",
        "lims": None,
    }
    if limits and draw(st.integers(0, 3)):
        c["lims"] = [[draw(signed(0.0, 2e5, 0)), draw(signed(0.0, 2e5, 0))] for _ in range(n)]
    return c


def _grid():
    return np.meshgrid(np.linspace(0.3, 1.8, NX), np.linspace(-0.8, 0.8, NY), indexing="ij")


def _weights(kind):
    R, Z = _grid()
    if kind == "number":
        return 2.0, np.full((NX, NY), 2.0)
    if kind == "map":
        w = 0.2 + np.abs(Z) + 0.3 * R
        return w, w
    if kind == "mask":
        w = np.where((R - 1.0) ** 2 + Z ** 2 < 0.35, 1.0, 0.0)
        return w, w
    return None, np.ones((NX, NY))


def _equilibrium(c):
    import freegs
    from freegs.machine import Machine

    R, Z = _grid()
    R0, Z0, amp = c["plasma"]
    psi = amp * np.exp(-((R - R0) ** 2 + (Z - Z0) ** 2) / 0.1)
    machine = Machine([("P{}".format(i), coils.build(s)) for i, s in enumerate(c["coils"])])
    eq = freegs.Equilibrium(tokamak=machine, Rmin=0.3, Rmax=1.8, Zmin=-0.8, Zmax=0.8, nx=NX, ny=NY, psi=psi)
    return eq, machine, psi


def _run(c, ctx):
    from freegs import control

    eq, machine, psi = _equilibrium(c)
    R, Z = _grid()
    resp = [np.asarray(coils.build(s).controlPsi(R, Z)) * np.ones_like(R) for s in c["coils"]]
    ctl = np.array([s["control"] for s in c["coils"]])
    before = np.array([float(s["I"]) for s in c["coils"]])
    want_I = np.where(ctl, np.array(c["target"]), before)
    target = psi + sum(i * g for i, g in zip(want_I, resp)) + c["offset"]
    if c["noise"]:
        target = target + c["noise"] * np.sin(3 * R) * np.cos(5 * Z)
    arg, w = _weights(c["weights"])
    kw = {} if arg is None else {"weights": arg}
    n = int(ctl.sum())
    lims = None
    if c["cls"] == "limited":
        lims = c["lims"]
        if lims is not None:
            lims = [tuple(l) for l, k in zip(lims, ctl) if k]
        kw["current_lims"] = lims
        system = control.ConstrainPsi2DAdvanced(target.copy(), **kw)
    else:
        system = control.ConstrainPsi2D(target.copy(), **kw)
    if n == 0:
        raise Skip("nothing controlled")
    system(eq)
    after = np.array([float(o.current) for _, o in machine.coils])
    require(np.all(np.isfinite(after)), "currents {}", after)
    require(np.array_equal(before[~ctl], after[~ctl]), "current of a coil not controlled changed: {} -> {}", before, after)
    require(np.array_equal(eq.plasma_psi, psi), "plasma changed")
    dev = lambda f: f - np.sum(w * f) / np.sum(w)
    M = np.array([(w * dev(g)).ravel() for g, k in zip(resp, ctl) if k]).T
    base = psi + sum(i * g for i, g, k in zip(before, resp, ctl) if not k)
    rhs = (w * dev(target - base)).ravel()
    start = float(np.sum((M @ before[ctl] - rhs) ** 2))
    ctx.nontrivial(start > 1e-8)
    ctx.label("weights " + c["weights"])
    x = after[ctl]
    return M, rhs, x, start, lims, before[ctl]


def _cost(M, rhs, x):
    return float(np.sum((M @ x - rhs) ** 2))


@PROP.sub(lambda: cases(False), quick=250, thorough=3000, shards=(3, 8))
def best_fit(c, ctx):
    M, rhs, x, start, _, before = _run(c, ctx)
    s = np.linalg.norm(M, axis=0) + 1e-300
    best = np.linalg.lstsq(M / s, rhs, rcond=1e-13)[0] / s
    got, opt = _cost(M, rhs, x), _cost(M, rhs, best)
    scale = max(start, float(np.sum(rhs ** 2)))
    require(got <= opt * (1 + 1e-5) + 1e-6 * scale + 1e-12,
            "misfit {:.6g} where {:.6g} is possible (start {:.6g})", got, opt, start)


@PROP.sub(lambda: cases(True), quick=200, thorough=2500, shards=(4, 8))
def best_fit_within_limits(c, ctx):
    M, rhs, x, start, lims, before = _run(c, ctx)
    s = np.linalg.norm(M, axis=0) + 1e-300
    scale = max(start, float(np.sum(rhs ** 2)))
    if lims is None:
        best = np.linalg.lstsq(M / s, rhs, rcond=1e-13)[0] / s
        ctx.label("no limits")
    else:
        lo = np.array([min(l) for l in lims])
        hi = np.array([max(l) for l in lims])
        tol = 1e-6 * np.maximum(1e3, np.max(np.abs([lo, hi])))
        require(np.all(x >= lo - tol) and np.all(x <= hi + tol), "currents {} outside limits {}", x, lims)
        if np.any(hi - lo < 1.0):
            return
        sol = lsq_linear(M / s, rhs, (lo * s, hi * s), tol=1e-13, max_iter=500)
        best = np.clip(sol.x / s, lo, hi)
        free = np.linalg.lstsq(M / s, rhs, rcond=1e-13)[0] / s
        ctx.label("limits active" if np.any(free < lo) or np.any(free > hi) else "limits inactive")
        scale = max(scale, float(np.sum((M @ np.clip(before, lo, hi) - rhs) ** 2)))
    got, opt = _cost(M, rhs, x), _cost(M, rhs, best)
    require(got <= opt * 1.01 + 2e-3 * scale + 1e-8,
            "misfit {:.6g} where {:.6g} is possible within limits (start {:.6g})", got, opt, start)


@st.composite
def norm_cases(draw):
    return {
        "I": draw(st.sampled_from([[1.0, 1.6], [1.6, 1.0], [0.8, 1.2], [1.3, 0.8]])),
        "d": [draw(num(-0.06, 0.06, 4)), draw(num(-0.06, 0.06, 4))],
        "free": [draw(st.booleans()), draw(st.booleans())],
        "other": draw(num(-5e3, 5e3, 0)),
        "amp": draw(st.sampled_from([1.0, -1.0])),
        "limited": draw(st.sampled_from(["no", "wide", "none", "tight"])),
        "weights": draw(st.sampled_from(["none", "number", "map"])),
    }


@PROP.sub(norm_cases, quick=60, thorough=600, shards=(4, 8))
def normalised_flux(c, ctx):
    """Normalised flux made by other currents is recovered"""
    import freegs
    from freegs import control
    from freegs.machine import Coil, Machine

    if not any(c["free"]):
        raise Skip("nothing controlled")
    n = 33
    R, Z = np.meshgrid(np.linspace(0.2, 1.8, n), np.linspace(-1.0, 1.0, n), indexing="ij")
    a = c["amp"]
    plasma = a * 0.1 * np.exp(-((R - 1.0) ** 2 + Z ** 2) / 0.35)
    base = np.array([a * 3e5 * c["I"][0], a * 3e5 * c["I"][1]])

    def make(I):
        m = Machine([("X", Coil(2.2, 0.3, current=c["other"], control=False)),
                     ("L", Coil(1.0, -1.2, current=I[0], control=c["free"][0])),
                     ("U", Coil(1.0, 1.2, current=I[1], control=c["free"][1]))])
        eq = freegs.Equilibrium(tokamak=m, Rmin=0.2, Rmax=1.8, Zmin=-1.0, Zmax=1.0, nx=n, ny=n, psi=plasma.copy())
        return eq, m

    def norm(eq):
        from freegs import critical

        psi = eq.psi()
        o, x = critical.find_critical(eq.R, eq.Z, psi)
        if not o or not x:
            raise Skip("no axis or X-point")
        if len(x) > 1 and abs(x[1][2] - x[0][2]) < 0.1 * abs(x[0][2] - o[0][2]):
            raise Skip("two X-points of similar flux: the fit is not smooth")
        active.append(x[0][1] > 0)
        return (psi - o[0][2]) / (x[0][2] - o[0][2])

    active = []
    goal = base * (1 + np.array([d if f else 0.0 for d, f in zip(c["d"], c["free"])]))
    target = norm(make(goal)[0])
    eq, m = make(base)
    w = {"none": None, "number": 2.0, "map": 0.5 + R}[c["weights"]]
    kw = {} if w is None else {"weights": w}
    ww = 1.0 if w is None else w
    start = float(np.sum((ww * (norm(eq) - target)) ** 2))
    if active[0] != active[1]:
        raise Skip("the other X-point is active")
    lims = None
    free = [k for k in range(2) if c["free"][k]]
    if c["limited"] == "no":
        system = control.ConstrainPsiNorm2D(target, **kw)
    else:
        if c["limited"] != "none":
            f = 3.0 if c["limited"] == "wide" else 1.02
            lims = [tuple(sorted([base[k] / f, base[k] * f])) for k in free]
        system = control.ConstrainPsiNorm2DAdvanced(target, current_lims=lims, **kw)
    system(eq)
    after = np.array([coil.current for _, coil in m.coils])
    require(after[0] == c["other"], "current of a coil which isn't controlled changed")
    for k in range(2):
        if not c["free"][k]:
            require(after[k + 1] == base[k], "current of a coil which isn't controlled changed")
    got = float(np.sum((ww * (norm(eq) - target)) ** 2))
    ctx.nontrivial(start > 1e-8)
    ctx.label(c["limited"])
    require(got <= start * (1 + 1e-6) + 1e-12, "misfit increased from {:.4g} to {:.4g}", start, got)
    if lims is not None:
        for k, (lo, hi) in zip(free, lims):
            require(lo * (1 - 1e-6) - 1e-3 <= after[k + 1] <= hi * (1 + 1e-6) + 1e-3 or lo - 1 <= after[k + 1] <= hi + 1,
                    "current {} outside limits {} {}", after[k + 1], lo, hi)
    if c["limited"] != "tight":
        require(got <= 0.02 * start + 1e-8, "misfit {:.4g} from {:.4g}: target not recovered", got, start)
