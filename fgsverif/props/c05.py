"""C05: the control system finds the best currents, within limits, touching only what it controls"""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import lsq_linear

from .. import coils
from ..gen import logmag, num, signed
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C05",
    "machines of 1-6 coils of any type (some not controlled) with a generated plasma flux, X-point, "
    "equal-flux and flux-value constraints in any mix, regularisation 1e-12 to 1e-6, optional limits "
    "on each coil or on the total; the currents found are compared with an independent regularised "
    "least-squares solution, and the field and flux are evaluated afterwards; non-trivial = at least "
    "one controlled coil and a change of current",
)

pt = st.tuples(num(0.35, 1.75, 3), num(-0.75, 0.75, 3))
I0 = st.one_of(st.just(0.0), signed(10.0, 1e5, 2))


@st.composite
def cases(draw, limits):
    n = draw(st.integers(1, 6))
    c = {
        "coils": [draw(coils.any_coil(I=I0)) for _ in range(n)],
        "x": draw(st.lists(pt, max_size=2)),
        "iso": draw(st.lists(st.tuples(pt, pt), max_size=3)),
        "val": draw(st.lists(st.tuples(pt, num(-1, 1, 3)), max_size=2)),
        "gamma": draw(st.one_of(st.just(1e-12), logmag(-12, -6))),
        "plasma": [draw(num(0.8, 1.3, 2)), draw(num(-0.3, 0.3, 2)), draw(num(-1, 1, 3))],
        "lims": None, "tot": None,
        "labels": draw(st.booleans()),
    }
    if limits == "each":
        c["lims"] = [sorted([draw(signed(0.0, 2e5, 0)), draw(signed(0.0, 2e5, 0))]) for _ in range(n)]
        c["swap"] = False
    if limits == "total":
        c["tot"] = draw(logmag(3, 7))
    return c


def _setup(c):
    import freegs
    from freegs.machine import Machine

    pts = [tuple(p) for p in c["x"]] + [tuple(p) for q in c["iso"] for p in q] + [tuple(v[0]) for v in c["val"]]
    if not pts:
        raise Skip("no constraints")
    if any(coils.distance(s, *p) < 0.05 for s in c["coils"] for p in pts):
        raise Skip("constraint inside a coil")
    R, Z = np.meshgrid(np.linspace(0.3, 1.8, 17), np.linspace(-0.8, 0.8, 9), indexing="ij")
    R0, Z0, amp = c["plasma"]
    labels = ["P{}".format(i if c["labels"] else i // 2) for i in range(len(c["coils"]))]
    machine = Machine([(lab, coils.build(s)) for lab, s in zip(labels, c["coils"])])
    eq = freegs.Equilibrium(tokamak=machine, Rmin=0.3, Rmax=1.8, Zmin=-0.8, Zmax=0.8, nx=17, ny=9,
                            psi=amp * np.exp(-((R - R0) ** 2 + (Z - Z0) ** 2) / 0.1))
    return eq, machine


def _num(x):
    return float(np.asarray(x).reshape(-1)[0])


def _rows(c, eq, objs):
    """Response of every coil (columns) and present value of every constraint"""
    A, b = [], []
    pl = lambda r, z: _num(eq.psiRZ(r, z)) - sum(_num(o.psi(r, z)) for o in objs)
    for r, z in c["x"]:
        A.append([_num(o.controlBr(r, z)) for o in objs])
        b.append(_num(eq.plasmaBr(r, z)))
        A.append([_num(o.controlBz(r, z)) for o in objs])
        b.append(_num(eq.plasmaBz(r, z)))
    for (r1, z1), (r2, z2) in c["iso"]:
        A.append([_num(o.controlPsi(r1, z1)) - _num(o.controlPsi(r2, z2)) for o in objs])
        b.append(pl(r1, z1) - pl(r2, z2))
    for (r, z), v in c["val"]:
        A.append([_num(o.controlPsi(r, z)) for o in objs])
        b.append(pl(r, z) - v)
    return np.array(A), np.array(b)


def _measured(c, eq):
    """The constraints as the equilibrium has them now"""
    out = []
    for r, z in c["x"]:
        out += [_num(eq.Br(r, z)), _num(eq.Bz(r, z))]
    for (r1, z1), (r2, z2) in c["iso"]:
        out.append(_num(eq.psiRZ(r1, z1)) - _num(eq.psiRZ(r2, z2)))
    for (r, z), v in c["val"]:
        out.append(_num(eq.psiRZ(r, z)) - v)
    return np.array(out)


def _control(c):
    from freegs import control

    kw = {}
    if c["lims"] is not None:
        kw["current_lims"] = [tuple(l) for l in c["lims"]]
    if c["tot"] is not None:
        kw["max_total_current"] = c["tot"]
    return control.constrain(
        xpoints=[tuple(p) for p in c["x"]],
        isoflux=[tuple(p) + tuple(q) for p, q in c["iso"]],
        psivals=[tuple(p) + (v,) for p, v in c["val"]],
        gamma=c["gamma"], **kw)


def _apply(c, ctx):
    eq, machine = _setup(c)
    objs = [o for _, o in machine.coils]
    ctl = np.array([s["control"] for s in c["coils"]])
    fresh = [coils.build(s) for s in c["coils"]]
    A, p = _rows(c, eq, fresh)
    before = np.array([float(s["I"]) for s in c["coils"]])
    plasma = np.array(eq.plasma_psi)
    system = _control(c)
    keep = (list(system.xpoints), list(system.isoflux), list(system.psivals))
    system(eq)
    require(keep == (system.xpoints, system.isoflux, system.psivals), "constraints modified")
    after = np.array([_num(o.current) for o in objs])
    require(np.all(np.isfinite(after)), "currents {}", after)
    require(np.array_equal(before[~ctl], after[~ctl]),
            "current of a coil which isn't controlled changed: {} -> {} (controlled {})", before, after, ctl)
    require([bool(o.control) for o in objs] == ctl.tolist(), "control flags changed")
    require(np.array_equal(plasma, eq.plasma_psi), "plasma changed")
    dI = after - before
    # What the equilibrium now has is what the responses predict
    want = A @ after + p
    scale = np.abs(A) @ np.abs(after) + np.abs(p) + np.max(np.abs(plasma))
    close(_measured(c, eq), want, "constraints after the change", atol=1e-8 * np.max(scale) + 1e-13)
    ctx.nontrivial(bool(np.any(dI != 0)))
    ctx.label("controlled {}".format(int(ctl.sum())))
    b = -(A @ before + p)
    n = int(ctl.sum())
    M = np.vstack([A[:, ctl], c["gamma"] * np.eye(n)])
    rhs = np.concatenate([b, np.zeros(n)])
    return eq, machine, ctl, before, after, M, rhs, system


def _best(M, rhs):
    # Columns are scaled so that the factorisation sees a well balanced matrix
    s = np.linalg.norm(M, axis=0)
    y = np.linalg.lstsq(M / s, rhs, rcond=1e-15)[0]
    return y / s


def _obj(M, rhs, x):
    return float(np.sum((M @ x - rhs) ** 2))


@PROP.sub(lambda: cases(None), quick=400, thorough=6000, shards=(4, 8))
def best_currents(c, ctx):
    eq, machine, ctl, before, after, M, rhs, system = _apply(c, ctx)
    x = (after - before)[ctl]
    if not ctl.any():
        return
    best = _best(M, rhs)
    start = float(np.sum(rhs ** 2))
    got, opt = _obj(M, rhs, x), _obj(M, rhs, best)
    cond = np.linalg.cond(M)
    ctx.label("under-determined" if ctl.sum() > len(rhs) - ctl.sum() else "over-determined")
    # The normal equations are solved: what is lost to rounding grows with the condition squared
    require(got <= 1.001 * opt + start * (1e-6 + min(0.1, 1e-17 * cond ** 2)) + 1e-24,
            "misfit {:.6g} where {:.6g} is possible (before: {:.6g}, condition {:.2g})", got, opt, start, cond)
    if cond < 1e4:
        close(x, best, "change of controlled currents", rtol=1e-4, atol=1e-4 * np.max(np.abs(best)) + 1e-7)
    close(system.current_change, x, "reported change", rtol=1e-6, atol=1e-6 * np.max(np.abs(x)) + 1e-8 * np.max(np.abs(before)) + 1e-9)


@PROP.sub(lambda: cases("each"), quick=300, thorough=4000, shards=(4, 8))
def limits_on_each_coil(c, ctx):
    eq, machine, ctl, before, after, M, rhs, system = _apply(c, ctx)
    if not ctl.any():
        return
    lo = np.array([l[0] for l in c["lims"]])
    hi = np.array([l[1] for l in c["lims"]])
    slack = 1e-6 * np.maximum(np.maximum(np.abs(lo), np.abs(hi)), 1.0)
    require(np.all(after[ctl] >= (lo - slack)[ctl]) and np.all(after[ctl] <= (hi + slack)[ctl]),
            "currents {} outside limits {}", after, c["lims"])
    x = (after - before)[ctl]
    free = _best(M, rhs)
    l, h = (lo - before)[ctl], (hi - before)[ctl]
    inside = np.all(free >= l) and np.all(free <= h)
    ctx.label("limit active" if not inside else "limit inactive")
    s = np.linalg.norm(M, axis=0)
    if np.any(h - l < 1e-3):
        raise Skip("no room between limits")
    sol = lsq_linear(M / s, rhs, (l * s, h * s), tol=1e-13, max_iter=500)
    ref = min(_obj(M, rhs, sol.x / s), _obj(M, rhs, np.clip(free, l, h)))
    got, start = _obj(M, rhs, x), max(float(np.sum(rhs ** 2)), ref)
    if np.sum(rhs ** 2) < 1e-3 * ref or start < 1e-12:
        raise Skip("nothing to correct")
    require(got <= ref + 1e-2 * start, "misfit {:.6g} within limits where {:.6g} is possible (before {:.6g})", got, ref, start)


@PROP.sub(lambda: cases("total"), quick=250, thorough=3000, shards=(4, 8))
def limit_on_total(c, ctx):
    eq, machine, ctl, before, after, M, rhs, system = _apply(c, ctx)
    if not ctl.any():
        return
    total = float(np.sum(np.abs(after[ctl])))
    free = before[ctl] + _best(M, rhs)
    ftot = float(np.sum(np.abs(free)))
    active = ftot > c["tot"]
    ctx.label("limit active" if active else "limit inactive")
    require(total <= c["tot"] * (1 + 1e-3) + 1e-6, "total current {} where {} is allowed", total, c["tot"])
    if active and np.sum(rhs ** 2) > 1e-12:
        # The problem is convex: the misfit is above the best possible by at most the largest
        # first-order decrease over the allowed set, whose corners have all current in one coil
        x = (after - before)[ctl]
        grad = 2 * M.T @ (M @ x - rhs)
        gap = float(grad @ after[ctl] + c["tot"] * np.max(np.abs(grad)))
        ref = max(float(np.sum(rhs ** 2)), _obj(M, rhs, x))
        require(gap <= 1e-2 * ref, "misfit {:.6g} under the limit may be reduced by {:.3g}", _obj(M, rhs, x), gap)
    if not active and ftot < 0.999 * c["tot"]:
        x = (after - before)[ctl]
        got, opt, start = _obj(M, rhs, x), _obj(M, rhs, _best(M, rhs)), float(np.sum(rhs ** 2))
        require(got <= 1.001 * opt + start * (1e-4 + min(0.1, 1e-17 * np.linalg.cond(M) ** 2)) + 1e-20,
                "limit is not reached, misfit {:.6g} instead of {:.6g}", got, opt)


@st.composite
def refused(draw):
    n = draw(st.integers(1, 4))
    return {"coils": [draw(coils.point_coil(I=I0)) for _ in range(n)], "none": draw(st.booleans()),
            "nlims": draw(st.integers(0, 6)), "p": draw(pt)}


@PROP.sub(refused, quick=60, thorough=400)
def meaningless_requests_refused(c, ctx):
    case = {"coils": c["coils"], "x": [c["p"]], "iso": [], "val": [], "gamma": 1e-12,
            "plasma": [1.0, 0.0, 1.0], "labels": True, "lims": None, "tot": None}
    eq, machine = _setup(case)
    if c["none"]:
        case["x"] = []
    else:
        if c["nlims"] == len(c["coils"]):
            raise Skip("right number of limits")
        case["lims"] = [[-1e9, 1e9]] * c["nlims"]
    ctx.nontrivial()
    before = [o.current for _, o in machine.coils]
    try:
        _control(case)(eq)
    except (ValueError, AssertionError):
        require(before == [o.current for _, o in machine.coils], "currents changed by a refused request")
        return
    require(False, "accepted {}", "no constraints" if c["none"] else "{} limits for {} coils".format(c["nlims"], len(c["coils"])))
