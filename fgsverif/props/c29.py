"""C29: changing resolution and domain"""
import math

import numpy as np
from hypothesis import strategies as st

from .. import plasma
from ..gen import num
from ..runner import Property, Skip
from ..util import close, finite, require

PROP = Property(
    "C29",
    "equilibria of known flux (any grid of 9-33 points in each direction, also uneven numbers of points, any boundary condition, order, with and without limiter and profiles) refined to twice or any resolution and coarsened; converged equilibria solved in "
    "larger, smaller and shifted domains at any resolution; non-trivial = different number of points in R and Z, or a domain which was moved",
    ["plasma inside both domains", "new domain: agreement to 3 % of the flux range, the discretisation error of such grids"],
)


@st.composite
def grid_case(draw):
    c = draw(plasma.analytic(sizes=(9, 17, 33)))
    c["nx"], c["ny"] = draw(st.sampled_from([9, 13, 17, 21, 33])), draw(st.sampled_from([9, 13, 17, 19, 33]))
    return {"c": c, "order": draw(st.sampled_from([2, 4])), "boundary": draw(st.sampled_from(["fixed", "free", "hagenow"])), "limited": draw(st.booleans()),
            "profiles": draw(st.booleans()), "n": draw(st.sampled_from([None, None, [33, 17], [25, 40], [17, None]])), "twice": draw(st.booleans())}


def bnd(name):
    from freegs import boundary

    return {"fixed": boundary.fixedBoundary, "free": boundary.freeBoundary, "hagenow": boundary.freeBoundaryHagenow}[name]


def same_setup(new, eq, what):
    require(new is not eq, "{} returns the same object", what)
    require(new.tokamak is eq.tokamak, "{}: another machine", what)
    require(new._applyBoundary is eq._applyBoundary, "{}: boundary condition is {}, was {}", what, new._applyBoundary, eq._applyBoundary)
    require(new.order == eq.order, "{}: order is {}, was {}", what, new.order, eq.order)
    require(new.check_limited == eq.check_limited, "{}: check_limited is {}, was {}", what, new.check_limited, eq.check_limited)
    a, b = getattr(new, "_profiles", None), getattr(eq, "_profiles", None)
    require(type(a) is type(b), "{}: profiles are {}, were {}", what, a, b)
    if b is not None:
        require({k: v for k, v in vars(a).items() if isinstance(v, float)} == {k: v for k, v in vars(b).items() if isinstance(v, float)} or what == "newDomain", "{}: profiles aren't the same", what)
        for k in ("Ip", "_fvac", "paxis", "betap", "alpha_m", "alpha_n", "Raxis"):
            require(getattr(a, k, None) == getattr(b, k, None), "{}: {} of the profiles is {}, was {}", what, k, getattr(a, k, None), getattr(b, k, None))
        require(b.eq is eq, "{}: profiles of the original are now used by another", what)


def same_domain(new, eq, what):
    for k in ("Rmin", "Rmax", "Zmin", "Zmax"):
        require(getattr(new, k) == getattr(eq, k), "{}: {} is {}, was {}", what, k, getattr(new, k), getattr(eq, k))


def check_grid(new, nx, ny, what):
    for k in ("R", "Z", "plasma_psi"):
        require(getattr(new, k).shape == (nx, ny), "{}: {} has shape {}, expected {}", what, k, getattr(new, k).shape, (nx, ny))
    require((new.nx, new.ny) == (nx, ny), "{}: nx, ny are {}, {}", what, new.nx, new.ny)
    close(new.R[:, 0], np.linspace(new.Rmin, new.Rmax, nx), what + ": R", rtol=1e-12)
    close(new.Z[0], np.linspace(new.Zmin, new.Zmax, ny), what + ": Z", rtol=1e-12, atol=1e-12)
    p = new.tokamak.psi(new.R, new.Z) + new.plasma_psi
    close(new.psi(), p, what + ": total flux", rtol=1e-9, atol=1e-9 * np.ptp(p))


def solver_order(eq):
    """Of the operator, from how it's inverted"""
    from freegs import gradshafranov as gs

    A = (gs.GSsparse if eq.order == 2 else gs.GSsparse4thOrder)(eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax)(eq.nx, eq.ny)
    x = eq.plasma_psi
    b = (A @ x.ravel()).reshape(x.shape)
    b[[0, -1], :] = x[[0, -1], :]
    b[:, [0, -1]] = x[:, [0, -1]]
    close(eq.callSolver(np.zeros_like(x), b), x, "solver doesn't invert the operator of order {}".format(eq.order), rtol=1e-6, atol=1e-6 * np.max(np.abs(x)))


@PROP.sub(grid_case, quick=150, thorough=2000)
def resolution(cc, ctx):
    from freegs import critical, equilibrium, machine as m

    c = cc["c"]
    s = c["scale"]
    wall = None
    if cc["limited"]:
        wall = m.Wall([s * x for x in (0.75, 1.4, 1.4, 0.75)], [s * z + c["Z0"] for z in (-0.4, -0.4, 0.4, 0.4)])
    eq = plasma.build(c, wall=wall, order=cc["order"], boundary=bnd(cc["boundary"]), check_limited=cc["limited"])
    if cc["profiles"]:
        eq._profiles = plasma.profiles(eq, plasma.absolute({"kind": "paxis", "value": 0.3, "Ip": 1.0, "fvac": 1.0, "m": 1.0, "n": 2.0, "Raxis": 1.0}, c), c["sign"])
    p0, I0 = eq.plasma_psi.copy(), eq.tokamak.getCurrents()
    ctx.nontrivial(c["nx"] != c["ny"])
    ctx.label(cc["boundary"])
    nx, ny = cc["n"] or (None, None)
    new = equilibrium.refine(eq, nx=nx, ny=ny) if nx or ny else equilibrium.refine(eq)
    nx, ny = nx or 2 * c["nx"] - 1, ny or 2 * c["ny"] - 1
    same_setup(new, eq, "refine")
    same_domain(new, eq, "refine")
    check_grid(new, nx, ny, "refine")
    solver_order(new)
    h = 1.0 / (min(c["nx"], c["ny"]) - 1)
    close(new.plasma_psi, plasma.plasma_psi(c, new.R, new.Z), "refined flux", atol=c["amp"] * 60 * h ** 4 + 1e-12)
    if eq.psi_bndry is not None and not cc["limited"] and min(c["nx"], c["ny"]) >= 17 and min(nx, ny) >= 17 and new.psi_bndry is not None:
        span = abs(eq.psi_bndry - eq.psi_axis)
        close(new.psi_axis, eq.psi_axis, "flux on axis, refined", atol=0.01 * span)
        close(new.psi_bndry, eq.psi_bndry, "flux at the boundary, refined", atol=0.02 * span)
    if cc["limited"]:
        require(new.is_limited == eq.is_limited or min(c["nx"], c["ny"]) < 17, "refined plasma is {}limited", "" if new.is_limited else "not ")
    if cc["n"] is None:
        close(new.plasma_psi[::2, ::2], p0, "refined flux at the points it was on", rtol=1e-9, atol=1e-12 * c["amp"])
        back = equilibrium.coarsen(new)
        same_setup(back, eq, "coarsen")
        same_domain(back, eq, "coarsen")
        check_grid(back, c["nx"], c["ny"], "coarsen")
        solver_order(back)
        close(back.plasma_psi, p0, "refined and coarsened again", rtol=1e-9, atol=1e-12 * c["amp"])
        for k in ("psi_axis", "psi_bndry"):
            a, b = getattr(back, k, None), getattr(eq, k, None)
            if not critical.find_critical(eq.R, eq.Z, eq.psi())[0]:
                continue  # The values are left from before
            require((a is None) == (b is None), "{} is {}, was {}", k, a, b)
            if b is not None:
                close(a, b, k, rtol=1e-6, atol=1e-7 * np.ptp(eq.psi()))
    if cc["order"] == 4 and min(c["nx"], c["ny"]) < 17:
        # Too few points for operators of fourth order
        return
    low = equilibrium.coarsen(eq)
    same_setup(low, eq, "coarsen")
    same_domain(low, eq, "coarsen")
    check_grid(low, (c["nx"] + 1) // 2, (c["ny"] + 1) // 2, "coarsen")
    close(low.plasma_psi, p0[::2, ::2], "coarsened flux", rtol=1e-12)
    low.plasma_psi[:] = 0
    new.plasma_psi[:] = 0
    require(np.array_equal(eq.plasma_psi, p0) and eq.tokamak.getCurrents() == I0, "equilibrium changed by refining and coarsening it")


@st.composite
def domain_case(draw):
    return {"c": draw(plasma.tokamak_case(sizes=(33,))), "edges": [draw(num(-0.04, 0.12, 2)) for _ in range(4)], "given": [draw(st.booleans()) for _ in range(4)],
            "n": [draw(st.sampled_from([None, 33, 65])) for _ in range(2)], "ny": draw(st.sampled_from([33, 65])), "hagenow": draw(st.booleans())}


@PROP.sub(domain_case, quick=20, thorough=250, shards=(8, 8))
def domain(cc, ctx):
    """The same plasma in another domain"""
    from freegs import equilibrium

    c = dict(cc["c"], ny=cc["ny"])
    eq, prof, constrain = plasma.solved(c, boundary=bnd("hagenow" if cc["hagenow"] else "free"), rtol=1e-4)
    plasma.diverted(eq, 4)
    sign = (-1, 1, -1, 1)
    new_edges = {k: round(c[k] + s * e, 3) for k, s, e, g in zip(("Rmin", "Rmax", "Zmin", "Zmax"), sign, cc["edges"], cc["given"]) if g}
    if new_edges.get("Rmin", 1) < 0.04:
        raise Skip("domain too close to the centre")
    m = eq.mask > 0
    pad = 3 * max(eq.dR, eq.dZ)
    if np.min(eq.R[m]) - pad < new_edges.get("Rmin", 0) or np.max(eq.R[m]) + pad > new_edges.get("Rmax", 9) or np.min(eq.Z[m]) - pad < new_edges.get("Zmin", -9) or np.max(eq.Z[m]) + pad > new_edges.get("Zmax", 9):
        raise Skip("plasma wouldn't be in the new domain")
    kw = dict(new_edges)
    for k, n in zip(("nx", "ny"), cc["n"]):
        if n:
            kw[k] = n
    p0, I0, J0 = eq.plasma_psi.copy(), eq.tokamak.getCurrents(), eq.Jtor.copy()
    ends, mask0, par0 = (eq.psi_axis, eq.psi_bndry), eq.mask.copy(), (prof.L, prof.Beta0)
    ctx.nontrivial(bool(new_edges))
    new = equilibrium.newDomain(eq, **kw)
    same_setup(new, eq, "newDomain")
    for k in ("Rmin", "Rmax", "Zmin", "Zmax"):
        require(getattr(new, k) == new_edges.get(k, getattr(eq, k)), "{} is {}, expected {}", k, getattr(new, k), new_edges.get(k, getattr(eq, k)))
    check_grid(new, kw.get("nx", c["nx"]), kw.get("ny", c["ny"]), "newDomain")
    solver_order(new)
    finite(new.plasma_psi, "plasma flux")
    require((eq.psi_axis, eq.psi_bndry) == ends and np.array_equal(eq.mask, mask0) and (prof.L, prof.Beta0) == par0, "axis, boundary or profiles of the equilibrium changed by newDomain")
    require(np.array_equal(eq.plasma_psi, p0) and np.array_equal(eq.Jtor, J0) and eq.tokamak.getCurrents() == I0, "equilibrium or currents changed by newDomain")
    close(float(new.plasmaCurrent()), float(eq.plasmaCurrent()), "plasma current in the new domain", rtol=1e-6)
    lo = max(new.Rmin, eq.Rmin), max(new.Zmin, eq.Zmin)
    hi = min(new.Rmax, eq.Rmax), min(new.Zmax, eq.Zmax)
    R, Z = np.meshgrid(np.linspace(lo[0], hi[0], 20), np.linspace(lo[1], hi[1], 20), indexing="ij")
    span = abs(eq.psi_bndry - eq.psi_axis)
    a, b = new.psi_func(R, Z, grid=False), eq.psi_func(R, Z, grid=False)
    close(a, b, "plasma flux in the new domain", atol=0.03 * np.ptp(b))
    close(new.psi_axis, eq.psi_axis, "flux on axis", atol=0.05 * np.ptp(b))
    if new.psi_bndry is not None:
        close(new.psi_bndry, eq.psi_bndry, "flux at the boundary", atol=0.05 * np.ptp(b))
