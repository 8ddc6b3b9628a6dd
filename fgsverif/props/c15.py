"""C15: plasmas limited by the wall"""
import numpy as np
from hypothesis import strategies as st

from .. import plasma
from ..gen import num
from ..runner import Property, Skip
from ..util import close, require
from .c11 import reference

PROP = Property(
    "C15",
    "equilibria of known flux with X-points (six coils) or without (no coils), and generated polygonal walls around the axis (open or closed, either orientation, "
    "replaced after construction, scaled and shifted, either direction of current); the flux along the wall is sampled 20 times more finely and at random "
    "points, from the flux function itself; free-boundary solutions of limited plasmas; non-trivial = the wall limits the plasma",
    ["wall inside the computational domain", "as documented, only wall points with |Z| less than 0.75 of that of the primary X-point can limit a plasma with X-points",
     "the wall is resolved to the spacing of the machine's limiter points (nlimit)"],
)


@st.composite
def wall(draw):
    n = draw(st.integers(3, 9))
    r = draw(st.one_of(num(0.2, 0.9, 2), num(0.6, 0.9, 2)))
    return {"r": [round(min(0.92, r * draw(num(0.8, 1.3, 2))), 3) for _ in range(n)], "turn": draw(num(0, 1, 2)),
            "shift": [draw(num(-0.15, 0.15, 2)), draw(num(-0.15, 0.15, 2))],
            "closed": draw(st.booleans()), "reverse": draw(st.booleans()), "start": draw(st.integers(0, n - 1))}


def points(w, c):
    """Corners, inside the domain, as lists of R and Z"""
    n = len(w["r"])
    t = 2 * np.pi * (np.arange(n) + w["turn"]) / n
    s = c["scale"]
    R = np.clip(1.05 + w["shift"][0] + np.array(w["r"]) * np.cos(t), c["lo"][0] + 0.02, c["hi"][0] - 0.02) * s
    Z = np.clip(w["shift"][1] + np.array(w["r"]) * np.sin(t), c["lo"][1] + 0.02, c["hi"][1] - 0.02) * s + c["Z0"]
    k = (np.arange(n) + w["start"]) % n
    if w["reverse"]:
        k = k[::-1]
    if w["closed"]:
        k = np.append(k, k[0])
    return [float(x) for x in R[k]], [float(x) for x in Z[k]]


def sampled(R, Z, per=600):
    """Points along all sides, including the one which closes the wall; length of the wall"""
    R, Z = np.array(R + R[:1]), np.array(Z + Z[:1])
    t = np.linspace(0, 1, per, endpoint=False)
    r = np.concatenate([R[i] + t * (R[i + 1] - R[i]) for i in range(len(R) - 1)])
    z = np.concatenate([Z[i] + t * (Z[i + 1] - Z[i]) for i in range(len(R) - 1)])
    return r, z, float(np.sum(np.hypot(np.diff(R), np.diff(Z))))


def check_limited(eq, c, R, Z, nlimit, tolpsi):
    """What the equilibrium says, against the flux along the wall. Returns whether limited"""
    from freegs import critical

    psi = eq.psi()
    O, X = critical.find_critical(eq.R, eq.Z, psi)
    if not O:
        raise Skip("no axis")
    r, z, L = sampled(R, Z)
    ds = L / (nlimit - 1)
    zmax = np.inf
    if X:
        zmax = 0.75 * abs(X[0][1])
    sure = np.abs(z) < zmax - 1.01 * ds
    allowed = np.abs(z) < zmax + 1e-6
    if not np.any(allowed):
        # Nothing to touch
        require(X and not eq.is_limited, "limited, but there is no wall next to the plasma")
        close(eq.psi_bndry, X[0][2], "boundary flux", atol=tolpsi)
        return False, np.zeros(eq.R.shape, bool)
    if not np.any(sure):
        raise Skip("hardly any wall near the plasma")
    flux = eq.psiRZ(r, z)
    axis = O[0][2]
    d = np.abs(flux - axis)
    sgn = c["sign"]
    if np.any(sgn * (flux[allowed] - axis) > 0):
        raise Skip("flux at the wall beyond that of the axis")
    # Distance in flux between the points which are looked at
    grad = np.hypot(*(np.asarray(f(r, z)) * r for f in (eq.Br, eq.Bz)))
    step = np.max(grad[allowed]) * ds
    best, most = np.min(d[sure]), np.min(d[allowed])
    got = abs(eq.psi_limit - axis)
    require(got <= best + step + tolpsi, "flux limit {} but there is wall at a flux closer to the axis by {}", float(eq.psi_limit), got - best)
    require(got >= most - step - tolpsi, "flux limit {} is closer to the axis, by {}, than any of the wall", float(eq.psi_limit), most - got)
    # Contact point is on the wall
    a = np.array([R, Z]).T
    b = np.roll(a, -1, axis=0)
    p = np.array([eq.Rlim, eq.Zlim])
    v = b - a
    n2 = np.sum(v * v, axis=1)
    t = np.clip(np.sum((p - a) * v, axis=1) / np.where(n2 > 0, n2, 1), 0, 1)
    dist = np.min(np.hypot(*(a + t[:, None] * v - p).T))
    require(dist < 1e-9 * (1 + L), "point of contact is {} away from the wall", dist)
    require(abs(p[1]) < zmax + 1e-9, "point of contact {} too far up or down", p.tolist())
    close(eq.psi_limit, eq.psiRZ(*p), "flux at the point of contact", atol=tolpsi)
    # Which of wall and X-point
    if X:
        gx = abs(X[0][2] - axis)
        if abs(got - gx) > tolpsi:
            require(bool(eq.is_limited) == (got < gx), "limited: {}; X-point {} wall {} axis {}", eq.is_limited, X[0][2], float(eq.psi_limit), axis)
        want = eq.psi_limit if eq.is_limited else X[0][2]
        close(eq.psi_xpt, X[0][2], "flux at the X-point", atol=tolpsi)
    else:
        require(eq.is_limited, "neither X-point nor limited")
        want = eq.psi_limit
    close(eq.psi_bndry, want, "boundary flux", atol=1e-12 * np.max(np.abs(psi)))
    close(eq.psi_axis, axis, "flux on axis", atol=1e-12 * np.max(np.abs(psi)))
    # Core
    must, may, inside = reference(eq.R, eq.Z, psi, O[0], X, eq.psi_bndry)
    require(eq.mask is not None and np.all((eq.mask == 0) | (eq.mask == 1)), "mask")
    require(not np.any(must & (eq.mask != 1)), "grid points missing from the core")
    require(not np.any(~may & (eq.mask != 0)), "grid points in the core which shouldn't be")
    return bool(eq.is_limited), must


@st.composite
def case(draw):
    c = draw(plasma.analytic())
    if draw(st.integers(0, 2)):
        c["Z0"] = 0.0
    return {"c": c, "wall": draw(wall()), "coils": draw(st.sampled_from([True, True, False])), "nlimit": draw(st.sampled_from([None, None, 200, 1001])),
            "when": draw(st.sampled_from(["construction", "replaced", "added"])), "check": draw(st.sampled_from(["argument", "attribute"])),
            "spec": draw(plasma.profile_spec())}


def _tolpsi(eq):
    """Error of interpolating the flux between grid points: coarse, from fourth differences"""
    psi = eq.psi()
    worst = 0.0
    for ax in (0, 1):
        worst = max(worst, float(np.max(np.abs(np.diff(psi, 4, axis=ax)))))
    return 0.1 * worst + 1e-9 * np.ptp(psi)


@PROP.sub(case, quick=240, thorough=2400, shards=(8, 8))
def wall_or_xpoint(cc, ctx):
    import freegs

    c = cc["c"]
    R, Z = points(cc["wall"], c)
    W = freegs.machine.Wall(R, Z)
    kw = {} if cc["nlimit"] is None else {"nlimit": cc["nlimit"]}
    nlimit = cc["nlimit"] or 500
    s = c["scale"]
    coils = [(n, freegs.machine.Coil(s * r, s * z + c["Z0"])) for n, r, z in plasma.COILS] if cc["coils"] else []
    first = {"construction": W, "replaced": freegs.machine.Wall([r * 0.9 for r in R], [z * 0.8 for z in Z]), "added": None}[cc["when"]]
    tok = freegs.machine.Machine(coils, first, **kw)
    arg = {"check_limited": True} if cc["check"] == "argument" and first is not None else {}
    eq = plasma.make(c, tok, **arg)
    if cc["coils"]:
        pts = [(s * x, s * z + c["Z0"]) for x, z in (c["xl"], c["xu"])]
        freegs.control.constrain(xpoints=pts, isoflux=[] if c["single"] else [pts[0] + pts[1]])(eq)
    tok.wall = W
    eq.check_limited = True
    eq._updateBoundaryPsi()
    tol = _tolpsi(eq)
    if tol > 0.02 * np.ptp(eq.psi()):
        raise Skip("too coarse")
    limited, must = check_limited(eq, c, R, Z, nlimit, tol)
    ctx.nontrivial(limited)
    ctx.label(("limited" if limited else "diverted") + (" with" if cc["coils"] else " without") + " X-points")
    if limited and np.sum(must) > 40:
        # The current is inside, also if another boundary is asked for
        prof = plasma.profiles(eq, plasma.absolute(cc["spec"], c), c["sign"])
        if np.sum(eq.mask[1:-1, 1:-1]) == np.sum(eq.mask):
            J = prof.Jtor(eq.R, eq.Z, eq.psi())
            require(np.all(J[eq.mask == 0] == 0), "current outside the core")
    # Not if it isn't asked for
    eq.check_limited = False
    eq._updateBoundaryPsi()
    free = plasma.make(c, freegs.machine.Machine(coils))
    require(eq.is_limited is False, "limited, without checking")
    require((eq.psi_bndry is None) == (free.psi_bndry is None) and (eq.psi_bndry is None or eq.psi_bndry == free.psi_bndry),
            "wall has an effect without checking for it: {} {}", eq.psi_bndry, free.psi_bndry)


@st.composite
def solve_case(draw):
    c = draw(plasma.tokamak_case(sizes=(33,)))
    c["inner"] = draw(num(0.75, 0.95, 2))
    c["outer"] = draw(num(1.75, 1.85, 2))
    c["inboard"] = draw(st.one_of(st.none(), num(0.7, 0.8, 2)))
    c["limit_it"] = draw(st.sampled_from([0, 0, 2, 5]))
    c["rtol"] = 1e-3
    c["wait"] = c["inner"] > 0.88 and draw(st.booleans())
    return c


@PROP.sub(solve_case, quick=32, thorough=480, shards=(8, 8))
def limited_solution(c, ctx):
    import freegs

    R = [c["inner"], c["inner"], 1.4, c["outer"], c["outer"], 1.4]
    Z = [-0.85, 0.85, 0.85, 0.25, -0.25, -0.85]
    tok = freegs.machine.TestTokamakLimited()
    tok.wall = freegs.machine.Wall(R, Z)
    eq, prof, constrain = plasma.tokamak_problem(c, tok)
    if c["inboard"]:
        xl = tuple(c["xl"])
        constrain = freegs.control.constrain(xpoints=[xl, tuple(c["xu"])], isoflux=[(1.1, -c["iso"], 1.1, c["iso"]), xl + (c["inboard"], 0.04)])
    try:
        freegs.solve(eq, prof, constrain, rtol=c["rtol"], check_limited=True, limit_it=c["limit_it"], wait_for_limited=c["wait"], maxits=50)
    except RuntimeError:
        raise Skip("not converged")
    except ValueError as e:
        if "O-point" in str(e):
            raise Skip("plasma lost")
        raise
    if np.sum(eq.mask) < 40:
        raise Skip("plasma too small")
    limited, must = check_limited(eq, c, R, Z, 500, _tolpsi(eq))
    ctx.nontrivial(limited)
    ctx.label("limited" if limited else "diverted")
    require(limited or not c["wait"], "returned before the plasma was limited")
    J = eq.Jtor
    psi = eq.psi()
    out = c["sign"] * (psi - eq.psi_bndry) < -0.02 * abs(eq.psi_axis - eq.psi_bndry)
    require(np.all(J[out] == 0), "current outside of the boundary")
    close(eq.plasmaCurrent(), c["sign"] * c["Ip"], "plasma current", rtol=1e-9)
    J2 = prof.Jtor(eq.R, eq.Z, psi)
    m = np.sum(np.abs(J2 - J)) / np.sum(np.abs(J))
    require(m < 60 * c["rtol"] + 5e-3, "current density of the flux differs by {} from that of the solution", m)
