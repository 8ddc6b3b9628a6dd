"""C07: the linear Grad-Shafranov solve"""
import numpy as np
from hypothesis import strategies as st

from ..gen import num
from ..runner import Property
from ..util import close, require

MU0 = 4e-7 * np.pi

PROP = Property(
    "C07",
    "grids (5-21 points per side, any position and aspect ratio), order 2 or 4; manufactured solutions: polynomials "
    "the differencing is exact for, smooth functions on a sequence of grids (rate of convergence), and for the whole "
    "solve current densities with known flux; random fields for the stencils; non-trivial = a solution that depends on both coordinates",
)


@st.composite
def domain(draw, nmin=7, nmax=21):
    Rmin = draw(st.one_of(num(0.05, 0.5, 3), num(0.5, 4, 2)))
    return {
        "Rmin": Rmin, "Rmax": round(Rmin + draw(num(0.3, 3, 2)), 6),
        "Zmin": draw(num(-2, 1, 2)), "h": draw(num(0.4, 4, 2)),
        "nx": draw(st.integers(nmin, nmax)), "ny": draw(st.integers(nmin, nmax)),
    }


def _eq(d, order, **kw):
    import freegs

    return freegs.Equilibrium(Rmin=d["Rmin"], Rmax=d["Rmax"], Zmin=d["Zmin"], Zmax=d["Zmin"] + d["h"],
                              nx=d["nx"], ny=d["ny"], order=order, **kw)


@st.composite
def poly_case(draw):
    order = draw(st.sampled_from([2, 4]))
    amax, bmax = (2, 3) if order == 2 else (4, 5)
    terms = draw(st.lists(st.tuples(st.integers(0, amax), st.integers(0, bmax), num(-1, 1, 3)),
                          min_size=1, max_size=5))
    return {"d": draw(domain()), "order": order, "terms": terms, "guess": draw(num(-1, 1, 2))}


def _poly(terms, R, Z, L, z0, h):
    """Sum of c x^a y^b, x = R/L, y = (Z-z0)/h, and its image under the operator"""
    x, y = R / L, (Z - z0) / h
    f = np.zeros_like(R)
    g = np.zeros_like(R)
    for a, b, c in terms:
        f = f + c * x ** a * y ** b
        if a >= 1:
            # d2/dR2 - (1/R) d/dR of R^a = a(a-2) R^(a-2)
            g = g + c * a * (a - 2) * R ** (a - 2.0) / L ** a * y ** b
        if b >= 2:
            g = g + c * x ** a * b * (b - 1) * y ** (b - 2) / h ** 2
    return f, g


def _set_boundary(rhs, f):
    rhs = np.array(rhs)
    rhs[0, :], rhs[-1, :], rhs[:, 0], rhs[:, -1] = f[0, :], f[-1, :], f[:, 0], f[:, -1]
    return rhs


@PROP.sub(poly_case, quick=300, thorough=3000, shards=(4, 8))
def exact_for_polynomials(c, ctx):
    d = c["d"]
    eq = _eq(d, c["order"])
    f, g = _poly(c["terms"], eq.R, eq.Z, d["Rmax"], d["Zmin"], d["h"])
    ctx.nontrivial(any(a > 0 and v for a, b, v in c["terms"]) and any(b > 0 and v for a, b, v in c["terms"]))
    ctx.label("order {}".format(c["order"]))
    guess = np.full(f.shape, c["guess"])
    rhs = _set_boundary(g, f)
    keep = rhs.copy()
    got = eq.callSolver(guess, rhs)
    require(np.array_equal(rhs, keep), "right hand side modified")
    require(np.all(guess == c["guess"]), "initial guess modified")
    close(got, f, "solution", atol=1e-8 * (np.max(np.abs(f)) + 1e-6))
    require(c["order"] == eq.order, "order")


@st.composite
def smooth_case(draw):
    Rmin = draw(num(0.2, 2, 2))
    return {"Rmin": Rmin, "L": draw(num(0.8, 2, 2)), "H": draw(num(0.8, 2, 2)), "order": draw(st.sampled_from([2, 4])),
            "k": draw(num(1.0, 2.5, 2)), "l": draw(num(1.0, 2.5, 2)), "p": draw(num(0, 3, 2)), "q": draw(num(0, 3, 2))}


@PROP.sub(smooth_case, quick=24, thorough=200, shards=(4, 8))
def converges_at_its_order(c, ctx):
    import freegs

    k, l, p, q = c["k"], c["l"], c["p"], c["q"]
    errs = []
    for n in (13, 25, 49):
        eq = freegs.Equilibrium(Rmin=c["Rmin"], Rmax=c["Rmin"] + c["L"], Zmin=-c["H"] / 2, Zmax=c["H"] / 2,
                                nx=n, ny=n, order=c["order"])
        R, Z = eq.R, eq.Z
        f = np.sin(k * R + p) * np.cos(l * Z + q)
        g = -(k * k + l * l) * f - k / R * np.cos(k * R + p) * np.cos(l * Z + q)
        errs.append(np.max(np.abs(eq.callSolver(np.zeros_like(f), _set_boundary(g, f)) - f)))
    ctx.nontrivial()
    ctx.label("order {}".format(c["order"]))
    # Halving the spacing twice: error falls by 16 / 256
    need = 9.0 if c["order"] == 2 else 80.0
    require(errs[2] <= errs[0] / need + 1e-11, "errors {} with order {}", errs, c["order"])


@st.composite
def random_field(draw):
    return {"d": draw(domain(5, 12)), "seed": draw(st.integers(0, 10 ** 6))}


@PROP.sub(random_field, quick=100, thorough=600)
def operators_agree(c, ctx):
    """The operator applied to a field, the sparse matrix, and the definition agree"""
    from freegs.gradshafranov import GSElliptic, GSsparse, GSsparse4thOrder

    d = c["d"]
    nx, ny = d["nx"], d["ny"]
    rng = np.random.default_rng(c["seed"])
    f = rng.standard_normal((nx, ny))
    ctx.nontrivial()
    Zmax = d["Zmin"] + d["h"]
    dR, dZ = (d["Rmax"] - d["Rmin"]) / (nx - 1), d["h"] / (ny - 1)
    R = np.linspace(d["Rmin"], d["Rmax"], nx)[1:-1, None]
    want = ((f[2:, 1:-1] - 2 * f[1:-1, 1:-1] + f[:-2, 1:-1]) / dR ** 2
            - (f[2:, 1:-1] - f[:-2, 1:-1]) / (2 * R * dR)
            + (f[1:-1, 2:] - 2 * f[1:-1, 1:-1] + f[1:-1, :-2]) / dZ ** 2)
    tol = 1e-10 * (1 / dR ** 2 + 1 / dZ ** 2 + 1 / (dR * d["Rmin"]))
    got = GSElliptic(d["Rmin"])(f, dR, dZ)
    close(got[1:-1, 1:-1], want, "operator", atol=tol)
    A = GSsparse(d["Rmin"], d["Rmax"], d["Zmin"], Zmax)(nx, ny)
    full = np.asarray(A.dot(f.ravel())).reshape(nx, ny)
    close(full[1:-1, 1:-1], want, "sparse matrix", atol=tol)
    for M, name in ((full, "2nd"), (None, "4th")):
        if M is None:
            if nx < 7 or ny < 7:
                continue
            A4 = GSsparse4thOrder(d["Rmin"], d["Rmax"], d["Zmin"], Zmax)(nx, ny)
            M = np.asarray(A4.dot(f.ravel())).reshape(nx, ny)
        edge = np.ones((nx, ny), bool)
        edge[1:-1, 1:-1] = False
        close(M[edge], f[edge], name + " order matrix on the boundary", atol=1e-12)


@st.composite
def solve_case(draw):
    d = draw(domain(7, 7))
    d["nx"], d["ny"] = draw(st.sampled_from([9, 17])), draw(st.sampled_from([9, 17]))
    return {"d": d, "order": draw(st.sampled_from([2, 4])), "amp": draw(num(-2, 2, 2)),
            "tilt": draw(num(-1, 1, 2)), "free": draw(st.booleans()), "again": draw(st.booleans()),
            "seed": draw(st.integers(0, 1000))}


class _Profiles:
    def fvac(self):
        return 1.0


def _bubble(c, R, Z):
    """Flux zero on the edges and the current density which makes it"""
    d = c["d"]
    a, b, z0, z1 = d["Rmin"], d["Rmax"], d["Zmin"], d["Zmin"] + d["h"]
    # u(R) = (R-a)(R-b), v(Z) = (Z-z0)(Z-z1)(1 + t (Z-z0)/h)
    t = c["tilt"]
    u = (R - a) * (R - b)
    du, d2u = 2 * R - a - b, 2.0
    h = d["h"]
    y = Z - z0
    v = y * (y - h) * (1 + t * y / h)
    d2v = 2 - 2 * t + 6 * t * y / h
    s = c["amp"] / ((b - a) ** 2 / 4 * h ** 2 / 4)
    psi = s * u * v
    delta = s * (d2u * v - du * v / R + u * d2v)
    return psi, -delta / (MU0 * R)


@PROP.sub(solve_case, quick=150, thorough=1200, shards=(2, 8))
def flux_of_a_given_current(c, ctx):
    """solve() with a given current density"""
    from freegs.boundary import fixedBoundary, freeBoundary
    from scipy.integrate import romb

    eq = _eq(c["d"], c["order"], boundary=freeBoundary if c["free"] else fixedBoundary)
    R, Z = eq.R, eq.Z
    psi, J = _bubble(c, R, Z)
    rng = np.random.default_rng(c["seed"])
    if c["again"]:
        # What was there before doesn't matter
        eq.solve(_Profiles(), Jtor=rng.standard_normal(R.shape) * 1e5)
    keep = J.copy()
    eq.solve(_Profiles(), Jtor=J)
    ctx.nontrivial(c["amp"] != 0)
    ctx.label("free" if c["free"] else "fixed")
    require(np.array_equal(J, keep), "current density modified")
    require(np.array_equal(eq.Jtor, J), "Jtor of the equilibrium")
    dR, dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]
    close(eq.plasmaCurrent(), romb(romb(J)) * dR * dZ, "plasma current", rtol=1e-9,
          atol=1e-12 * np.sum(np.abs(J)) * dR * dZ)
    scale = np.max(np.abs(psi)) + 1e-9
    if not c["free"]:
        close(eq.plasma_psi, psi, "flux with fixed boundary", atol=1e-8 * scale)
    else:
        # Subtract the known part: what is left has no source, so is determined by its edges
        rest = eq.plasma_psi - psi
        scale = max(scale, np.max(np.abs(eq.plasma_psi)))
        zero = _set_boundary(np.zeros_like(rest), rest)
        close(eq.callSolver(rest, zero), rest, "flux with free boundary", atol=1e-8 * scale)
    # Linear in the current
    eq2 = _eq(c["d"], c["order"], boundary=freeBoundary if c["free"] else fixedBoundary)
    eq2.solve(_Profiles(), Jtor=-2.5 * J)
    close(eq2.plasma_psi, -2.5 * eq.plasma_psi, "flux of -2.5 times the current", atol=1e-9 * scale)
