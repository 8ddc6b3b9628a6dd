"""C17: safety factor and toroidal flux"""
import numpy as np
from hypothesis import strategies as st
from scipy import interpolate

from .. import plasma
from ..gen import num, signed
from ..runner import Property, Skip
from ..util import close, finite, require
from . import c16

PROP = Property(
    "C17",
    "diverted and limited equilibria of known flux as in C16 with generated current profiles, either sign of plasma current and toroidal field; values "
    "of normalised flux as scalars, lists and arrays, inside 0.01-0.99 and at axis and edge; q is compared with f/(2 pi) * integral of r dtheta / (R dpsi/dr) evaluated by root "
    "finding on 400 rays; non-trivial = two or more flux surfaces or a negative field",
    ["agreement to 0.6 % inside 0.9 of the flux, 2 % outside and 3 % at the axis, which allows for the 128 points and linear interpolation used"],
)


@st.composite
def case(draw):
    cc = draw(c16.case())
    cc["spec"] = draw(plasma.profile_spec())
    cc["x"] = draw(st.lists(num(0.03, 0.97, 2), min_size=1, max_size=4))
    cc["form"] = draw(st.sampled_from(["scalar", "list", "array"]))
    return cc


def setup(cc):
    eq = c16.make(cc)
    prof = plasma.profiles(eq, plasma.absolute(cc["spec"], cc["c"]), cc["c"]["sign"])
    prof.Jtor(eq.R, eq.Z, eq.psi())
    eq._profiles = prof
    return eq


def safety(eq, O, x):
    """Reference, for one surface"""
    t = np.linspace(0, 2 * np.pi, 400, endpoint=False) + 0.001
    d, f = c16.surface(eq, O, x, t)
    if not np.all(np.isfinite(d)):
        raise Skip("surface not found")
    if np.max(np.abs(np.diff(np.append(d, d[0])))) > 0.2 * np.max(d):
        raise Skip("surface jumps")
    R, Z = O[0] + d * np.sin(t), O[1] + d * np.cos(t)
    slope = (f(R, Z, dx=1, grid=False) * np.sin(t) + f(R, Z, dy=1, grid=False) * np.cos(t)) * abs(eq.psi_bndry - O[2])
    return float(eq.fpol(x)) * np.mean(d / (R * slope))


@PROP.sub(case, quick=160, thorough=1600, shards=(8, 8))
def safety_factor(cc, ctx):
    from freegs import critical

    eq = setup(cc)
    O, X = critical.find_critical(eq.R, eq.Z, eq.psi())
    x = cc["x"] if cc["form"] != "scalar" else cc["x"][:1]
    want = [safety(eq, O[0], v) for v in x]
    arg = {"scalar": x[0], "list": list(x), "array": np.array(x)}[cc["form"]]
    got = eq.q(arg)
    ctx.label(cc["how"])
    ctx.label(cc["form"])
    ctx.nontrivial(len(x) > 1 or cc["spec"]["fvac"] < 0)
    require(np.shape(got) == (() if len(x) == 1 else (len(x),)), "shape of q is {} for {} values", np.shape(got), len(x))
    for v, g, w in zip(x, np.atleast_1d(got), want):
        tol = 0.006 if v < 0.9 else 0.02
        close(g, w, "q at {}".format(v), rtol=tol)
        one = eq.q(v)
        require(isinstance(one, float), "q of a scalar is a {}", type(one).__name__)
        close(g, one, "q of one value and of several", rtol=1e-9)
    require(np.all(np.sign(np.atleast_1d(got)) == np.sign(cc["spec"]["fvac"])), "sign of q")


@PROP.sub(case, quick=32, thorough=300, shards=(8, 8))
def profile_and_limits(cc, ctx):
    """The default grid, values towards axis and edge, toroidal flux"""
    from freegs import critical

    eq = setup(cc)
    O, X = critical.find_critical(eq.R, eq.Z, eq.psi())
    ctx.label(cc["how"])
    ctx.nontrivial()
    n = 20 + len(cc["x"])
    x, q = eq.q(npsi=n)
    require(len(x) == len(q) == n, "{} and {} values, asked for {}", len(x), len(q), n)
    require(0 < x[0] and x[-1] < 1, "grid {} - {} contains axis or edge", x[0], x[-1])
    close(np.diff(x), np.full(n - 1, x[1] - x[0]), "spacing of the grid", rtol=1e-9)
    k = n // 2
    close(q[k], safety(eq, O[0], float(x[k])), "q on the default grid", rtol=0.006)
    close(eq.q(float(x[k])), q[k], "q on the default grid", rtol=1e-9)
    # Axis
    f = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0], eq.psi())
    h = [[float(f(O[0][0], O[0][1], dx=a, dy=b, grid=False)) for a, b in ((2, 0), (1, 1))][0],
         float(f(O[0][0], O[0][1], dx=1, dy=1, grid=False)), float(f(O[0][0], O[0][1], dy=2, grid=False))]
    det = h[0] * h[2] - h[1] ** 2
    q0 = float(eq.fpol(0.0)) / (O[0][0] * np.sqrt(det))
    close(eq.q(0.0), q0, "q on axis", rtol=0.03)
    # Continuous where extrapolation begins, also mixed with other values
    ends = eq.q([0.005, 0.011, 0.5, 0.985, 0.995])
    finite(ends, "q")
    close(ends[0], ends[1], "q near the axis", rtol=0.05)
    close(ends[2], eq.q(0.5), "q in the middle", rtol=0.01)
    close(ends[4], ends[3], "q near the edge", rtol=0.3)
    require(abs(ends[3]) > 0 and np.all(np.sign(ends) == np.sign(q0)), "sign of q")
    # By its own function, with any of what it needs
    psi = eq.psi()
    v = np.array(cc["x"])
    want = np.atleast_1d(eq.q(v))
    for i, given in enumerate(({}, {"opoint": O}, {"xpoint": X}, {"opoint": O, "xpoint": X, "psi": psi}, {"psi": psi})):
        if i % 2 == n % 2:
            got = critical.find_safety(eq, psinorm=v if i != 3 else list(v), **given)
            close(got, want, "find_safety given {}".format(sorted(given)), rtol=1e-6)
    one = critical.find_safety(eq, psinorm=float(v[0]), opoint=O, xpoint=X)
    close(np.ravel(one), want[:1], "find_safety of a scalar", rtol=1e-6)
    m = 1 + len(cc["x"])
    got = critical.find_safety(eq, npsi=m)
    require(np.shape(got) == (m,), "find_safety found {} values, asked for {}", np.shape(got), m)
    close(got, critical.find_safety(eq, psinorm=np.linspace(1.0 / (m + 1), 1.0, m, endpoint=False)), "find_safety at equally spaced surfaces", rtol=1e-6)
    close(got[0], safety(eq, O[0], 1.0 / (m + 1)), "find_safety at its first surface", rtol=0.006)
    # Toroidal flux
    p0, p1 = eq.psi_axis, eq.psi_bndry
    g = np.linspace(0, 1, 41)
    g[0], g[-1] = 0.002, 0.995
    qs = eq.q(np.clip(g, 0.01, 0.99))
    total = eq.tor_flux(p1)
    v = np.array(cc["x"])
    got = eq.tor_flux(p0 + v * (p1 - p0))
    fit = interpolate.CubicSpline(np.clip(g, 0.01, 0.99), qs)
    want = [-(p1 - p0) / (2 * np.pi) * (fit.integrate(0.0, a)) for a in v]
    close(np.atleast_1d(got), want, "toroidal flux", rtol=0.01)
    rho = np.atleast_1d(eq.rhotor(p0 + v * (p1 - p0)))
    close(rho, np.sqrt(np.atleast_1d(got) / total), "radius from toroidal flux", rtol=1e-6)
    close([eq.rhotor(p0), eq.rhotor(p1)], [0.0, 1.0], "radius from toroidal flux at axis and edge", atol=1e-9)
    s = np.argsort(v)
    require(np.all(np.diff(rho[s]) >= 0), "radius isn't increasing")
    close(eq.tor_flux(float(p0 + v[0] * (p1 - p0))), np.atleast_1d(got)[0], "toroidal flux of one value", rtol=1e-9)
