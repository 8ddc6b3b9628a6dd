"""C12: plasma current density of the profile classes"""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import romb

from .. import plasma
from ..gen import num, signed
from ..runner import Property, Skip
from ..util import close, finite, require
from .c11 import reference

MU0 = 4e-7 * np.pi

PROP = Property(
    "C12",
    "diverted plasma flux (Gaussian plasma of either sign between two coils) on 17- and 33-point grids; pressure/current and "
    "beta/current constraints with random targets, sign of current, vacuum field, profile exponents and radius; user-supplied "
    "polynomial profiles; boundary flux from the X-point or given; non-trivial = plasma core of at least 30 grid points",
    ["core well inside the domain"],
)


@st.composite
def case(draw):
    return {"c": draw(plasma.analytic()), "p": draw(plasma.profile_spec()), "flip": draw(st.sampled_from([1, 1, -1])),
            "frac": draw(st.one_of(st.none(), st.none(), num(0.4, 1.0, 2)))}


def _setup(cc):
    eq = plasma.build(cc["c"])
    O, X = plasma.diverted(eq)
    bndry = X[0][2] if cc["frac"] is None else O[0][2] + cc["frac"] * (X[0][2] - O[0][2])
    return eq, O, X, bndry


def _check_J(J, prof, eq, psi, O, X, bndry, scale=None):
    """Current density follows from p' and ff' in the core, and vanishes outside"""
    must, may, inside = reference(eq.R, eq.Z, psi, O[0], X, bndry)
    psin = np.clip((psi - O[0][2]) / (bndry - O[0][2]), 0, 1)
    want = eq.R * np.vectorize(prof.pprime)(psin) + np.vectorize(prof.ffprime)(psin) / (MU0 * eq.R)
    finite(J, "current density")
    s = np.max(np.abs(J)) + 1e-30
    close(J[must], want[must], "current density in the core", rtol=1e-9, atol=1e-10 * s)
    close(J[~may], np.zeros(np.sum(~may)), "current density outside the core", atol=1e-14 * s)
    edge = may & ~must
    d = np.minimum(np.abs(J - want), np.abs(J))[edge]
    close(d, np.zeros(d.shape), "current density near X-points", atol=1e-9 * s)
    require(np.sum(must) > 0, "no core")
    return must, may


@PROP.sub(case, quick=250, thorough=2500, shards=(8, 8))
def constraints_are_met(cc, ctx):
    eq, O, X, bndry = _setup(cc)
    s = plasma.absolute(cc["p"], cc["c"])
    prof = plasma.profiles(eq, s, cc["flip"] * cc["c"]["sign"])
    psi = eq.psi()
    keep = psi.copy()
    args = {} if cc["frac"] is None else {"psi_bndry": bndry}
    J = prof.Jtor(eq.R, eq.Z, psi, **args)
    require(np.array_equal(psi, keep), "flux modified")
    ctx.nontrivial()
    ctx.label(s["kind"])
    ctx.label("given boundary" if args else "X-point")
    Ip = cc["flip"] * cc["c"]["sign"] * s["Ip"]
    must, may = _check_J(J, prof, eq, psi, O, X, bndry)
    # Terms which add up to the plasma current may be larger than the current
    dA = eq.dR * eq.dZ
    size = np.sum(np.abs(J)) * dA
    close(romb(romb(J)) * dA, Ip, "plasma current", rtol=1e-9, atol=1e-10 * size)
    shape = np.where(J != 0, 1.0, 0.0)
    core = np.where(must | (may & (J != 0)), 1.0, 0.0)
    if s["kind"] == "paxis":
        close(prof.pressure(0.0), s["value"], "pressure on axis", rtol=1e-6)
        close(prof.pressure(np.array([0.0, 1.0])), [s["value"], 0.0], "pressure on axis and edge", rtol=1e-6, atol=1e-9 * s["value"])
    else:
        psin = (psi - O[0][2]) / (bndry - O[0][2])
        ins = core > 0
        p = np.zeros(psi.shape)
        p[ins] = prof.pressure(np.clip(psin[ins], 0, 1))
        B2 = (eq.Br(eq.R, eq.Z) ** 2 + eq.Bz(eq.R, eq.Z) ** 2) * core
        got = 2 * MU0 * romb(romb(p * eq.R)) / romb(romb(B2 * eq.R))
        close(got, s["value"], "poloidal beta", rtol=1e-5)
    close([prof.pprime(1.2), prof.ffprime(1.2)], [0, 0], "profiles outside the plasma", atol=1e-12 * abs(prof.ffprime(0.0)))
    require(prof.fvac() == s["fvac"], "vacuum field")
    # A second evaluation gives the same
    close(prof.Jtor(eq.R, eq.Z, psi, **args), J, "second evaluation", rtol=1e-12, atol=1e-12 * np.max(np.abs(J)))


@PROP.sub(case, quick=80, thorough=800, shards=(8, 8))
def solve_has_the_current(cc, ctx):
    """One linear solve: current, flux and axis pressure of the result"""
    eq, O, X, bndry = _setup(cc)
    s = plasma.absolute(cc["p"], cc["c"])
    prof = plasma.profiles(eq, s, cc["c"]["sign"])
    psi = eq.psi()
    args = {} if cc["frac"] is None else {"psi_bndry": bndry}
    eq.solve(prof, **args)
    ctx.nontrivial()
    close(eq.plasmaCurrent(), cc["c"]["sign"] * s["Ip"], "plasma current", rtol=1e-9)
    _check_J(eq.Jtor, prof, eq, psi, O, X, bndry)
    close(eq.pprime(0.3), prof.pprime(0.3), "pprime", rtol=1e-12)
    close(eq.ffprime(0.3), prof.ffprime(0.3), "ffprime", rtol=1e-12)
    close(eq.pressure(0.3), prof.pressure(0.3), "pressure", rtol=1e-12)
    if np.isfinite(prof.fpol(0.3)):
        close(eq.fpol(0.3), prof.fpol(0.3), "fpol", rtol=1e-12)
    close(eq.fvac(), prof.fvac(), "fvac", rtol=1e-12)


@st.composite
def given_case(draw):
    poly = st.lists(num(-1e4, 1e4, 0), min_size=1, max_size=3)
    return {"c": draw(plasma.analytic()), "pp": draw(poly), "ff": draw(st.lists(num(-0.3, 0.3, 3), min_size=1, max_size=3)),
            "fvac": draw(signed(1.5, 5, 2)), "frac": draw(st.one_of(st.none(), num(0.4, 1.0, 2)))}


@PROP.sub(given_case, quick=150, thorough=1500, shards=(4, 8))
def given_profiles(cc, ctx):
    from freegs import jtor

    eq, O, X, bndry = _setup(cc)
    pp, ff = np.poly1d(cc["pp"]), np.poly1d(cc["ff"])
    prof = jtor.ProfilesPprimeFfprime(pp, ff, cc["fvac"])
    psi = eq.psi()
    args = {} if cc["frac"] is None else {"psi_bndry": bndry}
    J = prof.Jtor(eq.R, eq.Z, psi, **args)
    ctx.nontrivial(any(cc["pp"]) or any(cc["ff"]))
    must, may, _ = reference(eq.R, eq.Z, psi, O[0], X, bndry)
    x = np.clip((psi - O[0][2]) / (bndry - O[0][2]), 0, 1)
    want = eq.R * pp(x) + ff(x) / (MU0 * eq.R)
    s = np.max(np.abs(want)) + 1e-30
    close(J[must], want[must], "current density in the core", rtol=1e-9, atol=1e-11 * s)
    close(J[~may], 0 * J[~may], "current density outside the core", atol=1e-14 * s)
    eq.solve(prof, **args)
    close(eq.plasmaCurrent(), romb(romb(J)) * eq.dR * eq.dZ, "plasma current", rtol=1e-9, atol=1e-12 * s)
    close(eq.Jtor, J, "current density of the equilibrium", rtol=1e-9, atol=1e-12 * s)
