"""C13: pressure, f and toroidal field follow from the profiles"""
import numpy as np
from hypothesis import strategies as st

from .. import plasma
from ..gen import num, signed
from ..runner import Property, Skip
from ..util import close, finite, require

MU0 = 4e-7 * np.pi

PROP = Property(
    "C13",
    "profiles of the pressure/current, beta/current and user-supplied kinds on generated diverted plasmas of either sign, evaluated at "
    "scalars and arrays of normalised flux in and around [0,1]; toroidal field at points in the core, outside, and in between; "
    "non-trivial = both p' and ff' are non-zero",
)


@st.composite
def case(draw):
    return {"c": draw(plasma.analytic()), "p": draw(plasma.profile_spec()),
            "x": draw(st.lists(num(0, 1, 4), min_size=2, max_size=6)),
            "out": draw(num(1.0, 2.0, 2)), "shape2": draw(st.booleans())}


_gx, _gw = np.polynomial.legendre.leggauss(60)


def _integral(f, a, b):
    # Substitution which removes the end point singularities of (1-x^m)^n
    t0, t1 = np.arcsin(np.sqrt(a)), np.arcsin(np.sqrt(b))
    t = 0.5 * (t1 - t0) * _gx + 0.5 * (t1 + t0)
    x = np.sin(t) ** 2
    return 0.5 * (t1 - t0) * np.sum(_gw * np.array([float(f(v)) for v in x]) * 2 * np.sin(t) * np.cos(t))


def _eq(c):
    eq = plasma.build(c)
    return (eq,) + plasma.diverted(eq)


@PROP.sub(case, quick=250, thorough=2500, shards=(4, 8))
def pressure_and_f_are_integrals(cc, ctx):
    eq, O, X = _eq(cc["c"])
    spec = plasma.absolute(cc["p"], cc["c"])
    prof = plasma.profiles(eq, spec, cc["c"]["sign"])
    eq.solve(prof)
    dpsi = X[0][2] - O[0][2]
    x = np.array(cc["x"])
    ctx.nontrivial(prof.pprime(0.3) != 0 and prof.ffprime(0.3) != 0)
    ctx.label(cc["p"]["kind"])
    ctx.label("fvac < 0" if cc["p"]["fvac"] < 0 else "fvac > 0")
    fvac = spec["fvac"]
    # pressure: zero at the edge, derivative p'
    pmax = abs(_integral(prof.pprime, 0, 1) * dpsi)
    want = np.array([-_integral(prof.pprime, v, 1.0) * dpsi for v in x])
    arr = x.reshape(1, -1) if cc["shape2"] else x
    close(prof.pressure(arr), want.reshape(arr.shape), "pressure", rtol=1e-5, atol=1e-6 * pmax)
    close([float(prof.pressure(float(v))) for v in x], want, "pressure at one value", rtol=1e-5, atol=1e-6 * pmax)
    close(float(prof.pressure(1.0)), 0.0, "pressure at the edge", atol=1e-9 * pmax)
    close(float(prof.pressure(cc["out"])), 0.0, "pressure outside", atol=1e-9 * pmax)
    # f
    f2 = fvac ** 2 - 2 * np.array([_integral(prof.ffprime, v, 1.0) for v in x]) * dpsi
    big = fvac ** 2 + 2 * abs(_integral(prof.ffprime, 0, 1) * dpsi)
    ok = f2 > 1e-3 * big
    got = np.asarray(prof.fpol(x), float)
    close(got[ok], (np.sign(fvac) * np.sqrt(np.abs(f2)))[ok], "f", rtol=1e-4, atol=1e-6 * np.sqrt(big))
    for v, w, o in zip(x, f2, ok):
        if o:
            close(float(prof.fpol(float(v))), np.sign(fvac) * np.sqrt(w), "f at one value", rtol=1e-4, atol=1e-6 * np.sqrt(big))
    close(float(prof.fpol(1.0)), fvac, "f at the edge", rtol=1e-9)
    close(float(prof.fpol(cc["out"])), fvac, "f outside", rtol=1e-9)
    close(np.asarray(eq.fpol(x))[ok], got[ok], "f of the equilibrium", rtol=1e-12)
    close(eq.pressure(arr), prof.pressure(arr), "pressure of the equilibrium", rtol=1e-12, atol=1e-12 * pmax)


@st.composite
def given_case(draw):
    return {"c": draw(plasma.analytic(sizes=(33,))), "pp": draw(st.lists(num(-1e4, 1e4, 0), min_size=1, max_size=3)),
            "ff": draw(st.lists(num(-0.3, 0.3, 3), min_size=1, max_size=3)), "fvac": draw(signed(1.5, 5, 2)),
            "x": draw(st.lists(num(0, 1, 4), min_size=2, max_size=5)), "pf": draw(st.booleans()), "f": draw(st.booleans())}


@PROP.sub(given_case, quick=150, thorough=1500, shards=(2, 8))
def given_profiles(cc, ctx):
    from freegs import jtor

    eq, O, X = _eq(cc["c"])
    pp, ff = np.poly1d(cc["pp"]), np.poly1d(cc["ff"])
    prof = jtor.ProfilesPprimeFfprime(pp, ff, cc["fvac"], p_func=(lambda v: 7.0 + 0 * v) if cc["pf"] else None,
                                      f_func=(lambda v: -3.0 + 0 * v) if cc["f"] else None)
    eq.solve(prof)
    dpsi = X[0][2] - O[0][2]
    x = np.array(cc["x"])
    ctx.nontrivial(any(cc["pp"]) and any(cc["ff"]))
    P, F = pp.integ(), ff.integ()
    want = 7.0 + 0 * x if cc["pf"] else -(P(1.0) - P(x)) * dpsi
    s = np.sum(np.abs(cc["pp"])) * abs(dpsi) + 1e-9
    close(eq.pressure(x), want, "pressure", rtol=1e-7, atol=1e-8 * s)
    close([float(eq.pressure(float(v))) for v in x], want, "pressure at one value", rtol=1e-7, atol=1e-8 * s)
    want = -3.0 + 0 * x if cc["f"] else np.sign(cc["fvac"]) * np.sqrt(cc["fvac"] ** 2 - 2 * (F(1.0) - F(x)) * dpsi)
    ok = np.isfinite(want)
    close(np.asarray(eq.fpol(x))[ok], want[ok], "f", rtol=1e-7)
    close(np.asarray(eq.fpol(list(x) if not cc["f"] else x))[ok], want[ok], "f for a list", rtol=1e-7)
    close(np.array([float(eq.fpol(float(v))) for v in x])[ok], want[ok], "f at one value", rtol=1e-7)
    require(eq.fvac() == cc["fvac"], "vacuum f")
    close(eq.pprime(x), pp(x), "pprime", rtol=1e-12)
    close(eq.ffprime(x), ff(x), "ffprime", rtol=1e-12)


@st.composite
def btor_case(draw):
    c = draw(plasma.analytic(sizes=(33,)))
    return {"c": c, "p": draw(plasma.profile_spec()), "pts": draw(st.lists(st.tuples(num(0, 1, 3), num(0, 1, 3)), min_size=3, max_size=8))}


@PROP.sub(btor_case, quick=150, thorough=1500, shards=(4, 8))
def toroidal_field(cc, ctx):
    from scipy import ndimage

    eq, O, X = _eq(cc["c"])
    s = plasma.absolute(cc["p"], cc["c"])
    prof = plasma.profiles(eq, s, cc["c"]["sign"])
    eq.solve(prof)
    plasma.diverted(eq)
    c = cc["c"]
    # Distance to the edge of the core in cells
    inside = ndimage.distance_transform_cdt(eq.mask > 0.5, "chessboard")
    outside = ndimage.distance_transform_cdt(eq.mask < 0.5, "chessboard")
    R = eq.Rmin + np.array([p[0] for p in cc["pts"]]) * (eq.Rmax - eq.Rmin)
    Z = eq.Zmin + np.array([p[1] for p in cc["pts"]]) * (eq.Zmax - eq.Zmin)
    R[0], Z[0] = eq.magneticAxis()[:2]
    got = eq.Btor(R, Z)
    fvac = s["fvac"]
    for k in range(len(R)):
        one = eq.Btor(float(R[k]), float(Z[k]))
        if np.isfinite(got[k]):
            close(one, got[k], "toroidal field at one point", rtol=1e-9)
        i, j = int((R[k] - eq.Rmin) / eq.dR + 0.5), int((Z[k] - eq.Zmin) / eq.dZ + 0.5)
        i, j = min(i, eq.nx - 1), min(j, eq.ny - 1)
        f_in = float(prof.fpol(float(eq.psiNRZ(R[k], Z[k]))))
        if not np.isfinite(f_in):
            continue
        d = max(inside[i, j], outside[i, j])
        want = f_in if inside[i, j] else fvac
        # Interpolation of the mask dies away by a factor of about 4 per cell
        tol = 1.2 * abs(f_in - fvac) * 0.3 ** max(d - 1, 0) + 1e-9 * abs(fvac)
        close(R[k] * got[k], want, "R*Bt {} cells {} the core".format(d, "inside" if inside[i, j] else "outside"), atol=tol)
        B = np.sqrt(eq.Br(R[k], Z[k]) ** 2 + eq.Bz(R[k], Z[k]) ** 2)
        close(eq.Bpol(R[k], Z[k]), B, "poloidal field", rtol=1e-9)
        close(eq.Btot(R[k], Z[k]), np.sqrt(B ** 2 + got[k] ** 2), "total field", rtol=1e-9)
    ctx.nontrivial(prof.ffprime(0.3) != 0)
    # f_in close to fvac only distinguishes little; count those which do
    if abs(prof.fpol(0.0) - fvac) > 0.01 * abs(fvac):
        ctx.label("f varies by more than 1%")
