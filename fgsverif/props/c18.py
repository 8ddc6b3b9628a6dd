"""C18: integrals over the plasma"""
import numpy as np
from hypothesis import strategies as st

from .. import plasma
from ..runner import Property, Skip
from ..util import close, finite, require
from . import c16, c17

MU0 = 4e-7 * np.pi

PROP = Property(
    "C18",
    "equilibria of known flux, diverted and limited, as in C16, with generated profiles, plasma current taken from solving with them; every global quantity is recomputed from "
    "its definition with pressure by Gauss-Legendre integration of p', field by differentiating the flux, and Romberg sums over the core; metamorphic: reversed and scaled fields; "
    "non-trivial = at least 100 grid points in the core",
    ["same quadrature (Romberg on the grid) as the code: the core has a sharp edge"],
)


def romb2(f):
    """Romberg's rule as a weighted sum, independent of the order of the axes"""
    def w(n):
        k = n.bit_length() - 1
        assert 2 ** k == n
        # trapezium weights for each spacing, combined by Richardson extrapolation
        rows = []
        for j in range(k + 1):
            v = np.zeros(n + 1)
            s = 2 ** (k - j)
            v[::s] = s
            v[0] *= 0.5
            v[-1] *= 0.5
            rows.append(v)
        for m in range(1, k + 1):
            rows = [(4 ** m * rows[i + 1] - rows[i]) / (4 ** m - 1) for i in range(len(rows) - 1)]
        return rows[0]

    return float(w(f.shape[0] - 1) @ f @ w(f.shape[1] - 1))


GL = np.polynomial.legendre.leggauss(60)


def pressure(eq, x):
    """-integral of p' from x to the edge, times the flux difference"""
    t = 0.5 * (GL[0] + 1)
    # Substitution for profiles with a root at the edge
    u = t * t * (3 - 2 * t)
    du = 6 * t * (1 - t)
    out = np.zeros(x.shape)
    for i in range(x.size):
        a = x.flat[i]
        if a < 1:
            s = a + (1 - a) * u
            out.flat[i] = np.sum(GL[1] * 0.5 * du * np.array([float(eq.pprime(float(v))) for v in s])) * (1 - a)
    return -out * (eq.psi_bndry - eq.psi_axis)


def quantities(eq):
    n = ["plasmaVolume", "poloidalBeta", "poloidalBeta2", "poloidalBeta3", "toroidalBeta", "totalBeta", "betaN", "pressure_ave", "w_th",
         "qcyl", "internalInductance", "internalInductance1", "internalInductance2", "internalInductance3"]
    return {k: float(getattr(eq, k)()) for k in n}


def reference(eq, c, spec):
    R, Z = eq.R, eq.Z
    m = eq.mask
    dA = eq.dR * eq.dZ
    psi = eq.psi()
    x = (psi - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    core = m > 0.5
    P = np.zeros(R.shape)
    # (a few values, interpolated: the profile is smooth)
    g = np.concatenate([np.linspace(0, 0.9, 60), 1 - 0.1 * np.linspace(1, 0, 60)[1:] ** 2])
    P[core] = np.interp(np.clip(x[core], 0, 1), g, pressure(eq, g))
    r, z = R[core], Z[core]
    Bp2 = np.zeros(R.shape)
    Bp2[core] = (eq.psi_func(r, z, dx=1, grid=False) / r + eq.tokamak.Bz(r, z)) ** 2 + (-eq.psi_func(r, z, dy=1, grid=False) / r + eq.tokamak.Br(r, z)) ** 2
    Bt2 = np.zeros(R.shape)
    Bt2[core] = (np.array([float(eq.fpol(float(v))) for v in x[core]]) / r) ** 2

    def vol(f):
        return romb2(2 * np.pi * R * f * m) * dA

    V = vol(np.ones(R.shape))
    Ip = eq.plasmaCurrent()
    pv, bp, bt = vol(P), vol(Bp2), vol(Bt2)
    Rg, a, kap = eq.Rgeometric(), eq.minorRadius(), eq.elongation()
    geo = eq.geometricAxis()
    Bt = float(eq.Btor(geo[0], geo[1]))
    out = {
        "plasmaVolume": V, "poloidalBeta": 2 * MU0 * pv / bp, "toroidalBeta": 2 * MU0 * pv / bt,
        "poloidalBeta2": 8 * np.pi / MU0 * romb2(P * m) * dA / Ip ** 2, "poloidalBeta3": 4 * V * pv / (MU0 * Ip ** 2 * Rg),
        "pressure_ave": pv / V, "w_th": 1.5 * pv,
        "qcyl": 0.5 * (1 + kap ** 2) * 2 * np.pi * a * (a / Rg) * (spec["fvac"] / Rg) / (MU0 * Ip),
        "internalInductance": 2 * bp / (MU0 ** 2 * Rg * Ip ** 2), "internalInductance3": 2 * bp / (MU0 ** 2 * Rg * Ip ** 2),
        "internalInductance2": 2 * bp / (MU0 ** 2 * eq.Rmagnetic() * Ip ** 2),
    }
    out["internalInductance1"] = out["internalInductance3"] * (1 + kap ** 2) / (2 * V / (2 * np.pi ** 2 * Rg * a ** 2))
    out["totalBeta"] = 1 / (1 / out["poloidalBeta"] + 1 / out["toroidalBeta"])
    out["betaN"] = 1e8 * out["toroidalBeta"] * a * Bt / Ip
    return out


@st.composite
def case(draw):
    cc = draw(c17.case())
    cc["c"]["nx"], cc["c"]["ny"] = draw(st.sampled_from([33, 33, 65])), draw(st.sampled_from([33, 33, 65]))
    return cc


def solved(cc, sign=1, k=1.0, b=1.0):
    """The profiles' current for this flux, or for the flux and field multiplied"""
    c = dict(cc["c"], sign=cc["c"]["sign"] * sign)
    eq = c16.make(dict(cc, c=c))
    if k != 1:
        # (the control system's regularisation isn't scale free)
        for _, coil in eq.tokamak.coils:
            coil.current *= k
        eq._updatePlasmaPsi(eq.plasma_psi * k)
    spec = plasma.absolute(cc["spec"], cc["c"])
    spec["Ip"] *= k
    spec["fvac"] *= k * b
    if spec["kind"] == "paxis":
        spec["value"] *= k * k
    prof = plasma.profiles(eq, spec, c["sign"])
    J = prof.Jtor(eq.R, eq.Z, eq.psi())
    eq._profiles = prof
    eq._current = romb2(J) * eq.dR * eq.dZ
    close(eq.plasmaCurrent(), c["sign"] * spec["Ip"], "integral of the current density", rtol=1e-6)
    if float(eq.fpol(0.0)) ** 2 < 0.05 * spec["fvac"] ** 2 or not np.isfinite(float(eq.fpol(0.0))):
        raise Skip("field reversed")
    if np.sum(eq.mask) < 60:
        raise Skip("plasma too small")
    return eq, spec


@PROP.sub(case, quick=56, thorough=1000, shards=(8, 8))
def definitions(cc, ctx):
    eq, spec = solved(cc)
    ctx.label(cc["how"])
    ctx.nontrivial(np.sum(eq.mask) >= 100)
    got, want = quantities(eq), reference(eq, cc["c"], spec)
    require(set(got) == set(want), "quantities")
    for k in sorted(got):
        rtol = 1e-9 if k in ("plasmaVolume", "qcyl", "internalInductance", "internalInductance1", "internalInductance2", "internalInductance3") else 3e-3
        close(got[k], want[k], k, rtol=rtol)
    if cc["spec"]["kind"] == "betap":
        close(got["poloidalBeta"], spec["value"], "poloidal beta asked for", rtol=0.03)
    if cc["spec"]["kind"] == "paxis":
        close(eq.pressure(0.0), spec["value"], "pressure on axis asked for", rtol=1e-6)


@PROP.sub(case, quick=24, thorough=400, shards=(8, 8))
def symmetries(cc, ctx):
    """Reversed and scaled plasma current and fields"""
    eq, spec = solved(cc)
    a = quantities(eq)
    ctx.nontrivial(np.sum(eq.mask) >= 100)
    ctx.label(cc["how"])
    # Reversed plasma current
    b = quantities(solved(cc, sign=-1)[0])
    odd = {"qcyl", "betaN"}
    for k in a:
        close(b[k], -a[k] if k in odd else a[k], k + " with the plasma current reversed", rtol=1e-6)
    # All fields, and pressure, multiplied
    f = 1.5 if cc["n"] % 2 else 0.5
    eq2 = solved(cc, k=f)[0]
    # (critical points are found to a fixed accuracy of the field)
    b = quantities(eq2) if np.array_equal(eq.mask, eq2.mask) else {}
    for k in b:
        p = 2 if k in ("w_th", "pressure_ave") else 0
        close(b[k], a[k] * f ** p, k + " with all fields scaled", rtol=5e-3)
    # Reversed toroidal field
    b = quantities(solved(cc, b=-1.0)[0])
    for k in a:
        close(b[k], -a[k] if k in odd else a[k], k + " with the toroidal field reversed", rtol=1e-6)
