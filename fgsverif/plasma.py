"""Equilibria with an axis and X-points, of known plasma flux, and solved ones"""
import numpy as np
from hypothesis import strategies as st

from .gen import num, signed
from .runner import Skip

MU0 = 4e-7 * np.pi


@st.composite
def analytic(draw, sizes=(17, 33)):
    """Gaussian plasma flux, with the currents in six coils which put X-points above and below.
    Lengths are multiplied by scale and heights shifted by Z0"""
    return {
        "scale": draw(st.one_of(st.just(1.0), num(0.5, 3, 2))), "Z0": draw(st.one_of(st.just(0.0), num(-1, 1, 2))),
        "lo": [draw(num(0.1, 0.25, 3)), draw(num(-1.1, -0.95, 3))], "hi": [draw(num(1.9, 2.1, 3)), draw(num(0.95, 1.1, 3))],
        "nx": draw(st.sampled_from(sizes)), "ny": draw(st.sampled_from(sizes)),
        "sign": draw(st.sampled_from([1, -1])),
        "amp": draw(num(0.05, 1.0, 3)),
        "axis": [draw(num(0.95, 1.15, 3)), draw(num(-0.1, 0.1, 3))],
        "width": [draw(num(0.45, 0.65, 3)), draw(num(0.45, 0.65, 3))],
        "xl": [draw(num(0.9, 1.2, 3)), draw(num(-0.75, -0.6, 3))],
        "xu": [draw(num(0.9, 1.2, 3)), draw(num(0.6, 0.75, 3))],
        "single": draw(st.booleans()),
    }


COILS = [("P1L", 1.0, -1.25), ("P1U", 1.0, 1.25), ("P2L", 2.3, -0.6), ("P2U", 2.3, 0.6), ("P3L", 0.5, -1.3), ("P3U", 0.5, 1.3)]


def _grid(c):
    s = c["scale"]
    return dict(Rmin=s * c["lo"][0], Rmax=s * c["hi"][0], Zmin=s * c["lo"][1] + c["Z0"], Zmax=s * c["hi"][1] + c["Z0"],
                nx=c["nx"], ny=c["ny"])


def plasma_psi(c, R, Z):
    s = c["scale"]
    return c["sign"] * c["amp"] * np.exp(-((R / s - c["axis"][0]) / c["width"][0]) ** 2
                                         - (((Z - c["Z0"]) / s - c["axis"][1]) / c["width"][1]) ** 2)


def build(c, wall=None, coils=None, sensors=None, **kw):
    import freegs

    s = c["scale"]
    if coils is None:
        coils = [(n, freegs.machine.Coil(s * r, s * z + c["Z0"])) for n, r, z in COILS]
    args = [coils, wall]
    if sensors is not None:
        args.append(sensors)
    eq = make(c, freegs.machine.Machine(*args), **kw)
    pts = [(s * x, s * z + c["Z0"]) for x, z in (c["xl"], c["xu"])]
    iso = [] if c["single"] else [pts[0] + pts[1]]
    freegs.control.constrain(xpoints=pts, isoflux=iso)(eq)
    eq._updateBoundaryPsi()
    return eq


def make(c, tokamak, **kw):
    import freegs

    g = _grid(c)
    R, Z = np.meshgrid(np.linspace(g["Rmin"], g["Rmax"], g["nx"]), np.linspace(g["Zmin"], g["Zmax"], g["ny"]), indexing="ij")
    psi = kw.pop("psi", None)
    if psi is None:
        psi = plasma_psi(c, R, Z)
    return freegs.Equilibrium(tokamak=tokamak, psi=psi, **g, **kw)


def diverted(eq, cells=3):
    """Axis and X-points of the total flux; skips if the plasma isn't well inside the domain"""
    from freegs import critical

    O, X = critical.find_critical(eq.R, eq.Z, eq.psi())
    if not O or not X:
        raise Skip("not diverted")
    if eq.mask is None or np.sum(eq.mask) < 30:
        raise Skip("plasma too small")
    m = eq.mask
    n = cells - 1
    if np.any(m[: n + 1]) or np.any(m[-1 - n:]) or np.any(m[:, : n + 1]) or np.any(m[:, -1 - n:]):
        raise Skip("plasma reaches the edge of the domain")
    return O, X


@st.composite
def profile_spec(draw):
    """Pressure, current and field relative to what suits the flux"""
    kind = draw(st.sampled_from(["paxis", "betap"]))
    return {
        "kind": kind,
        "value": draw(num(0.02, 1, 2)) if kind == "paxis" else draw(num(0.05, 1.5, 2)),
        "Ip": draw(num(0.5, 1.5, 2)), "fvac": draw(signed(0.5, 2, 2)),
        "m": draw(st.one_of(st.just(1.0), st.just(2.0), num(0.5, 3, 2))),
        "n": draw(st.one_of(st.just(2.0), st.just(1.0), num(0.5, 3, 2))),
        "Raxis": draw(st.one_of(st.just(1.0), num(0.5, 2, 2))),
    }


def absolute(spec, c):
    """In SI units, for the plasma c"""
    a, s = c["amp"], c["scale"]
    out = dict(spec, Ip=float("%.6g" % (spec["Ip"] * 2 * np.pi * a / (MU0 * s))), fvac=float("%.6g" % (spec["fvac"] * 8 * a / s)))
    if spec["kind"] == "paxis":
        out["value"] = float("%.6g" % (spec["value"] * 0.3 * a * a / (MU0 * s ** 4)))
    return out


def profiles(eq, s, sign=1):
    from freegs import jtor

    cls = jtor.ConstrainPaxisIp if s["kind"] == "paxis" else jtor.ConstrainBetapIp
    return cls(eq, s["value"], sign * s["Ip"], s["fvac"], alpha_m=s["m"], alpha_n=s["n"], Raxis=s["Raxis"])


@st.composite
def tokamak_case(draw, sizes=(33,)):
    """A free boundary calculation in the style of the examples"""
    kind = draw(st.sampled_from(["paxis", "betap"]))
    Ip = draw(num(1.5e5, 5e5, 0))
    return {
        "nx": draw(st.sampled_from(sizes)), "ny": draw(st.sampled_from(sizes)),
        "Rmin": draw(num(0.1, 0.15, 2)), "Rmax": draw(num(1.9, 2.1, 2)), "Zmin": draw(num(-1.1, -1.0, 2)), "Zmax": draw(num(1.0, 1.1, 2)),
        "xl": [draw(num(1.05, 1.15, 2)), draw(num(-0.65, -0.6, 2))], "xu": [draw(num(1.05, 1.15, 2)), draw(num(0.7, 0.8, 2))],
        "iso": draw(num(0.55, 0.6, 2)),
        "sign": draw(st.sampled_from([1, -1])), "kind": kind,
        "value": round(draw(num(0.01, 0.15, 3)) * 1e6 * (Ip / 5e5) ** 2, 0) if kind == "paxis" else draw(num(0.05, 0.6, 2)),
        "Ip": Ip, "fvac": draw(signed(0.5, 2, 2)),
        "m": draw(st.sampled_from([1.0, 1.0, 1.0, 1.5])), "n": draw(st.sampled_from([2.0, 2.0, 1.0, 1.5])), "Raxis": draw(st.sampled_from([1.0, 1.0, 1.2])),
        "order": draw(st.sampled_from([2, 4])),
    }


def tokamak_problem(c, tokamak=None, **kw):
    """(eq, profiles, constrain) not yet solved"""
    import freegs

    tok = tokamak if tokamak is not None else freegs.machine.TestTokamak()
    R, Z = np.meshgrid(np.linspace(c["Rmin"], c["Rmax"], c["nx"]), np.linspace(c["Zmin"], c["Zmax"], c["ny"]), indexing="ij")
    psi = c["sign"] * np.exp(-((R - 0.5 * (c["Rmin"] + c["Rmax"])) / (0.4 * (c["Rmax"] - c["Rmin"]))) ** 2
                             - ((Z - 0.5 * (c["Zmin"] + c["Zmax"])) / (0.4 * (c["Zmax"] - c["Zmin"]))) ** 2)
    psi[0] = psi[-1] = 0
    psi[:, 0] = psi[:, -1] = 0
    eq = freegs.Equilibrium(tokamak=tok, Rmin=c["Rmin"], Rmax=c["Rmax"], Zmin=c["Zmin"], Zmax=c["Zmax"],
                            nx=c["nx"], ny=c["ny"], psi=psi, order=c["order"], **kw)
    prof = profiles(eq, c, c["sign"])
    constrain = freegs.control.constrain(xpoints=[tuple(c["xl"]), tuple(c["xu"])],
                                         isoflux=[(1.1, -c["iso"], 1.1, c["iso"])])
    return eq, prof, constrain


def solved(c, tokamak=None, **kw):
    import freegs

    skw = {k: kw.pop(k) for k in ("rtol", "maxits", "blend", "atol") if k in kw}
    eq, prof, constrain = tokamak_problem(c, tokamak, **kw)
    try:
        freegs.solve(eq, prof, constrain, **skw)
    except RuntimeError:
        raise Skip("not converged")
    except ValueError as e:
        if "O-point" in str(e):
            raise Skip("plasma lost")
        raise
    return eq, prof, constrain
