"""C16: plasma shape"""
import numpy as np
from hypothesis import strategies as st
from scipy import interpolate

from .. import plasma
from ..gen import num
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C16",
    "diverted equilibria of known flux (scaled, shifted, either direction of current, single and double null, 33-65 points per side) and plasmas limited by a wall with and "
    "without X-points; points on flux surfaces are compared with root finding on the interpolated flux, shape measures with a dense boundary found the same way; "
    "non-trivial = plasma at least ten cells wide",
    ["shape measures have the accuracy of the number of boundary points", "boundary within a few cells of an X-point is not compared"],
)


@st.composite
def case(draw):
    return {"c": draw(plasma.analytic(sizes=(33, 65))), "how": draw(st.sampled_from(["diverted", "diverted", "limited", "no coils"])),
            "wall": draw(num(0.25, 0.5, 2)), "n": draw(st.sampled_from([360, 360, 90, 101, 720])), "val": draw(num(0.15, 0.95, 2)),
            "nt": draw(st.integers(5, 60)), "given": draw(st.booleans())}


def make(cc):
    import freegs

    c = cc["c"]
    s = c["scale"]
    if cc["how"] == "diverted":
        eq = plasma.build(c)
    else:
        if cc["how"] == "limited":
            # (whether a wall point counts depends on its height above Z=0)
            c = dict(c, Z0=0.0)
        w = cc["wall"]
        t = np.linspace(0, 2 * np.pi, 60, endpoint=False)
        W = freegs.machine.Wall(list(s * (c["axis"][0] + w * np.cos(t))), list(s * (c["axis"][1] + w * np.sin(t)) + c["Z0"]))
        if cc["how"] == "limited":
            eq = plasma.build(c, wall=W)
        else:
            eq = plasma.make(c, freegs.machine.Machine([], W))
        eq.check_limited = True
        eq._updateBoundaryPsi()
    if getattr(eq, "psi_bndry", None) is None or eq.mask is None:
        raise Skip("no boundary")
    m = eq.mask
    if np.sum(np.any(m, axis=0)) < 10 or np.sum(np.any(m, axis=1)) < 10:
        raise Skip("plasma too small")
    if np.any(m[:3]) or np.any(m[-3:]) or np.any(m[:, :3]) or np.any(m[:, -3:]):
        raise Skip("plasma reaches the edge of the domain")
    return eq


def surface(eq, O, val, theta):
    """Distance from the axis to the surface of normalised flux val, in the directions theta (from vertical)"""
    psi = eq.psi()
    f = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0], (psi - O[2]) / (eq.psi_bndry - O[2]))
    theta = np.asarray(theta)
    d = np.array([np.sin(theta), np.cos(theta)])
    far = np.full(theta.shape, np.hypot(np.ptp(eq.R), np.ptp(eq.Z)))
    for k, (lo, hi) in enumerate(((eq.Rmin, eq.Rmax), (eq.Zmin, eq.Zmax))):
        with np.errstate(divide="ignore", invalid="ignore"):
            far = np.where(np.abs(d[k]) > 1e-9, np.minimum(far, (np.where(d[k] > 0, hi, lo) - O[k]) / d[k]), far)
    step = min(eq.dR, eq.dZ) / 8
    x = far[:, None] * np.linspace(0, 1, int(np.max(far) / step) + 2)[None, 1:]

    def at(y):
        sh = (slice(None),) + (None,) * (y.ndim - 1)
        return f(O[0] + d[0][sh] * y, O[1] + d[1][sh] * y, grid=False)

    over = at(x) > val
    i = np.argmax(over, axis=1)
    ok = np.any(over, axis=1) & (i > 0)
    k = np.arange(len(theta))
    hi, lo = x[k, i], x[k, np.maximum(i - 1, 0)]
    for _ in range(45):
        mid = 0.5 * (lo + hi)
        up = at(mid) > val
        hi, lo = np.where(up, mid, hi), np.where(up, lo, mid)
    return np.where(ok, 0.5 * (lo + hi), np.nan), f


@PROP.sub(case, quick=160, thorough=1600, shards=(8, 8))
def flux_surface(cc, ctx):
    """Points found are on the surface, on the first crossing, equally spaced in angle"""
    from freegs import critical

    eq = make(cc)
    O, X = critical.find_critical(eq.R, eq.Z, eq.psi())
    kw = {"opoint": O, "xpoint": X, "psi": eq.psi()} if cc["given"] else {}
    n = cc["nt"]
    pts = np.array(critical.find_separatrix(eq, ntheta=n, psival=cc["val"], **kw))
    ctx.nontrivial()
    ctx.label(cc["how"])
    require(pts.shape == (n, 4), "shape {} for {} points", pts.shape, n)
    if X:
        close(pts[:, 2:], np.array([X[0][:2]] * n), "X-point", rtol=1e-9, atol=1e-9)
    r, z = pts[:, 0] - O[0][0], pts[:, 1] - O[0][1]
    theta = np.unwrap(np.arctan2(r, z))
    close(np.diff(theta), np.full(n - 1, 2 * np.pi / n), "angles between points", atol=1e-6)
    want, f = surface(eq, O[0], cc["val"], theta)
    length = np.hypot(np.ptp(eq.R), np.ptp(eq.Z))
    ok = np.isfinite(want)
    # Linear interpolation between 1000 points
    close(np.hypot(r, z)[ok], want[ok], "distance to the flux surface", atol=3e-3 * length / 10 + 1e-9)
    require(np.all(ok), "no crossing found by the reference")
    close(f(pts[:, 0], pts[:, 1], grid=False), np.full(n, cc["val"]), "normalised flux on the surface", atol=2e-3)


def _dense(eq, O, n=1440):
    t = np.linspace(0, 2 * np.pi, n, endpoint=False)
    d, f = surface(eq, O, 1.0, t)
    # Directions in which the ray goes through an X-point
    m = np.median(np.array([np.roll(d, k) for k in (-2, -1, 0, 1, 2)]), axis=0)
    ok = np.isfinite(d) & (np.abs(d - m) < 0.03 * np.max(m[np.isfinite(m)]))
    if np.sum(~ok) > 6:
        raise Skip("boundary jumps near an X-point")
    t, d = t[ok], d[ok]
    return O[0] + d * np.sin(t), O[1] + d * np.cos(t), d


@PROP.sub(case, quick=96, thorough=1000, shards=(8, 8))
def shape_measures(cc, ctx):
    from freegs import critical

    eq = make(cc)
    O, X = critical.find_critical(eq.R, eq.Z, eq.psi())
    n = cc["n"]
    ctx.label(cc["how"])
    sep = eq.separatrix(npoints=n)
    require(sep.shape == (n, 2), "shape {} for {} points", sep.shape, n)
    require(eq.separatrix().shape == (360, 2), "number of points by default")
    # Boundary is at normalised flux 1, where it is smooth
    R, Z, d = _dense(eq, O[0])
    w = 2 * max(eq.dR, eq.dZ)
    f = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0], (eq.psi() - O[0][2]) / (eq.psi_bndry - O[0][2]))
    away = np.ones(n, bool)
    for x in X:
        away &= np.hypot(sep[:, 0] - x[0], sep[:, 1] - x[1]) > w
    close(f(sep[away, 0], sep[away, 1], grid=False), np.ones(int(np.sum(away))), "normalised flux on the boundary", atol=3e-3)
    # Measures, as defined, of the dense boundary; they can differ by the distance between points
    a = 0.5 * np.ptp(R)
    size = max(np.ptp(R), np.ptp(Z))
    step = 2 * np.pi / n * np.max(d)
    if np.max(np.abs(np.diff(np.append(d, d[0])))) > 0.1 * a:
        raise Skip("boundary jumps near an X-point")
    ctx.nontrivial()
    i1, i2, i3, i4 = np.argmax(R), np.argmax(Z), np.argmin(R), np.argmin(Z)
    slope = np.max(np.abs(np.diff(np.append(d, d[0])))) / (2 * np.pi / len(d))
    # A maximum of a smooth curve moves by second order; at an X-point by first
    sharp = np.hypot(1.0, slope / np.max(d)) * step
    tol = sharp + 2e-3 * size / 3
    R0 = 0.5 * (R[i1] + R[i3])
    kw = {"npoints": n}
    geo = eq.geometricAxis(**kw)
    close(geo[0], R0, "R of the geometric axis", atol=tol)
    close(eq.Rgeometric(**kw), geo[0], "Rgeometric", rtol=1e-12)
    close(eq.Zgeometric(**kw), geo[1], "Zgeometric", rtol=1e-12, atol=1e-14)
    close(eq.minorRadius(**kw), a, "minor radius", atol=tol)
    close(eq.aspectRatio(**kw), R0 / a, "aspect ratio", rtol=2 * tol / a)
    close(eq.inverseAspectRatio(**kw), a / R0, "inverse aspect ratio", rtol=2 * tol / a)
    close(eq.aspectRatio(**kw) * eq.inverseAspectRatio(**kw), 1.0, "aspect ratio times its inverse", rtol=1e-12)
    close(eq.elongation(**kw), 0.5 * (Z[i2] - Z[i4]) / a, "elongation", atol=4 * tol / a)

    def flat(k, v):
        """How far along the boundary points are within tol of an extreme"""
        near = np.abs(v - v[k]) < tol
        return near

    zs = [Z[flat(i1, R)], Z[flat(i3, R)]]
    lo, hi = 0.5 * (zs[0].min() + zs[1].min()), 0.5 * (zs[0].max() + zs[1].max())
    require(lo - tol <= geo[1] <= hi + tol, "Z of the geometric axis {} not in {} - {}", float(geo[1]), float(lo), float(hi))
    # Given z0, all of these follow from the extreme points
    z0, a2 = geo[1], eq.minorRadius(**kw)
    close(eq.elongationUpper(**kw), (Z[i2] - z0) / a, "upper elongation", atol=4 * tol / a)
    close(eq.elongationLower(**kw), (z0 - Z[i4]) / a, "lower elongation", atol=4 * tol / a)
    close(0.5 * (eq.elongationUpper(**kw) + eq.elongationLower(**kw)), eq.elongation(**kw), "mean of upper and lower elongation", rtol=1e-9)
    for name, k in (("triangularityUpper", i2), ("triangularityLower", i4)):
        near = flat(k, Z)
        # only the extreme the maximum is found at
        lo, hi = (R0 - R[near].max()) / a, (R0 - R[near].min()) / a
        got = getattr(eq, name)(**kw)
        require(lo - 4 * tol / a <= got <= hi + 4 * tol / a, "{} {} not in {} - {}", name, float(got), float(lo), float(hi))
    close(eq.triangularity(**kw), 0.5 * (eq.triangularityUpper(**kw) + eq.triangularityLower(**kw)), "triangularity", rtol=1e-12, atol=1e-14)
    sh = eq.shafranovShift(**kw)
    close(sh, [O[0][0] - geo[0], O[0][1] - geo[1]], "Shafranov shift", atol=1e-9 * size)
    V = eq.plasmaVolume()
    close(eq.effectiveElongation(**kw), V / (2 * np.pi * geo[0] * np.pi * a2 ** 2), "effective elongation", rtol=1e-9)
    # Volume: of the region inside the boundary
    dR, dZ = eq.dR, eq.dZ
    exact = abs(np.pi * np.sum(0.5 * (R * np.roll(Z, -1) - np.roll(R, -1) * Z) * 2 / 3 * (R + np.roll(R, -1))))
    close(V, exact, "plasma volume", rtol=1.5 * (dR + dZ) * 4 / size + 0.01)


@PROP.sub(case, quick=160, thorough=1600, shards=(8, 8))
def midplane(cc, ctx):
    """Inner and outer radius at a height, to the accuracy of linear interpolation in the nearest row"""
    from freegs import critical

    eq = make(cc)
    O, X = critical.find_critical(eq.R, eq.Z, eq.psi())
    h = O[0][1] + (cc["val"] - 0.5) * 0.5 * eq.minorRadius()
    a, b = eq.innerOuterSeparatrix(h)
    j = int(np.argmin(np.abs(eq.Z[0] - h)))
    zrow = eq.Z[0, j]
    f = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0], (eq.psi() - O[0][2]) / (eq.psi_bndry - O[0][2]))

    def crossing(direction, far):
        x = np.linspace(O[0][0], far, 4000)
        v = f(x, np.full(x.shape, zrow), grid=False)
        if v[0] > 0.9:
            raise Skip("axis isn't inside at this height")
        over = np.argwhere(v > 1.0)
        return x[int(over[0][0])] if len(over) else None

    inner, outer = crossing(-1, eq.Rmin), crossing(1, eq.Rmax)
    if inner is None or outer is None:
        raise Skip("no crossing")
    ctx.nontrivial()
    ctx.label(cc["how"])
    close(a, inner, "inner radius", atol=0.5 * eq.dR)
    close(b, outer, "outer radius", atol=0.5 * eq.dR)
    v = f([a, b], [zrow, zrow], grid=False)
    close(v, [1.0, 1.0], "normalised flux there", atol=0.06)
    psi = eq.psi()
    # Both ways of getting there
    if abs(zrow) < 0.5 * eq.dZ:
        close(eq.innerOuterSeparatrix(), [a, b], "at Z=0 by default", rtol=1e-12)


@st.composite
def wall_case(draw):
    return {"c": draw(plasma.analytic(sizes=(33,))), "f": draw(st.one_of(num(1.12, 2.5, 2), num(0.3, 0.85, 2))), "shift": draw(num(0.0, 0.6, 2)),
            "turn": draw(num(0, 1, 2)), "n": draw(st.integers(3, 40))}


@PROP.sub(wall_case, quick=120, thorough=1000, shards=(8, 8))
def touches_wall(cc, ctx):
    """intersectsWall: whether the boundary crosses the wall"""
    import freegs

    c = cc["c"]
    eq = plasma.build(c)
    plasma.diverted(eq)
    sep = eq.separatrix()
    O = eq.magneticAxis()
    rad = np.hypot(sep[:, 0] - O[0], sep[:, 1] - O[1])
    t = 2 * np.pi * (np.arange(cc["n"]) + cc["turn"]) / cc["n"]
    rw = cc["f"] * np.max(rad)
    cx = O[0] + cc["shift"] * np.max(rad)
    # Polygon between circles of these radii
    inner = rw * np.cos(np.pi / cc["n"])
    R, Z = cx + rw * np.cos(t), O[1] + rw * np.sin(t)
    eq.tokamak.wall = freegs.machine.Wall(list(map(float, R)), list(map(float, Z)))
    dist = np.hypot(sep[:, 0] - cx, sep[:, 1] - O[1])
    got = eq.intersectsWall()
    # Sure answers only
    if np.max(dist) < 0.98 * inner:
        ctx.label("inside")
        require(not got, "boundary inside of the wall, but said to touch it")
    elif np.max(dist) > 1.02 * rw and np.min(dist) < 0.98 * inner:
        ctx.label("crosses")
        require(got, "boundary crosses the wall, but said not to")
    else:
        raise Skip("close")
    ctx.nontrivial()
