"""Independent reference computations (no freegs imports here)"""
import math

import numpy as np

MU0 = 4e-7 * math.pi


def _nphi(R, Rc, dz):
    """Number of points for the periodic trapezoid rule to converge to ~1e-15"""
    x = (R * R + Rc * Rc + dz * dz) / (2 * R * Rc)
    rate = math.acosh(max(x, 1 + 1e-16)) if x > 1 else 1e-8
    return int(min(max(64, 45.0 / max(rate, 1e-9)), 400000))


def greens(Rc, Zc, R, Z):
    """R*A_phi at (R,Z) for a unit current loop at (Rc,Zc), by direct integration of
    1/distance around the loop (scalar arguments)"""
    dz = Z - Zc
    n = _nphi(R, Rc, dz)
    phi = (np.arange(n) + 0.5) * (math.pi / n)
    # distance^2 written without cancellation
    d = np.sqrt((R - Rc) ** 2 + dz * dz + 4 * R * Rc * np.sin(phi / 2) ** 2)
    return MU0 * R * Rc / (2 * math.pi) * float(np.sum(np.cos(phi) / d)) * math.pi / n


def greens_B(Rc, Zc, R, Z):
    """(Br, Bz) of a unit current loop by the Biot-Savart law"""
    dz = Z - Zc
    n = _nphi(R, Rc, dz)
    phi = (np.arange(n) + 0.5) * (math.pi / n)
    d2 = (R - Rc) ** 2 + dz * dz + 4 * R * Rc * np.sin(phi / 2) ** 2
    d3 = d2 * np.sqrt(d2)
    f = MU0 * Rc / (2 * math.pi) * math.pi / n
    br = f * float(np.sum(dz * np.cos(phi) / d3))
    bz = f * float(np.sum((Rc - R * np.cos(phi)) / d3))
    return br, bz


def agm_KE(m):
    """Complete elliptic integrals by arithmetic-geometric mean (array input)"""
    m = np.asarray(m, dtype=float)
    a = np.ones_like(m)
    b = np.sqrt(1 - m)
    c = np.sqrt(m)
    s = 0.5 * c * c
    p = 1.0
    for _ in range(40):
        an = 0.5 * (a + b)
        c = 0.5 * (a - b)
        b = np.sqrt(a * b)
        a = an
        s = s + p * c * c
        p *= 2
        if np.max(np.abs(c)) < 1e-17:
            break
    K = np.pi / (2 * a)
    return K, K * (1 - s)


def greens_arr(Rc, Zc, R, Z):
    """As greens() but vectorised, through AGM elliptic integrals"""
    R = np.asarray(R, dtype=float)
    Z = np.asarray(Z, dtype=float)
    s2 = (R + Rc) ** 2 + (Z - Zc) ** 2
    m = 4 * R * Rc / s2
    K, E = agm_KE(m)
    return MU0 / (2 * np.pi) * np.sqrt(s2) * ((1 - m / 2) * K - E)


def greens_B_arr(Rc, Zc, R, Z):
    """Closed form loop field (array arguments)"""
    R = np.asarray(R, dtype=float)
    Z = np.asarray(Z, dtype=float)
    dz = Z - Zc
    s2 = (R + Rc) ** 2 + dz ** 2
    d2 = (R - Rc) ** 2 + dz ** 2
    K, E = agm_KE(4 * R * Rc / s2)
    f = MU0 / (2 * np.pi * np.sqrt(s2))
    bz = f * (K + (Rc ** 2 - R ** 2 - dz ** 2) / d2 * E)
    br = f * dz / R * (-K + (Rc ** 2 + R ** 2 + dz ** 2) / d2 * E)
    return br, bz


def fd_tol(Rc, Zc, R, Z, eps=1e-3):
    """Allowance for the library's central differences (step eps) of the flux,
    per unit current: |eps^2/6 d3psi|/R bounded by field scale * (eps/d)^2"""
    d = math.hypot(R - Rc, Z - Zc)
    scale = MU0 / (2 * math.pi * d) + MU0 / (2 * math.pi * max(R, 1e-3))
    return scale * (2.0 * (eps / d) ** 2 + 2.0 * (eps / R) ** 2) + 1e-9 * scale


# ----------------------------------------------------------------- polygons


def shoelace(poly):
    n = len(poly)
    return 0.5 * sum(
        poly[i][0] * poly[(i + 1) % n][1] - poly[(i + 1) % n][0] * poly[i][1]
        for i in range(n)
    )


def point_in_poly(poly, x, y):
    """Even-odd rule"""
    inside = False
    n = len(poly)
    for i in range(n):
        x0, y0 = poly[i]
        x1, y1 = poly[(i + 1) % n]
        if (y0 > y) != (y1 > y):
            if x < x0 + (y - y0) * (x1 - x0) / (y1 - y0):
                inside = not inside
    return inside


def winding(poly, x, y):
    """Points (arrays) inside polygon by even-odd rule"""
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    inside = np.zeros(np.broadcast(x, y).shape, bool)
    n = len(poly)
    for i in range(n):
        x0, y0 = poly[i]
        x1, y1 = poly[(i + 1) % n]
        cond = (y0 > y) != (y1 > y)
        if y1 != y0:
            xi = x0 + (y - y0) * (x1 - x0) / (y1 - y0)
            inside ^= cond & (x < xi)
    return inside


def seg_dist(poly, x, y, closed=True):
    """Distance of point from polyline"""
    best = math.inf
    n = len(poly)
    for i in range(n if closed else n - 1):
        x0, y0 = poly[i]
        x1, y1 = poly[(i + 1) % n]
        dx, dy = x1 - x0, y1 - y0
        L2 = dx * dx + dy * dy
        t = 0.0 if L2 == 0 else max(0.0, min(1.0, ((x - x0) * dx + (y - y0) * dy) / L2))
        best = min(best, math.hypot(x - x0 - t * dx, y - y0 - t * dy))
    return best


def poly_moment(poly, p, q):
    """Exact integral of x^p y^q over a simple polygon (signed by orientation),
    by Green's theorem with Gauss-Legendre along each edge"""
    npts = (p + q + 4) // 2 + 1
    t, w = np.polynomial.legendre.leggauss(npts)
    t = 0.5 * (t + 1)
    w = 0.5 * w
    total = 0.0
    n = len(poly)
    for i in range(n):
        x0, y0 = poly[i]
        x1, y1 = poly[(i + 1) % n]
        x = x0 + (x1 - x0) * t
        y = y0 + (y1 - y0) * t
        total += float(np.sum(w * x ** (p + 1) * y ** q)) / (p + 1) * (y1 - y0)
    return total
