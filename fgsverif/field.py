"""Analytic flux functions with known critical points.

A flux function is a list of terms:
  ["g", a, r0, z0, sr, sz]   a * exp(-((R-r0)/sr)^2 - ((Z-z0)/sz)^2)
  ["p", c, r0, z0, k, l]     c * (R-r0)^k (Z-z0)^l
"""
import numpy as np


def value(terms, R, Z, dr=0, dz=0):
    """The function, or its derivatives (up to second in each)"""
    R = np.asarray(R, float)
    Z = np.asarray(Z, float)
    f = np.zeros(np.broadcast(R, Z).shape)
    for t in terms:
        if t[0] == "g":
            f = f + t[1] * _gauss(R, t[2], t[4], dr) * _gauss(Z, t[3], t[5], dz)
        else:
            f = f + t[1] * _power(R, t[2], t[4], dr) * _power(Z, t[3], t[5], dz)
    return f


def _gauss(x, x0, s, n):
    u = (x - x0) / s
    e = np.exp(-u * u)
    if n == 0:
        return e
    if n == 1:
        return -2 * u / s * e
    return (4 * u * u - 2) / (s * s) * e


def _power(x, x0, k, n):
    c = 1.0
    for i in range(n):
        c *= k - i
    if c == 0:
        return np.zeros(x.shape)
    return c * (x - x0) ** (k - n)


def gradient(terms, R, Z):
    return value(terms, R, Z, 1, 0), value(terms, R, Z, 0, 1)


def hessian(terms, R, Z):
    return np.array([[float(value(terms, R, Z, 2, 0)), float(value(terms, R, Z, 1, 1))],
                     [float(value(terms, R, Z, 1, 1)), float(value(terms, R, Z, 0, 2))]])


def critical_points(terms, Rmin, Rmax, Zmin, Zmax, n=121):
    """All the critical points in a rectangle: [(R, Z, psi, hessian)]"""
    r = np.linspace(Rmin, Rmax, n)
    z = np.linspace(Zmin, Zmax, n)
    R, Z = np.meshgrid(r, z, indexing="ij")
    gr, gz = gradient(terms, R, Z)

    def cells(g):
        c = np.stack([g[:-1, :-1], g[1:, :-1], g[:-1, 1:], g[1:, 1:]])
        return (c.min(axis=0) <= 0) & (c.max(axis=0) >= 0)

    starts = [(0.5 * (r[i] + r[i + 1]), 0.5 * (z[j] + z[j + 1])) for i, j in np.argwhere(cells(gr) & cells(gz))]
    g2 = gr ** 2 + gz ** 2
    p = np.pad(g2, 1, constant_values=np.inf)
    near = np.min([p[1 + a: n + 1 + a, 1 + b: n + 1 + b] for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0)], axis=0)
    starts += [(r[i], z[j]) for i, j in np.argwhere(g2 <= near)]
    L = max(Rmax - Rmin, Zmax - Zmin)
    found = []
    for x, y in starts:
        for _ in range(60):
            g = np.array([float(v) for v in gradient(terms, x, y)])
            H = hessian(terms, x, y)
            try:
                d = np.linalg.solve(H, g)
            except np.linalg.LinAlgError:
                break
            s = np.hypot(*d)
            if s > 0.05 * L:
                d *= 0.05 * L / s
            x, y = x - d[0], y - d[1]
            if not (Rmin - L < x < Rmax + L and Zmin - L < y < Zmax + L):
                break
            if s < 1e-12 * L:
                break
        else:
            continue
        if not (Rmin <= x <= Rmax and Zmin <= y <= Zmax):
            continue
        g = np.hypot(*[float(v) for v in gradient(terms, x, y)])
        if g > 1e-9 * (1 + abs(float(value(terms, x, y)))):
            continue
        if any(np.hypot(x - q[0], y - q[1]) < 1e-6 * L for q in found):
            continue
        found.append((x, y, float(value(terms, x, y)), hessian(terms, x, y)))
    return found
