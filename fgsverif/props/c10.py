"""C10: O-points and X-points"""
import numpy as np
from hypothesis import strategies as st

from .. import field
from ..gen import num, signed
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C10",
    "analytic flux functions (1-4 Gaussians of either sign plus linear, saddle and cubic terms) on grids of 25-65 points per side, "
    "any position and aspect ratio; the true critical points are found by Newton's method on the analytic function from a fine grid; "
    "non-trivial = at least one O-point and one X-point in the domain",
    ["points are expected to be found when they are resolved: more than 3.5 cells from the edges, length scale of at least 5 cells, "
     "no other critical point within 6 cells, the field at a grid point next to it smaller than at all those two cells away, and a field gradient large compared with the 1 mT which counts as zero"],
)


@st.composite
def flux(draw, nmin=25, nmax=65):
    Rmin = draw(num(0.2, 2, 2))
    L = draw(num(0.8, 2, 2))
    H = draw(num(0.8, 3, 2))
    Zmin = draw(st.one_of(st.just(round(-H / 2, 6)), num(-2, 1, 2)))
    terms = []
    s = draw(st.sampled_from([1, -1]))

    def place(lo, hi):
        return Rmin + draw(num(lo, hi, 3)) * L, Zmin + draw(num(lo, hi, 3)) * H

    r, z = place(0.35, 0.65)
    if draw(st.integers(0, 3)) == 0:
        # Exactly on, or half way between, grid lines
        r, z = Rmin + L / 2, Zmin + H / 2
    if draw(st.integers(0, 3)) == 0:
        # Several axes in a row
        n = draw(st.integers(2, 3))
        a, b = draw(num(-0.8, 0.8, 2)), draw(num(-0.8, 0.8, 2))
        m = max(abs(a), abs(b), 0.1)
        mid = draw(st.sampled_from([0, (n - 1) / 2, 0.5]))
        for i in range(n):
            f = (i - mid) * draw(num(0.7, 1.0, 2)) / (n - 1)
            w = draw(num(0.55, 0.75, 2)) / n
            terms.append(["g", s * draw(num(0.6, 1.5, 2)), r + L * f * a / m, z + H * f * b / m, L * w, H * w])
        if draw(st.booleans()):
            terms.append(["p", draw(signed(0.05, 0.5, 2)) / L, Rmin + L / 2, Zmin + H / 2, 1, 0])
        return {"Rmin": Rmin, "L": L, "Zmin": Zmin, "H": H, "terms": terms,
                "nx": draw(st.integers(nmin, nmax)), "ny": draw(st.integers(nmin, nmax))}
    terms.append(["g", s * draw(num(0.3, 2, 2)), r, z, L * draw(num(0.25, 0.5, 2)), H * draw(num(0.25, 0.5, 2))])
    for _ in range(draw(st.integers(0, 3))):
        r, z = place(-0.2, 1.2)
        terms.append(["g", draw(signed(0.2, 2, 2)), r, z, L * draw(num(0.2, 0.5, 2)), H * draw(num(0.2, 0.5, 2))])
    for k, l in ((1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (3, 0), (0, 3)):
        if draw(st.integers(0, 2)) == 0:
            terms.append(["p", draw(signed(0.05, 1.5, 2)) / L ** k / H ** l, Rmin + L / 2, Zmin + H / 2, k, l])
    return {"Rmin": Rmin, "L": L, "Zmin": Zmin, "H": H, "terms": terms,
            "nx": draw(st.integers(nmin, nmax)), "ny": draw(st.integers(nmin, nmax))}


@st.composite
def chain(draw):
    """Three axes in a row, the weakest at the middle of the domain: only one X-point is next to it"""
    Rmin = draw(num(0.2, 2, 2))
    L, H = draw(num(1.5, 2, 2)), draw(num(1.5, 3, 2))
    s = draw(st.sampled_from([1, -1]))
    up = draw(st.sampled_from([1, -1]))
    tilt = draw(num(-0.15, 0.15, 2))
    terms = []
    for i, f in enumerate((0.0, 0.21, 0.42)):
        a = draw(num(0.5, 0.9, 2)) if i == 0 else draw(num(1.0, 1.6, 2))
        w = draw(num(0.09, 0.115, 3))
        terms.append(["g", s * a, Rmin + L / 2 + tilt * f * L, H * up * f, draw(num(0.15, 0.3, 2)) * L, w * H])
    return {"Rmin": Rmin, "L": L, "Zmin": -H / 2, "H": H, "terms": terms,
            "nx": draw(st.integers(25, 65)), "ny": draw(st.integers(45, 85))}


def _grid(c):
    return np.meshgrid(np.linspace(c["Rmin"], c["Rmin"] + c["L"], c["nx"]),
                       np.linspace(c["Zmin"], c["Zmin"] + c["H"], c["ny"]), indexing="ij")


class Truth:
    def __init__(self, c):
        self.c = c
        t = c["terms"]
        self.R, self.Z = _grid(c)
        self.psi = field.value(t, self.R, self.Z)
        self.dR, self.dZ = c["L"] / (c["nx"] - 1), c["H"] / (c["ny"] - 1)
        self.points = []
        for r, z, p, H in field.critical_points(t, c["Rmin"], c["Rmin"] + c["L"], c["Zmin"], c["Zmin"] + c["H"]):
            # In units of cells
            S = np.diag([self.dR, self.dZ])
            lam = np.linalg.eigvalsh(H)
            lam_c = np.abs(np.linalg.eigvalsh(S @ H @ S))
            cell = np.array([(r - c["Rmin"]) / self.dR, (z - c["Zmin"]) / self.dZ])
            edge = min(cell[0], c["nx"] - 1 - cell[0], cell[1], c["ny"] - 1 - cell[1])
            self.points.append(dict(
                R=r, Z=z, psi=p, cell=cell, edge=edge,
                kind="O" if lam[0] * lam[1] > 0 else "X",
                # How far away the field reaches 1 mT
                blur=1e-3 * r / min(abs(lam)),
                lam_c=lam_c,
            ))
        for p in self.points:
            d = [max(abs(p["cell"] - q["cell"])) for q in self.points if q is not p]
            p["apart"] = min(d) if d else 1e9
        self.spline_error()
        # Scale of variation over the whole domain
        span = np.ptp(self.psi)
        for p in self.points:
            p["clear"] = (
                p["apart"] > 6 and p["blur"] < 0.3 * min(self.dR, self.dZ)
                and _tol(p, self) < 0.5 * min(self.dR, self.dZ)
                and max(p["lam_c"]) < 0.05 * span and max(p["lam_c"]) < 6 * min(p["lam_c"])
            )

    def spline_error(self):
        from scipy.interpolate import RectBivariateSpline

        t = self.c["terms"]
        f = RectBivariateSpline(self.R[:, 0], self.Z[0], self.psi)
        r = np.linspace(self.R[0, 0], self.R[-1, 0], 3 * self.c["nx"])
        z = np.linspace(self.Z[0, 0], self.Z[0, -1], 3 * self.c["ny"])
        rr, zz = np.meshgrid(r, z, indexing="ij")
        gr, gz = field.gradient(t, rr, zz)
        self._r, self._z = r, z
        self._ep = np.abs(f(r, z) - field.value(t, rr, zz))
        self._eb = np.hypot(f(r, z, dx=1) - gr, f(r, z, dy=1) - gz) / rr
        self.err_psi = np.max(self._ep)
        self.err_b = np.max(self._eb)

    def visible(self, p):
        """The field at one of the grid points next to it is less than at all those further away"""
        gr, gz = field.gradient(self.c["terms"], self.R, self.Z)
        b = np.hypot(gr, gz) / self.R
        i, j = np.rint(p["cell"]).astype(int)
        block = b[i - 2: i + 3, j - 2: j + 3].copy()
        inner = np.min(block[1:-1, 1:-1])
        block[1:-1, 1:-1] = np.inf
        return inner < 0.9 * np.min(block)

    def local(self, R, Z):
        """Interpolation errors near a point: flux, field"""
        i = np.abs(self._r - R) < 2 * self.dR
        j = np.abs(self._z - Z) < 2 * self.dZ
        return np.max(self._ep[np.ix_(i, j)]), np.max(self._eb[np.ix_(i, j)])


def _distance(p, q):
    return np.hypot(p["R"] - q[0], p["Z"] - q[1])


def _tol(p, T):
    return 2 * p["blur"] * (1 + 1e3 * T.local(p["R"], p["Z"])[1]) + 1e-3 * max(T.dR, T.dZ)


@PROP.sub(flux, quick=600, thorough=3000, shards=(8, 8))
def points_are_critical_points(c, ctx):
    from freegs import critical

    T = Truth(c)
    keep = T.psi.copy()
    O, X = critical.find_critical(T.R, T.Z, T.psi, discard_xpoints=False)
    require(np.array_equal(keep, T.psi), "flux array modified")
    ctx.nontrivial(any(p["clear"] and p["kind"] == "O" for p in T.points) and any(p["clear"] and p["kind"] == "X" for p in T.points))
    for kind, found in (("O", O), ("X", X)):
        for q in found:
            require(len(q) == 3, "point {}", q)
            what = "{}-point at {:.5g}, {:.5g}".format(kind, float(q[0]), float(q[1]))
            require(c["Rmin"] - 3 * T.dR <= q[0] <= c["Rmin"] + c["L"] + 3 * T.dR and
                    c["Zmin"] - 3 * T.dZ <= q[1] <= c["Zmin"] + c["H"] + 3 * T.dZ, "{} is outside the domain", what)
            if not (c["Rmin"] <= q[0] <= c["Rmin"] + c["L"] and c["Zmin"] <= q[1] <= c["Zmin"] + c["H"]):
                continue
            gr, gz = field.gradient(c["terms"], q[0], q[1])
            err_psi, err_b = T.local(q[0], q[1])
            require(np.hypot(gr, gz) / q[0] < 1.02e-3 + 1.5 * err_b, "field at {} is {}", what, float(np.hypot(gr, gz) / q[0]))
            close(q[2], field.value(c["terms"], q[0], q[1]), "flux at " + what, atol=1.5 * err_psi + 1e-9)
            near = [p for p in T.points if p["clear"] and _distance(p, q) < _tol(p, T)]
            for p in near:
                require(p["kind"] == kind, "{} is of kind {}", what, p["kind"])
        for p in T.points:
            if p["clear"] and p["kind"] == kind and p["edge"] > 3.5 and T.visible(p):
                n = sum(_distance(p, q) < _tol(p, T) for q in found)
                require(n >= 1, "{}-point at {:.6g}, {:.6g} not found", kind, p["R"], p["Z"])
                require(n == 1 or _tol(p, T) > 1.5e-3, "{}-point at {:.6g}, {:.6g} found {} times", kind, p["R"], p["Z"], n)
                ctx.label("found " + kind)


@PROP.sub(lambda: st.one_of(flux(), flux(), chain()), quick=600, thorough=3000, shards=(8, 8))
def order_and_selection(c, ctx):
    """Primary O-point is nearest the middle; X-points are those connected to it by monotonic flux, nearest in flux first"""
    from freegs import critical

    T = Truth(c)
    O, allX = critical.find_critical(T.R, T.Z, T.psi, discard_xpoints=False)
    O2, X = critical.find_critical(T.R, T.Z, T.psi)
    require([tuple(map(float, q)) for q in O] == [tuple(map(float, q)) for q in O2], "O-points depend on discard_xpoints")
    if not O:
        require(len(X) == len(allX), "X-points without O-points")
        raise Skip("no O-point")
    mid = c["Rmin"] + c["L"] / 2, c["Zmin"] + c["H"] / 2
    d = [np.hypot(q[0] - mid[0], q[1] - mid[1]) for q in O]
    require(d[0] <= min(d) + 1e-12, "first O-point isn't the one nearest the middle: {}", [float(v) for v in d])
    for pts in (allX, X):
        s = [abs(q[2] - O[0][2]) for q in pts]
        require(s == sorted(s), "X-points aren't in order of flux difference to the axis: {}", [float(v) for v in s])
    require(set(tuple(map(float, q)) for q in X) <= set(tuple(map(float, q)) for q in allX), "X-points")
    ctx.nontrivial(len(allX) > 0)
    for q in allX:
        w = np.linspace(0, 1, 400)
        line = field.value(c["terms"], O[0][0] + w * (q[0] - O[0][0]), O[0][1] + w * (q[1] - O[0][1]))
        if q[2] < O[0][2]:
            line = -line
        # line should rise from the axis to the X-point
        rng = np.max(line) - line[0]
        low = (line[0] - np.min(line))
        over = (np.max(line) - line[-1])
        kept = any(q[0] == k[0] and q[1] == k[1] for k in X)
        slack = T.err_psi
        if low <= 1e-9 and over + 2 * slack < 5e-4 * (rng - 2 * slack) and rng > 20 * slack and np.all(np.diff(line) > -1e-12):
            require(kept, "X-point at {:.5g}, {:.5g} discarded, but the flux is monotonic", float(q[0]), float(q[1]))
            ctx.label("kept")
        far = np.hypot(q[0] - O[0][0], q[1] - O[0][1]) * w[np.argmin(line)] > 0.03
        if over - 2 * slack > 0.01 * (rng + 2 * slack) or (far and low > 0.05 * rng + 4 * slack):
            require(not kept, "X-point at {:.5g}, {:.5g} kept, but the flux isn't monotonic", float(q[0]), float(q[1]))
            ctx.label("discarded")


@st.composite
def relation_case(draw):
    return {"c": draw(flux()), "shift": draw(num(-3, 3, 2)), "const": draw(num(-5, 5, 1))}


@PROP.sub(relation_case, quick=300, thorough=1500, shards=(4, 8))
def sign_shift_and_mirror(rc, ctx):
    """Reversing the flux, adding a constant, shifting in Z and turning upside down"""
    from freegs import critical

    c = rc["c"]
    T = Truth(c)
    O, X = critical.find_critical(T.R, T.Z, T.psi)
    if not O:
        raise Skip("no O-point")
    want = [p for p in T.points if p["clear"] and p["edge"] > 3.5 and T.visible(p)]
    ctx.nontrivial(len(want) > 1)
    # Two O-points equally near the middle: a matter of rounding
    mid = c["Rmin"] + c["L"] / 2, c["Zmin"] + c["H"] / 2
    d = sorted(np.hypot(q[0] - mid[0], q[1] - mid[1]) for q in O)
    if len(d) > 1 and d[1] - d[0] < 1e-6:
        raise Skip("two axes")
    primary = [p for p in want if _distance(p, O[0]) < _tol(p, T)]
    if not primary:
        raise Skip("axis not resolved")
    axis = primary[0]

    for name, args, back in (
        ("reversed", (T.R, T.Z, -T.psi), lambda q: (q[0], q[1], -q[2])),
        ("plus constant", (T.R, T.Z, T.psi + rc["const"]), lambda q: (q[0], q[1], q[2] - rc["const"])),
        ("shifted", (T.R, T.Z + rc["shift"], T.psi), lambda q: (q[0], q[1] - rc["shift"], q[2])),
        ("upside down", (T.R, -T.Z[:, ::-1], T.psi[:, ::-1]), lambda q: (q[0], -q[1], q[2])),
    ):
        O2, X2 = critical.find_critical(*args)
        require(len(O2) > 0, "no O-point when {}", name)
        q = back(O2[0])
        require(_distance(axis, q) < 2 * _tol(axis, T), "axis when {}: {}", name, [float(v) for v in q])
        close(q[2], O[0][2], "flux on axis when " + name, atol=1e-9 + 2 * T.err_psi + 1e-3 * axis["blur"] * 4)
        for p in want:
            if p["kind"] == "X":
                a = any(_distance(p, x) < _tol(p, T) for x in X)
                b = any(_distance(p, back(x)) < 2 * _tol(p, T) for x in X2)
                if a and not b:
                    # kept only just?
                    w = np.linspace(0, 1, 400)
                    line = field.value(c["terms"], axis["R"] + w * (p["R"] - axis["R"]), axis["Z"] + w * (p["Z"] - axis["Z"]))
                    if np.all(np.diff(line) > 0) or np.all(np.diff(line) < 0):
                        require(False, "X-point at {:.5g}, {:.5g} lost when {}", p["R"], p["Z"], name)
