"""C28: field-line tracing"""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from .. import plasma, ref
from ..gen import num, star_polygon
from ..runner import Property, Skip
from ..util import close, finite, require
from . import c17

PROP = Property(
    "C28",
    "diverted and limited equilibria of known flux with either sign of plasma current and toroidal field; starting points in the core and outside as scalars, lists and 2D arrays, 0.1-8 toroidal turns in even or uneven steps, both directions, "
    "with the domain or any simple polygon as wall (concave, open or closed, either orientation); non-trivial = more than one line or a wall",
    ["flux along a line to 2e-4 of the range, positions to 1e-3 of the plasma size", "lines must end within 6 cm of the wall they reach"],
)


@st.composite
def line_case(draw):
    cc = draw(c17.case())
    cc["c"]["scale"], cc["c"]["nx"], cc["c"]["ny"] = 1.0, 33, 33
    n = draw(st.integers(1, 4))
    cc["start"] = [[draw(num(0.05, 0.9, 2)), draw(num(0, 6.2, 1))] for _ in range(n)]
    cc["shape"] = draw(st.sampled_from(["flat", "flat", "2d", "scalar"]))
    cc["turns"] = draw(num(0.1, 5, 2))
    cc["steps"] = draw(st.integers(2, 12))
    cc["uneven"] = draw(st.booleans())
    cc["backward"] = draw(st.booleans())
    return cc


def reference(eq, R, Z, angles, backward):
    s = -1.0 if backward else 1.0

    def f(phi, y):
        br, bz, bt = float(eq.Br(y[0], y[1])), float(eq.Bz(y[0], y[1])), float(eq.Btor(y[0], y[1]))
        k = y[0] / bt
        return [s * k * br, s * k * bz, abs(k) * math.sqrt(br * br + bz * bz + bt * bt)]

    return solve_ivp(f, (0, angles[-1]), [R, Z, 0.0], t_eval=angles, rtol=1e-7, atol=1e-8).y


@PROP.sub(line_case, quick=70, thorough=800, shards=(8, 8))
def lines(cc, ctx):
    from freegs import critical, fieldtracer

    eq = c17.setup(cc)
    eq.tokamak.wall = None
    O, X = critical.find_critical(eq.R, eq.Z, eq.psi())
    size = math.sqrt(np.sum(eq.mask) * eq.dR * eq.dZ / math.pi)
    R = np.array([O[0][0] + size * a * math.cos(t) for a, t in cc["start"]])
    Z = np.array([O[0][1] + size * a * math.sin(t) for a, t in cc["start"]])
    x = (eq.psiRZ(R, Z) - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    if np.any(x > 0.9) or np.any(np.hypot(R - O[0][0], Z - O[0][1]) < 0.02):
        raise Skip("start too close to the separatrix or the axis")
    form = cc["shape"]
    if form == "scalar":
        R, Z = R[:1], Z[:1]
        R0, Z0 = float(R[0]), float(Z[0])
    elif form == "2d" and len(R) > 1:
        k = len(R) // 2 * 2
        R, Z = R[:k], Z[:k]
        R0, Z0 = R.reshape((2, -1)), Z.reshape((2, -1))
    else:
        R0, Z0 = (list(R), list(Z)) if cc["steps"] % 2 else (R, Z)
    t = np.linspace(0, 1, cc["steps"] + 1)
    angles = 2 * np.pi * cc["turns"] * (t ** 2 if cc["uneven"] else t)
    ctx.nontrivial(len(R) > 1)
    ctx.label(form)
    psi0 = eq.psi()
    ft = fieldtracer.FieldTracer(eq)
    out = ft.follow(R0, Z0, angles, backward=cc["backward"])
    shape = angles.shape + np.shape(R0) + (3,)
    require(np.shape(out) == shape, "result has shape {} for starting points {} and {} angles", np.shape(out), np.shape(R0), len(angles))
    finite(out, "field lines")
    lines = out.reshape((len(angles), -1, 3))
    span = abs(eq.psi_bndry - eq.psi_axis)
    for i in range(len(R)):
        L = lines[:, i, :]
        close(L[0], np.array([R[i], Z[i], 0.0]), "start of the line", rtol=1e-12, atol=1e-12)
        close(eq.psiRZ(L[:, 0], L[:, 1]), float(eq.psiRZ(R[i], Z[i])) + 0 * angles, "flux along the line from ({}, {})".format(R[i], Z[i]), atol=2e-4 * span)
        require(np.all(np.diff(L[:, 2]) > 0), "length of the line isn't increasing: {}", L[:, 2])
        y = reference(eq, R[i], Z[i], angles, cc["backward"])
        close(L[:, :2], y[:2].T, "line from ({}, {})".format(R[i], Z[i]), atol=1e-3 * size * (1 + cc["turns"] / 5))
        close(L[:, 2], y[2], "length of the line", rtol=2e-4, atol=1e-9)
    # There and back
    back = ft.follow(lines[-1, :, 0], lines[-1, :, 1], np.array([0.0, angles[-1]]), backward=not cc["backward"])[-1]
    close(back[:, :2], np.column_stack((R, Z)), "line followed back", atol=1e-3 * size * (1 + cc["turns"] / 5))
    close(back[:, 2], lines[-1, :, 2], "length there and back", rtol=2e-4)
    require(np.array_equal(eq.psi(), psi0), "tracing changed the equilibrium")
    # q turns around the torus are one around the axis
    q = abs(float(eq.q(float(x[0])))) if 0.02 < x[0] < 0.85 else None
    if q is not None and q < 12:
        end = ft.follow([R[0]], [Z[0]], np.array([0.0, 2 * np.pi * q]), backward=cc["backward"])[-1, 0]
        close(end[:2], np.array([R[0], Z[0]]), "line after q = {} turns".format(q), atol=0.1 * size)
        half = ft.follow([R[0]], [Z[0]], np.array([0.0, np.pi * q]), backward=cc["backward"])[-1, 0]
        require(math.hypot(half[0] - R[0], half[1] - Z[0]) > 0.3 * math.hypot(R[0] - O[0][0], Z[0] - O[0][1]), "line is back after half a poloidal turn")


@st.composite
def wall_case(draw):
    c = draw(plasma.analytic(sizes=(17,)))
    return {"c": c, "wall": draw(st.one_of(
        star_polygon(min_n=3, max_n=9, cx=num(0.8, 1.5, 2), cz=num(-0.5, 0.5, 2), scale=num(0.3, 0.9, 2), rmin=0.3),
        st.sampled_from([[[0.5, -0.5], [1.5, -0.5], [2.0, 0.0], [1.5, 0.5], [0.5, 0.5]], [[0.4, -0.8], [1.6, -0.8], [1.6, 0.8], [0.4, 0.8], [0.4, 0.4], [1.0, 0.4], [1.0, -0.4], [0.4, -0.4]],
                         [[0.5, -1.0], [1.5, -1.0], [1.5, 1.0], [0.5, 1.0]]]))),
        "closed": draw(st.booleans()), "flip": draw(st.booleans()), "form": draw(st.sampled_from(["list", "array"])),
        "pts": draw(st.lists(st.tuples(num(0.1, 2.2, 2), num(-1.2, 1.2, 2)), min_size=5, max_size=40)),
        "fv": draw(st.sampled_from([0.5, -0.5, 2.0])), "start": [draw(num(0.1, 0.9, 2)), draw(num(0.1, 0.9, 2))], "back": draw(st.booleans())}


def with_wall(cc):
    from freegs import machine as m

    w = [list(p) for p in cc["wall"]]
    if cc["flip"]:
        w = w[::-1]
    if cc["closed"]:
        w = w + [w[0]]
    r, z = [p[0] for p in w], [p[1] for p in w]
    if cc["form"] == "array":
        r, z = np.array(r), np.array(z)
    wall = m.Wall(r, z)
    return wall, w


@PROP.sub(wall_case, quick=250, thorough=4000)
def inside_wall(cc, ctx):
    from freegs import fieldtracer

    wall, w = with_wall(cc)
    eq = plasma.build(cc["c"], wall=wall)
    ft = fieldtracer.FieldTracer(eq)
    poly = cc["wall"]
    # Points level with the corners as well
    pts = list(cc["pts"]) + [(x, p[1]) for p in poly[:3] for x in (0.2, 1.05, 2.1)] + [(p[0] + k * (p[0] + 1), p[1] + k * (p[1] + 1)) for p in poly[:3] for k in (0.3, -0.2)]
    pts = [p for p in pts if ref.seg_dist(poly, p[0], p[1]) > 1e-6]
    if not pts:
        raise Skip("points on the wall")
    R, Z = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    want = np.array([1.0 if ref.point_in_poly(poly, *p) else 0.0 for p in pts])
    ctx.nontrivial(0 < want.sum() < len(want))
    ev = np.ones(len(pts))
    ft.updateEvolving(R, Z, ev)
    for p, a, b in zip(pts, ev, want):
        require(a == b, "line at {} is {}, but the point is {} the wall", p, "followed" if a else "stopped", "inside" if b else "outside")
    # Lines which have been stopped aren't started again
    ev = np.zeros(len(pts))
    ft.updateEvolving(R, Z, ev)
    require(not np.any(ev), "line started again")
    eq.tokamak.wall = None
    ft = fieldtracer.FieldTracer(eq)
    ev = np.ones(len(pts))
    ft.updateEvolving(R, Z, ev)
    d = np.minimum(np.minimum(R - eq.Rmin, eq.Rmax - R), np.minimum(Z - eq.Zmin, eq.Zmax - Z))
    for p, dist, a in zip(pts, d, ev):
        if dist > 0.03:
            require(a == 1, "line stopped at {}, {} inside the domain", p, dist)
        elif dist < 0:
            require(a == 0, "line not stopped at {}, outside the domain", p)


@PROP.sub(wall_case, quick=60, thorough=600, shards=(4, 8))
def stops(cc, ctx):
    """Lines end where they meet the wall"""
    from freegs import fieldtracer

    c = cc["c"]
    c["scale"], c["Z0"], c["nx"], c["ny"] = 1.0, 0.0, 33, 33
    walled = cc["form"] == "list"
    wall, w = with_wall(cc)
    eq = plasma.build(c, wall=wall if walled else None)
    if getattr(eq, "psi_bndry", None) is None:
        raise Skip("no boundary")
    eq._profiles = type("P", (), {"fvac": lambda self: cc["fv"], "fpol": lambda self, x: cc["fv"] + 0 * x, "pressure": lambda self, x: 0 * x})()
    lo, hi = (np.array(cc["wall"]).min(axis=0), np.array(cc["wall"]).max(axis=0)) if walled else (np.array([eq.Rmin + 0.01, eq.Zmin + 0.01]), np.array([eq.Rmax - 0.01, eq.Zmax - 0.01]))
    outline = cc["wall"] if walled else [[lo[0], lo[1]], [hi[0], lo[1]], [hi[0], hi[1]], [lo[0], hi[1]]]
    R, Z = lo + np.array(cc["start"]) * (hi - lo)
    grid = [[eq.Rmin, eq.Zmin], [eq.Rmax, eq.Zmin], [eq.Rmax, eq.Zmax], [eq.Rmin, eq.Zmax]]
    if not ref.point_in_poly(outline, R, Z) or ref.seg_dist(outline, R, Z) < 0.1 or not all(ref.point_in_poly(grid, *p) for p in outline):
        raise Skip("start at the wall, or wall outside the domain")
    angles = np.linspace(0, 2 * np.pi, 21)
    s = -1.0 if cc["back"] else 1.0

    def f(phi, y):
        br, bz = float(eq.Br(y[0], y[1])), float(eq.Bz(y[0], y[1]))
        k = y[0] ** 2 / cc["fv"]
        return [s * k * br, s * k * bz]

    def gone(phi, y):
        return (1 if ref.point_in_poly(outline, *y) else -1) * ref.seg_dist(outline, *y)

    gone.terminal = True
    sol = solve_ivp(f, (0, angles[-1]), [R, Z], rtol=1e-7, atol=1e-8, events=gone, max_step=0.05)
    y = sol.y
    away = [ref.seg_dist(outline, *p) for p in y.T]
    hit = sol.status == 1
    if not hit and min(away) < 0.05:
        raise Skip("passes close to the wall")
    if hit:
        # Not at a glancing angle
        v = np.array(f(0, y[:, -1]))
        near = [a for a in away[:-1]]
        step = np.hypot(*(y[:, -1] - y[:, -2]))
        if min(near[: max(1, len(near) - 8)]) < 0.05 or abs(gone(0, y[:, -1] + v * 0.02 / np.hypot(*v))) < 0.01:
            raise Skip("glancing")
    ctx.nontrivial()
    ctx.label("hits" if hit else "stays")
    out = fieldtracer.FieldTracer(eq).follow([R], [Z], angles, backward=cc["back"])[:, 0, :]
    k = int(np.searchsorted(angles, sol.t[-1])) if hit else len(angles)
    fixed = np.all(out[1:] == out[:-1], axis=1)
    if hit:
        end = y[:, -1]
        d = math.hypot(out[-1, 0] - end[0], out[-1, 1] - end[1])
        require(d < 0.06, "line ends at {}, but meets the wall at {}", out[-1], end)
        close(out[k + 1:, 2], out[-1, 2] + 0 * out[k + 1:, 2], "length after the end of the line", rtol=1e-6)
    else:
        close(out[-1, :2], y[:, -1], "end of a line which meets no wall", atol=2e-2)
        require(np.all(np.diff(out[:, 2]) > 0), "line stopped away from the wall")


@PROP.sub(c17.case, quick=16, thorough=160, shards=(4, 8))
def outboard_midplane(cc, ctx):
    """traceFieldLines starts outside the separatrix"""
    from freegs import critical, fieldtracer

    cc["c"]["scale"], cc["c"]["nx"], cc["c"]["ny"] = 1.0, 33, 33
    eq = c17.setup(cc)
    eq.tokamak.wall = None
    O, X = critical.find_critical(eq.R, eq.Z, eq.psi())
    r0, z0 = O[0][0], O[0][1]
    r = np.linspace(r0, eq.Rmax, 4000)
    x = (eq.psiRZ(r, z0 + 0 * r) - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    k = int(np.argmax(x > 1))
    if not k or r[k] + 0.09 > eq.Rmax:
        raise Skip("no room outside the plasma")
    edge = r[k]
    n, width, npts = 1 + cc["steps"] if "steps" in cc else 3, 0.06, 12
    ctx.nontrivial()
    fw, bw = fieldtracer.traceFieldLines(eq, solwidth=width, nlines=n, nturns=2, npoints=npts)
    for L in (fw, bw):
        require(L.R.shape == L.Z.shape == L.length.shape == (npts, n), "lines have shape {}", L.R.shape)
        close(L.R[0], edge + width * np.arange(1, n + 1) / n, "starting radii", atol=0.02)
        close(np.diff(L.R[0]), width / n + np.zeros(n - 1), "spacing", rtol=1e-6, atol=1e-9)
        close(L.Z[0], z0 + np.zeros(n), "starting heights", atol=1e-6)
        close(L.length[0], np.zeros(n), "starting lengths", atol=0)
        require(np.all(np.diff(L.length, axis=0) >= 0), "lengths decrease")
    ft = fieldtracer.FieldTracer(eq)
    angles = np.linspace(0, 4 * np.pi, npts)
    for L, back in ((fw, False), (bw, True)):
        other = ft.follow(L.R[0], L.Z[0], angles, backward=back)
        close(np.stack([L.R, L.Z, L.length], axis=-1), other, "lines", rtol=1e-4, atol=2e-3)
    # The two directions differ
    move = np.hypot(fw.R[2] - bw.R[2], fw.Z[2] - bw.Z[2])
    require(np.max(move) > 1e-4, "forward and backward are the same")
