"""C33: plots show what is there"""
import numpy as np
from hypothesis import strategies as st
from scipy import interpolate

from .. import coils, plasma
from ..gen import num
from ..runner import Property, Skip
from ..util import close, require
from . import c31

PROP = Property(
    "C33",
    "plots of every kind of coil, circuits and machines, of constraints, and of equilibria of known flux with walls and sensors, on axes which are given or not, and which aren't the current ones; "
    "the artists on the axes are compared with coils, filaments, wall, sensors, constraints, critical points, and each contour with the flux on its vertices; non-trivial = two coils or an equilibrium",
    ["colours and labels aren't compared", "a plasma without X-points needs no line for its boundary"],
)


class Shown:
    """Counts plt.show"""

    def __enter__(self):
        import matplotlib
        import matplotlib.pyplot as plt

        matplotlib.use("Agg")
        plt.close("all")
        self.count, self.plt, self.keep = 0, plt, plt.show

        def show(*args, **kwargs):
            self.count += 1

        plt.show = show
        return self

    def __exit__(self, *why):
        self.plt.show = self.keep
        self.plt.close("all")


def lines(ax):
    """Those which have points"""
    return [np.array(x.get_xydata(), float) for x in ax.lines if len(x.get_xdata())]


def closed(points):
    """Without the repeated last point"""
    p = np.array(points, float)
    return p[:-1] if len(p) > 1 and np.allclose(p[0], p[-1], rtol=0, atol=1e-12) else p


def has(groups, points, what, close_up=False):
    """One of the groups is these points, in this order"""
    p = np.array(points, float)
    for g in groups:
        if close_up:
            if len(g) == len(p) + 1 and np.allclose(g[:-1], p, rtol=1e-12, atol=1e-12) and np.allclose(g[-1], p[0], rtol=1e-12, atol=1e-12):
                return
        elif np.shape(g) == np.shape(p) and np.allclose(g, p, rtol=1e-12, atol=1e-12):
            return
    require(False, "{} at {} is not in the plot", what, p.tolist())


def cloud(groups, points, what):
    """All of the points are in one or other of the groups"""
    every = np.concatenate(groups) if groups else np.zeros((0, 2))
    for p in points:
        require(len(every) and np.min(np.abs(every - np.array(p, float)).max(axis=1)) < 1e-9, "{} at {} is not in the plot", what, list(p))


def outlines(ax):
    return [closed(p.get_xy()) for p in ax.patches if hasattr(p, "get_xy") and np.ndim(p.get_xy()) == 2]


def circles(ax):
    return [(p.center[0], p.center[1], p.radius) for p in ax.patches if hasattr(p, "center")]


def shows(ax, s, coil):
    """A coil is in the plot. Returns the number of things it is drawn by, with a position of its own"""
    if s["t"] == "coil":
        want = (coil.R, coil.Z, np.sqrt(coil.area / np.pi))
        require(any(np.allclose(c, want, rtol=1e-9, atol=1e-12) for c in circles(ax)), "coil of {} is not in the plot, which has {}", want, circles(ax))
    elif s["t"] == "shaped":
        has(outlines(ax), s["shape"], "outline of a coil")
    elif s["t"] == "fil":
        cloud(lines(ax), list(zip(np.atleast_1d(s["Rfil"]), np.atleast_1d(s["Zfil"]))), "filament")
    elif s["t"] == "multi":
        p = list(zip(np.atleast_1d(s["R"]), np.atleast_1d(s["Z"])))
        cloud(lines(ax), p + ([(r, -z) for r, z in p] if s["mirror"] else []), "turn of a coil")
    elif s["t"] == "circuit":
        for (_, d, _), (_, c, _) in zip(s["coils"], coil.coils):
            shows(ax, d, c)
    elif s["t"] == "mirrored":
        radius = [np.sqrt(c.area / np.pi) for _, c, _ in coil.coils]
        for z, a in zip((s["Z"], -s["Z"]), radius):
            require(any(np.allclose(c, (s["R"], z, a), rtol=1e-9, atol=1e-12) for c in circles(ax)), "coil at {} is not in the plot", (s["R"], z))


@st.composite
def coil_case(draw):
    return {"coils": draw(st.lists(coils.any_coil(), min_size=1, max_size=4)), "axis": draw(st.sampled_from(["given", "given", "new"])), "show": draw(st.booleans()), "machine": draw(st.booleans())}


@PROP.sub(coil_case, quick=200, thorough=2000, shards=(4, 8))
def coils_and_machines(c, ctx):
    from freegs import machine

    built = [coils.build(s) for s in c["coils"]]
    visible = [s["t"] != "sol" and not (s["t"] == "circuit" and all(x[1]["t"] == "sol" for x in s["coils"])) for s in c["coils"]]
    ctx.nontrivial(len(built) > 1)
    with Shown() as shown:
        plt = shown.plt
        before = [repr(x) for x in built]
        if c["machine"]:
            things = [(machine.Machine([("c{}".format(i), x) for i, x in enumerate(built)]), list(zip(c["coils"], built)), any(visible))]
        else:
            things = [(x, [(s, x)], v) for s, x, v in zip(c["coils"], built, visible)]
        for thing, parts, some in things:
            given = plt.figure().add_subplot(111) if c["axis"] == "given" else None
            # Someone else's
            other = plt.figure().add_subplot(111)
            figures, count = len(plt.get_fignums()), shown.count
            ax = thing.plot(axis=given, show=c["show"])
            if given is not None:
                require(ax is given, "not the axes which were given")
            if c["machine"] or hasattr(thing, "coils"):
                require(shown.count == count + c["show"], "shown {} times", shown.count - count)
            else:
                require(c["show"] or shown.count == count, "shown though not asked to")
            require(not other.lines and not other.patches and not other.collections, "drawn on axes which aren't those to be used")
            require(len(plt.get_fignums()) == figures + (given is None and some), "{} new figures", len(plt.get_fignums()) - figures)
            if ax is not None:
                for s, x in parts:
                    ctx.label(s["t"])
                    shows(ax, s, x)
            else:
                require(not some, "no axes")
        require([repr(x) for x in built] == before, "plotting changed a coil")


@st.composite
def constraint_case(draw):
    r, z = num(0.2, 3, 3), num(-2, 2, 3)
    return {"x": [list(p) for p in draw(st.lists(st.tuples(r, z), max_size=3))], "iso": [list(p) for p in draw(st.lists(st.tuples(r, z, r, z), max_size=3))],
            "axis": draw(st.sampled_from(["given", "new"])), "show": draw(st.booleans()), "how": draw(st.booleans())}


@PROP.sub(constraint_case, quick=80, thorough=800)
def constraints(c, ctx):
    from freegs import control, plotting

    con = control.constrain(xpoints=[tuple(p) for p in c["x"]], isoflux=[tuple(p) for p in c["iso"]])
    ctx.nontrivial(len(c["x"]) + len(c["iso"]) > 1)
    with Shown() as shown:
        given = shown.plt.figure().add_subplot(111) if c["axis"] == "given" else None
        other = shown.plt.figure().add_subplot(111)
        if given is not None and c["show"]:
            # The legend is that of the current axes
            shown.plt.sca(given)
        ax = con.plot(axis=given, show=c["show"]) if c["how"] else plotting.plotConstraints(con, axis=given, show=c["show"])
        require(given is None or ax is given, "not the axes which were given")
        require(shown.count == c["show"], "shown {} times", shown.count)
        require(not other.lines, "drawn on axes which aren't those to be used")
        got = lines(ax)
        for p in c["x"]:
            has(got, [p], "X-point constraint")
        for a in c["iso"]:
            has(got, [a[:2], a[2:]], "isoflux constraint")
        n = sum(len(g) for g in got)
        require(n == len(c["x"]) + 2 * len(c["iso"]), "{} points drawn", n)
        require([tuple(p) for p in con.xpoints] == [tuple(p) for p in c["x"]] and [tuple(p) for p in con.isoflux] == [tuple(p) for p in c["iso"]], "constraints changed")


@st.composite
def eq_case(draw):
    cc = draw(plasma.analytic(sizes=(9, 17, 17, 33)))
    return {"c": cc, "wall": draw(st.one_of(st.none(), num(0.3, 0.8, 2))), "sensors": draw(st.integers(0, 3)), "limited": draw(st.booleans()), "off": draw(st.booleans()),
            "options": [draw(st.sampled_from([None, True, True, False])) for _ in range(3)], "axis": draw(st.sampled_from(["given", "new"])), "show": draw(st.booleans()), "method": draw(st.booleans())}


def level_curves(eq, psi):
    """Linear along grid lines, on which contours have their vertices"""
    return interpolate.RegularGridInterpolator((eq.R[:, 0], eq.Z[0]), psi, method="linear", bounds_error=False, fill_value=None)


def crossings(psi, level):
    up = psi > level
    return int(np.sum(up[1:] != up[:-1]) + np.sum(up[:, 1:] != up[:, :-1]))


def state(eq):
    tok = eq.tokamak
    wall = (list(tok.wall.R), list(tok.wall.Z)) if tok.wall else None
    return [eq.psi().copy(), eq.plasma_psi.copy(), eq.psi_bndry, eq.psi_axis, [x.current for _, x in tok.coils], wall]


@PROP.sub(eq_case, quick=64, thorough=800, shards=(4, 8))
def equilibria(cc, ctx):
    from freegs import critical, machine as m, plotting

    c = cc["c"]
    g = plasma._grid(c)
    s = c["scale"]
    eq = plasma.build(c)
    if getattr(eq, "psi_bndry", None) is None:
        raise Skip("no boundary")
    tok = eq.tokamak
    if cc["wall"] is not None:
        t = np.linspace(0, 2 * np.pi, 7, endpoint=False)
        tok.wall = m.Wall(list(s * (1 + cc["wall"] * np.cos(t))), list(s * cc["wall"] * np.sin(t) + c["Z0"]))
    mid = (g["Rmin"] + g["Rmax"]) / 2, (g["Zmin"] + g["Zmax"]) / 2
    sensors = [m.FluxLoopSensor(*mid, name="loop", status=cc["off"]), m.PoloidalFieldSensor(mid[0] + 0.1 * s, mid[1], 0.4),
               m.RogowskiSensor([g["Rmin"], g["Rmax"], mid[0]], [g["Zmin"], g["Zmin"], g["Zmax"]], name="rog")][: cc["sensors"]]
    tok.sensors = sensors if cc["sensors"] else None
    if cc["limited"] and tok.wall:
        eq.check_limited = True
        eq._updateBoundaryPsi()
        ctx.label("limited" if eq.is_limited else "wall")
    psi = eq.psi()
    O, X = critical.find_critical(eq.R, eq.Z, psi)
    ctx.nontrivial()
    ctx.label("X-points" if X else "no X-point")
    before = state(eq)
    with Shown() as shown:
        given = shown.plt.figure().add_subplot(111) if cc["axis"] == "given" else None
        other = shown.plt.figure().add_subplot(111)
        if given is not None and cc["show"]:
            shown.plt.sca(given)
        names = ["oxpoints", "wall", "plot_sensors"]
        kw = {k: v for k, v in zip(names, cc["options"]) if v is not None}
        if cc["method"]:
            kw = {k: v for k, v in kw.items() if k == "oxpoints"}
            ax = eq.plot(axis=given, show=cc["show"], **kw)
        else:
            ax = plotting.plotEquilibrium(eq, axis=given, show=cc["show"], **kw)
        opt = {k: kw.get(k, True) for k in names}
        require(given is None or ax is given, "not the axes which were given")
        require(shown.count == cc["show"], "shown {} times", shown.count)
        require(not other.lines and not other.collections, "drawn on axes which aren't those to be used")
        got = lines(ax)
        f = level_curves(eq, psi)
        span = np.max(psi) - np.min(psi)
        sets = [x for x in ax.collections if hasattr(x, "levels")]
        many = [x for x in sets if len(x.levels) > 1]
        single = [x for x in sets if len(x.levels) == 1]
        require(len(many) == 1 and len(single) == int(bool(opt["oxpoints"] and X)), "contours of {} levels", [len(x.levels) for x in sets])
        levels = many[0].levels
        require(len(levels) > 10 and np.all(np.diff(levels) > 0), "levels of the flux surfaces")
        require(levels[0] >= np.min(psi) - 1e-9 * span and levels[-1] <= np.max(psi) + 1e-9 * span and levels[-1] - levels[0] > 0.9 * span, "flux surfaces from {} to {} of flux from {} to {}", levels[0], levels[-1],
                np.min(psi), np.max(psi))
        for cs in sets:
            for level, path in zip(cs.levels, cs.get_paths()):
                v = path.vertices
                if len(v):
                    close(f(v), np.full(len(v), level), "flux on the contour of {}".format(level), rtol=0, atol=1e-7 * span)
        for cs in single:
            close(cs.levels[0], eq.psi_bndry, "flux of the separatrix", rtol=1e-12)
            n = len(cs.get_paths()[0].vertices)
            require(n >= crossings(psi, eq.psi_bndry), "separatrix has {} points but crosses the grid {} times", n, crossings(psi, eq.psi_bndry))
        mid_level = len(levels) // 2
        require(len(many[0].get_paths()[mid_level].vertices) >= crossings(psi, levels[mid_level]), "flux surface isn't complete")
        expected = 0
        if opt["oxpoints"]:
            for p in list(O) + list(X):
                has(got, [p[:2]], "O- or X-point")
                expected += 1
        if opt["wall"] and tok.wall is not None:
            has(got, list(zip(tok.wall.R, tok.wall.Z)), "wall", close_up=True)
            expected += 1
        if opt["plot_sensors"]:
            for x in sensors:
                if isinstance(x, m.RogowskiSensor):
                    has(got, list(zip(x.R, x.Z)), "Rogowski loop", close_up=True)
                else:
                    has(got, [(x.R, x.Z)], "sensor")
                expected += 1
        require(len(got) == expected, "{} lines and points drawn, expected {}", len(got), expected)
        require(c31.same(state(eq), before), "plotting changed the equilibrium")
