"""C27: answers are those of the present state, whatever happened before"""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import plasma
from ..gen import num
from ..runner import Property, Skip
from ..util import require
from . import c31

QUERIES = c31.SHAPE + c31.PLAIN + c31.POINTS + c31.NORM + c31.QNORM + [n for n in c31.OTHER if n not in ("dump", "solver")]

PROP = Property(
    "C27",
    "diverted and limited equilibria in a machine of point coils, a solenoid, a block of filaments and a circuit, with sensors and walls, and 1-10 steps: coil or circuit currents assigned or adjusted, coils switched, "
    "plasma flux or profiles replaced, wall or limiter checking changed, sensors replaced, any of {} queries; then 9-32 queries, mostly asked before the steps as well, are compared, exactly, with those of an equilibrium freshly built from the present currents, plasma flux, profiles and wall; "
    "non-trivial = something was asked before a change and something after it".format(len(QUERIES)),
    ["coils aren't moved (the response of the coils on the grid is calculated once: see DESIGN.md)"],
)

COILS = plasma.COILS


def walls(c, w):
    from freegs import machine

    s = c["scale"]
    if w is None:
        return None
    t = np.linspace(0, 2 * np.pi, 30, endpoint=False)
    return machine.Wall(list(s * (c["axis"][0] + w * np.cos(t))), list(s * (c["axis"][1] + w * np.sin(t)) + c["Z0"]))


def new_machine(c, I=None, control=None, wall=None):
    from freegs import machine as m

    s = c["scale"]
    z = lambda x: s * x + c["Z0"]
    coils = [(n, m.Coil(s * r, z(h))) for n, r, h in COILS]
    coils.append(("SOL", m.Solenoid(s * 0.05, z(-0.8), z(0.8), 8, control=False)))
    coils.append(("CIR", m.Circuit([("A", m.Coil(s * 2.4, z(0.3), turns=2), 1.0), ("B", m.Coil(s * 2.4, z(-0.3)), -1.5)], control=False)))
    coils.append(("FIL", m.FilamentCoil([s * 2.35, s * 2.4], [z(0.9), z(0.9)], control=False)))
    if I is not None:
        for (_, coil), i, k in zip(coils, I, control):
            coil.current = i
            coil.control = k
    return m.Machine(coils, wall)


@st.composite
def step(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    if kind == "query":
        return [kind, draw(st.sampled_from(QUERIES))]
    if kind == "current":
        return [kind, draw(st.integers(0, 8)), draw(num(-0.15, 0.15, 3))]
    if kind == "adjust":
        return [kind, [draw(num(-0.1, 0.1, 3)) for _ in range(9)]]
    if kind == "control":
        return [kind, draw(st.integers(0, 8)), draw(st.booleans())]
    if kind == "flux":
        return [kind, draw(num(0.8, 1.25, 3)), draw(num(-0.05, 0.05, 3)), draw(num(0.9, 1.1, 3))]
    if kind == "profiles":
        return [kind, draw(plasma.profile_spec())]
    if kind == "wall":
        return [kind, draw(st.one_of(st.none(), num(0.2, 0.7, 2), num(0.2, 0.7, 2), num(0.2, 0.7, 2)))]
    if kind == "check":
        return [kind, draw(st.booleans())]
    return [kind]


@st.composite
def case(draw):
    c = draw(plasma.analytic(sizes=(17, 17, 17, 33)))
    if draw(st.booleans()):
        c["Z0"] = 0.0
    # Most of those which take no arguments: anything which remembers an answer
    # needs the same question before and after
    # Few kinds of change in one history: one which remembers too much is excused by
    # any other change which it does notice
    few = draw(st.lists(st.sampled_from(["current", "adjust", "control", "flux", "profiles", "wall", "check", "sensors", "solve", "constrain"]), unique=True, min_size=1, max_size=10 if draw(st.booleans()) else 2))
    steps = st.lists(step(few + ["query"] * draw(st.integers(0, len(few)))), min_size=1, max_size=10)
    names = st.tuples(st.lists(st.sampled_from(c31.PLAIN + c31.NORM), unique=True, min_size=8, max_size=25), st.lists(st.sampled_from(c31.SHAPE), unique=True, min_size=1, max_size=4),
                      st.lists(st.sampled_from(QUERIES), max_size=3)).map(lambda t: t[0] + t[1] + t[2])
    return {"c": c, "spec": draw(plasma.profile_spec()), "wall": draw(st.one_of(st.none(), num(0.2, 0.7, 2), num(0.2, 0.7, 2), num(0.2, 0.7, 2))), "check": draw(st.booleans()),
            "first": draw(st.lists(st.sampled_from(QUERIES), max_size=5)), "steps": draw(steps), "queries": draw(names),
            "repeat": draw(st.sampled_from([True, True, False])), "same profiles": draw(st.booleans()),
            "npts": draw(st.sampled_from([60, 60, 90, 360])), "points": [[draw(num(0.2, 0.8, 2)), draw(num(0.2, 0.8, 2))] for _ in range(3)],
            "pform": draw(st.sampled_from(["scalar", "array", "2d"]))}


def sensors(c, k):
    from freegs import machine as m

    g = plasma._grid(c)
    mid = (g["Rmin"] + g["Rmax"]) / 2 + 0.05 * k, (g["Zmin"] + g["Zmax"]) / 2
    return [m.FluxLoopSensor(*mid, name="loop"), m.PoloidalFieldSensor(mid[0], mid[1], 0.4 + 0.1 * k, name="probe"),
            m.RogowskiSensor([g["Rmin"], g["Rmax"], mid[0]], [g["Zmin"], g["Zmin"], g["Zmax"]], name="rog")]


def answer(eq, name, cc, ctx, i):
    """('ok', answer) or ('fails', kind of exception)"""
    try:
        return "ok", c31.ask(eq, name, cc, ctx, i)
    except Exception as e:
        from ..runner import Violation

        if isinstance(e, Violation):
            raise
        return "fails", type(e).__name__


def finish(eq, prof, J, current):
    """The state which a solve leaves behind"""
    eq._updateBoundaryPsi()
    eq._profiles = prof
    prof.Jtor(eq.R, eq.Z, eq.psi(), eq.psi_bndry)
    eq.Jtor = J.copy()
    eq._current = current


@PROP.sub(case, quick=88, thorough=2000, shards=(8, 8))
def fresh_twin(cc, ctx):
    import freegs
    import matplotlib

    matplotlib.use("Agg")
    c = cc["c"]
    tok = new_machine(c, wall=walls(c, cc["wall"]))
    eq = plasma.make(c, tok)
    s = c["scale"]
    pts = [(s * x, s * z + c["Z0"]) for x, z in (c["xl"], c["xu"])]
    constrain = freegs.control.constrain(xpoints=pts, isoflux=[] if c["single"] else [pts[0] + pts[1]])
    constrain(eq)
    eq.check_limited = cc["check"]
    eq._updateBoundaryPsi()
    spec, nsens, wall = cc["spec"], 0, cc["wall"]
    tok.sensors = sensors(c, 0)
    prof = plasma.profiles(eq, plasma.absolute(spec, c), c["sign"])
    eq._profiles = prof
    start = copy.deepcopy(c)
    if getattr(eq, "psi_bndry", None) is None:
        raise Skip("no boundary")
    prof.Jtor(eq.R, eq.Z, eq.psi(), eq.psi_bndry)
    J = 1e5 * np.exp(-((eq.R - s) ** 2 + (eq.Z - c["Z0"]) ** 2) / (0.1 * s * s))
    current = c["sign"] * 1e5
    eq.Jtor, eq._current = J.copy(), current
    unit = c["amp"] / (4e-7 * np.pi) / s
    asked = changed = False
    first = list(cc["first"]) + (cc["queries"] if cc["repeat"] else [])
    for i, q in enumerate(first):
        answer(eq, q, cc, ctx, 100 + i)
        asked = True
    for i, o in enumerate(cc["steps"]):
        kind = o[0]
        ctx.label(kind)
        if kind == "query":
            answer(eq, o[1], cc, ctx, i)
            asked = True
            continue
        changed = changed or asked
        if kind == "current":
            tok.coils[o[1]][1].current = o[2] * unit
        elif kind == "adjust":
            tok.controlAdjust(np.array([x * unit for x in o[1]])[: len(tok.controlCurrents())])
        elif kind == "control":
            tok.coils[o[1]][1].control = o[2]
        elif kind == "constrain":
            constrain(eq)
        elif kind == "flux":
            c = dict(c, amp=c["amp"] * o[1], axis=[c["axis"][0] + o[2], c["axis"][1]], width=[w * o[3] for w in c["width"]])
            eq._updatePlasmaPsi(plasma.plasma_psi(c, eq.R, eq.Z))
        elif kind == "profiles":
            spec = o[1]
            prof = plasma.profiles(eq, plasma.absolute(spec, start), c["sign"])
            eq._profiles = prof
        elif kind == "solve":
            # Plasma flux of this current density from now on
            eq.solve(prof, Jtor=c["sign"] * unit / s ** 2 * 8 * np.exp(-((eq.R - s * c["axis"][0]) ** 2 + (eq.Z - c["Z0"] - s * c["axis"][1]) ** 2) / (0.2 * s * s)))
        elif kind == "wall":
            wall = o[1]
            tok.wall = walls(c, wall)
        elif kind == "check":
            eq.check_limited = o[1]
        elif kind == "sensors":
            nsens += 1
            tok.sensors = sensors(start, nsens % 3)
    # The same state, without a past
    new = new_machine(start, [x.current for _, x in tok.coils], [x.control for _, x in tok.coils], None)
    if tok.wall is not None:
        new.wall = freegs.machine.Wall(list(tok.wall.R), list(tok.wall.Z))
    new.sensors = sensors(start, nsens % 3)
    try:
        twin = plasma.make(start, new, psi=eq.plasma_psi.copy(), check_limited=eq.check_limited)
    except Exception as e:
        raise Skip("no equilibrium: {}".format(type(e).__name__))
    tprof = plasma.profiles(twin, plasma.absolute(spec, start), c["sign"])
    try:
        finish(twin, tprof, J, current)
    except Exception as e:
        raise Skip("no boundary: {}".format(type(e).__name__))
    finish(eq, prof if cc["same profiles"] else plasma.profiles(eq, plasma.absolute(spec, start), c["sign"]), J, current)
    ctx.nontrivial(changed)
    for k in ("psi_axis", "psi_bndry", "mask", "is_limited", "plasma_psi"):
        require(c31.same(getattr(eq, k), getattr(twin, k)), "{} is {} but {} without a past", k, getattr(eq, k), getattr(twin, k))
    for i, name in enumerate(cc["queries"]):
        want = answer(copy.deepcopy(twin), name, cc, ctx, i)
        got = answer(eq, name, cc, ctx, i)
        ctx.label(name if want[0] == "ok" else "fails: " + name)
        require(c31.same(got, want), "{} is {} but {} of an equilibrium in the same state without a past", name, got, want)
