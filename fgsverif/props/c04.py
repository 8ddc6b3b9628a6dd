"""C04: circuits"""
import numpy as np
from hypothesis import strategies as st

from .. import coils
from ..gen import current, num
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C04",
    "circuits of 1-4 coils of any type (labels sometimes shared, multipliers of either sign "
    "including zero) and mirrored pairs, driven by 1-8 operations: set current, switch control, "
    "adjust through the machine, query flux/field/response/force in between; a model of "
    "(circuit current, control) is compared after every operation; non-trivial = at least two "
    "coils and at least two changes of current",
)

op = st.one_of(
    st.tuples(st.just("current"), current()),
    st.tuples(st.just("control"), st.booleans()),
    st.tuples(st.just("adjust"), current()),
    st.tuples(st.just("set"), current()),
    st.tuples(st.just("scale"), num(-2, 2, 2)),
    st.tuples(st.just("query"), st.integers(0, 7)),
    st.tuples(st.just("astray"), st.integers(0, 3), current(), st.integers(0, 5)),
)


@st.composite
def history(draw):
    return {
        "circuit": draw(st.one_of(coils.circuit(unique=False), coils.circuit(), coils.mirrored())),
        "ops": draw(st.lists(op, min_size=1, max_size=8)),
        "R": draw(num(0.1, 3.3, 3)), "Z": draw(num(-2.2, 2.2, 3)),
    }


def _model(s):
    """[(fresh coil description, multiplier)]"""
    if s["t"] == "circuit":
        return [(c, m) for _, c, m in s["coils"]]
    base = {"t": "coil", "I": 0.0, "turns": s["turns"], "control": True, "R": s["R"]}
    return [(dict(base, Z=s["Z"]), 1.0), (dict(base, Z=-s["Z"]), 1.0 if s["symmetric"] else -1.0)]


@PROP.sub(history, quick=500, thorough=6000, shards=(3, 8))
def circuit_history(c, ctx):
    from freegs.machine import Machine

    s = c["circuit"]
    circ = coils.build(s)
    other = coils.build({"t": "coil", "R": 2.9, "Z": 1.9, "I": 7.0, "turns": 1, "control": False})
    machine = Machine([("other", other), ("circuit", circ)])
    parts = [(coils.build(d), m) for d, m in _model(s)]
    R, Z = c["R"], c["Z"]
    if coils.distance(s, R, Z) < 0.02:
        raise Skip("inside a coil")
    I, control = s["I"], s["control"]
    Rg, Zg = np.array([[R, R + 0.01]]), np.array([[Z, Z - 0.01]])
    stored = circ.createPsiGreens(Rg, Zg)
    resp = {n: sum(m * getattr(p, n)(R, Z) for p, m in parts)
            for n in ("controlPsi", "controlBr", "controlBz")}
    size = {n: sum(abs(m * getattr(p, n)(R, Z)) for p, m in parts)
            for n in ("controlPsi", "controlBr", "controlBz")}
    gresp = sum(m * p.controlPsi(Rg, Zg) for p, m in parts)
    changes = 0

    def check():
        require(circ.current == I, "circuit current {} instead of {}", circ.current, I)
        require(bool(circ.control) == control, "circuit control {}", circ.control)
        require(len(circ.coils) == len(parts), "number of coils")
        for (lab, coil, mult), (p, m) in zip(circ.coils, parts):
            require(mult == m, "multiplier of {} is {} instead of {}", lab, mult, m)
            close(coil.current, m * I, "current in coil " + lab, rtol=1e-12, atol=0)
            require(bool(coil.control) == control, "control flag of coil {}", lab)
        for n in resp:
            close(getattr(circ, n)(R, Z), resp[n], "circuit " + n, rtol=1e-9, atol=1e-11 * size[n])
        close(circ.psi(R, Z), I * resp["controlPsi"], "circuit flux", rtol=1e-9,
              atol=1e-11 * abs(I) * size["controlPsi"])
        close(circ.Br(R, Z), I * resp["controlBr"], "circuit Br", rtol=1e-9,
              atol=1e-11 * abs(I) * size["controlBr"])
        close(circ.Bz(R, Z), I * resp["controlBz"], "circuit Bz", rtol=1e-9,
              atol=1e-11 * abs(I) * size["controlBz"])
        close(circ.calcPsiFromGreens(stored), I * gresp, "circuit flux from stored response",
              rtol=1e-9, atol=1e-11 * abs(I) * (size["controlPsi"] + np.max(np.abs(gresp))))
        require(other.current == 7.0 and other.control is False, "another coil was changed")

    check()
    for o in c["ops"]:
        kind = o[0]
        ctx.label(kind)
        if kind == "current":
            circ.current = o[1]
            changes += I != o[1]
            I = o[1]
        elif kind == "control":
            circ.control = o[1]
            control = o[1]
        elif kind == "adjust":
            n = 1 if control else 0
            require(len(machine.controlCurrents()) == n, "controlled currents")
            machine.controlAdjust(np.array([o[1]] * n))
            if control:
                I = I + o[1]
                changes += 1
        elif kind == "set":
            n = 1 if control else 0
            machine.setControlCurrents([o[1]] * n)
            if control:
                changes += I != o[1]
                I = o[1]
        elif kind == "scale":
            circ.current *= o[1]
            I *= o[1]
            changes += 1
        elif kind == "astray":
            # Given to one of its coils, which doesn't stay: what the circuit produces is of its own current
            _, coil, _ = circ.coils[o[1] % len(circ.coils)]
            coil.current = o[2]
            name = ["psi", "Br", "Bz", "stored", "current", "scale"][o[3]]
            if name == "stored":
                close(circ.calcPsiFromGreens(stored), I * gresp, "circuit flux from stored response, a coil's current having been set", rtol=1e-9,
                      atol=1e-11 * abs(I) * (size["controlPsi"] + np.max(np.abs(gresp))))
            elif name == "current":
                circ.current = I
            elif name == "scale":
                circ.current *= 1
            else:
                k = "control" + name.capitalize()
                close(getattr(circ, name)(R, Z), I * resp[k], "circuit {}, a coil's current having been set".format(name), rtol=1e-9, atol=1e-11 * abs(I) * size[k])
        else:
            name = ["psi", "Br", "Bz", "controlPsi", "controlBr", "controlBz"]
            if o[1] < 6:
                getattr(circ, name[o[1]])(Rg, Zg)
            elif o[1] == 6:
                repr(circ)
            else:
                machine.getCurrents()
        check()
    ctx.label(s["t"])
    ctx.nontrivial(len(parts) > 1 and changes >= 2)


@PROP.sub(lambda: coils.circuit(min_size=1), quick=200, thorough=1500)
def coils_found_by_name(s, ctx):
    circ = coils.build(s)
    from freegs.machine import Machine

    m = Machine([("x", coils.build(s)), ("circ", circ)])
    ctx.nontrivial(len(s["coils"]) > 1)
    require(m["circ"] is circ, "machine lookup by label")
    for lab, coil, mult in circ.coils:
        require(circ[lab] is coil, "circuit lookup by label")
    for thing in (circ, m):
        try:
            thing["no such coil"]
        except KeyError:
            continue
        require(False, "unknown label accepted")


@PROP.sub(lambda: st.fixed_dictionaries({"R": num(0.3, 3, 3), "Z": num(-2, 2, 3), "which": st.sampled_from(["coil", "shaped", "filament", "multi", "solenoid", "circuit", "mirrored"]), "I": current()}), quick=60, thorough=200)
def by_default(c, ctx):
    """No current, one turn, controlled"""
    from freegs import machine as m

    R, Z = c["R"], c["Z"]
    square = [(R - 0.1, Z - 0.1), (R + 0.1, Z - 0.1), (R + 0.1, Z + 0.1), (R - 0.1, Z + 0.1)]
    make = {"coil": lambda **k: m.Coil(R, Z, **k), "shaped": lambda **k: m.ShapedCoil(square, **k), "filament": lambda **k: m.FilamentCoil([R, R + 0.1], [Z, Z + 0.1], **k),
            "multi": lambda **k: m.MultiCoil([R, R + 0.1], [Z, Z], **k), "solenoid": lambda **k: m.Solenoid(R, Z, Z + 1, 4, **k), "mirrored": lambda **k: m.MirroredCoil(R, Z + 2.5, **k),
            "circuit": lambda **k: m.Circuit([("A", m.Coil(R, Z), 1.0), ("B", m.Coil(R, Z + 1), -2.0)], **k)}[c["which"]]
    ctx.label(c["which"])
    ctx.nontrivial()
    x, y = make(), make(current=c["I"], control=False)
    require(x.current == 0 and bool(x.control) is True, "{} has current {} and control {}", c["which"], x.current, x.control)
    require(y.current == c["I"] and bool(y.control) is False, "{} of {} A which isn't controlled has current {} and control {}", c["which"], c["I"], y.current, y.control)
    if c["which"] in ("coil", "shaped", "filament", "mirrored"):
        one = make(turns=1)
        require(float(x.controlPsi(0.2, 0.3)) == float(one.controlPsi(0.2, 0.3)), "{} doesn't have one turn", c["which"])
