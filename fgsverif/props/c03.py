"""C03: the flux and field of an equilibrium are plasma + coils, whatever happened before"""
import numpy as np
from hypothesis import strategies as st

from .. import coils
from ..gen import current, num
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C03",
    "machines of 1-4 coils of any type (labels sometimes shared) with a generated plasma flux, "
    "then 1-8 operations: assign a coil's current, set or adjust the controlled currents, switch "
    "control, replace the plasma by a solve with a given current density, query; after every "
    "operation flux and field are compared with plasma + sum of (model current x response of a "
    "freshly built copy of the coil); non-trivial = at least two operations that change currents",
    ["coil positions stay fixed (moving coils is property C30)"],
)


@st.composite
def plasma(draw):
    return {
        "R0": draw(num(0.8, 1.3, 2)), "Z0": draw(num(-0.3, 0.3, 2)),
        "w": draw(num(0.25, 0.5, 2)), "amp": draw(num(-2, 2, 3)), "lin": draw(num(-0.5, 0.5, 3)),
    }


def plasma_flux(p, R, Z):
    return p["amp"] * np.exp(-((R - p["R0"]) ** 2 + (Z - p["Z0"]) ** 2) / p["w"] ** 2) + p["lin"] * R * Z


op = st.one_of(
    st.tuples(st.just("set"), st.integers(0, 9), current()),
    st.tuples(st.just("setall"), st.lists(current(), min_size=4, max_size=4)),
    st.tuples(st.just("adjust"), st.lists(current(), min_size=4, max_size=4)),
    st.tuples(st.just("control"), st.integers(0, 9), st.booleans()),
    st.tuples(st.just("solve"), st.tuples(num(0.7, 1.3, 2), num(-0.3, 0.3, 2), num(-1, 1, 3))),
    st.tuples(st.just("query"), st.integers(0, 3)),
)


@st.composite
def history(draw):
    n = draw(st.integers(1, 4))
    return {
        "nx": draw(st.sampled_from([9, 17])), "ny": draw(st.sampled_from([9, 17])),
        "coils": [[draw(st.sampled_from(["a", "b", "c", "d"])), draw(coils.any_coil())] for _ in range(n)],
        "plasma": draw(plasma()),
        "ops": draw(st.lists(op, min_size=1, max_size=8)),
        "pts": draw(st.lists(st.tuples(num(0.35, 1.75, 3), num(-0.75, 0.75, 3)), min_size=1, max_size=3)),
        "check_first": draw(st.booleans()),
    }


class _NoProfiles:
    def fvac(self):
        return 1.0


def _check(eq, machine, fresh, I, pts, fixed):
    # On the grid
    want = np.array(eq.plasma_psi)
    scale = np.max(np.abs(want)) + 1e-30
    for f, i in zip(fresh, I):
        part = i * fixed[id(f)]
        want = want + part
        scale += np.max(np.abs(part))
    close(eq.psi(), want, "flux on the grid", atol=1e-11 * scale)
    # At grid nodes the off-grid evaluation agrees
    close(eq.psiRZ(eq.R, eq.Z), want, "flux at grid points", atol=1e-9 * scale)
    for R, Z in pts:
        psi_c = sum(i * f.controlPsi(R, Z) for f, i in zip(fresh, I))
        br_c = sum(i * f.controlBr(R, Z) for f, i in zip(fresh, I))
        bz_c = sum(i * f.controlBz(R, Z) for f, i in zip(fresh, I))
        sc = sum(abs(i * f.controlPsi(R, Z)) for f, i in zip(fresh, I)) + np.max(np.abs(eq.plasma_psi))
        sb = sum(abs(i) * (abs(f.controlBr(R, Z)) + abs(f.controlBz(R, Z))) for f, i in zip(fresh, I))
        pl = lambda r, z: eq.psiRZ(r, z) - sum(i * f.controlPsi(r, z) for f, i in zip(fresh, I))
        h = 1e-4
        big = sum(abs(i) * 1e-5 * 60 for i in I) + 1
        tol = 1e-9 * sb + 2e-3 * np.max(np.abs(eq.plasma_psi)) + 1e-10 * big / h
        br = -(pl(R, Z + h) - pl(R, Z - h)) / (2 * h * R)
        bz = (pl(R + h, Z) - pl(R - h, Z)) / (2 * h * R)
        close(eq.plasmaBr(R, Z), br, "plasma Br against flux", rtol=2e-3, atol=tol)
        close(eq.plasmaBz(R, Z), bz, "plasma Bz against flux", rtol=2e-3, atol=tol)
        close(eq.Br(R, Z), eq.plasmaBr(R, Z) + br_c, "total Br", atol=1e-10 * (sb + 1))
        close(eq.Bz(R, Z), eq.plasmaBz(R, Z) + bz_c, "total Bz", atol=1e-10 * (sb + 1))
        close(eq.Bpol(R, Z), np.hypot(eq.Br(R, Z), eq.Bz(R, Z)), "Bpol", rtol=1e-10, atol=1e-300)
    A = np.array(pts)
    for name in ("psiRZ", "Br", "Bz", "Bpol", "plasmaBr", "plasmaBz"):
        f = getattr(eq, name)
        want = np.array([f(r, z) for r, z in pts])
        close(f(A[:, 0], A[:, 1]), want, name + " of an array", rtol=1e-9, atol=1e-12)
    got = [coil.current for _, coil in machine.coils]
    require(got == I, "coil currents {} instead of {}", got, I)


@PROP.sub(history, quick=260, thorough=3000, shards=(4, 8))
def plasma_plus_coils(c, ctx):
    import freegs
    from freegs.machine import Machine

    specs = c["coils"]
    machine = Machine([(lab, coils.build(s)) for lab, s in specs])
    fresh = [coils.build(s) for _, s in specs]
    I = [s["I"] for _, s in specs]
    ctl = [s["control"] for _, s in specs]
    eq = freegs.Equilibrium(tokamak=machine, Rmin=0.3, Rmax=1.8, Zmin=-0.8, Zmax=0.8,
                            nx=c["nx"], ny=c["ny"],
                            psi=plasma_flux(c["plasma"], *np.meshgrid(
                                np.linspace(0.3, 1.8, c["nx"]), np.linspace(-0.8, 0.8, c["ny"]),
                                indexing="ij")))
    pts = [p for p in c["pts"] if all(coils.distance(s, *p) > 0.02 for _, s in specs)]
    if not pts:
        raise Skip("points inside coils")
    fixed = {id(f): f.controlPsi(eq.R, eq.Z) for f in fresh}
    labels = [lab for lab, _ in specs]
    ctx.label("shared label" if len(set(labels)) < len(labels) else "unique labels")
    changes = 0
    if c["check_first"]:
        _check(eq, machine, fresh, I, pts, fixed)
    for o in c["ops"]:
        kind = o[0]
        ctx.label(kind)
        idx = [k for k in range(len(I)) if ctl[k]]
        if kind == "set":
            k = o[1] % len(I)
            machine.coils[k][1].current = o[2]
            changes += I[k] != o[2]
            I[k] = o[2]
        elif kind == "setall":
            machine.setControlCurrents(o[1][: len(idx)])
            for k, v in zip(idx, o[1]):
                changes += I[k] != v
                I[k] = v
        elif kind == "adjust":
            machine.controlAdjust(np.array(o[1][: len(idx)]))
            for k, v in zip(idx, o[1]):
                changes += v != 0
                I[k] += v
        elif kind == "control":
            k = o[1] % len(I)
            machine.coils[k][1].control = o[2]
            ctl[k] = o[2]
        elif kind == "solve":
            R0, Z0, amp = o[1]
            J = amp * 1e6 * np.exp(-((eq.R - R0) ** 2 + (eq.Z - Z0) ** 2) / 0.2 ** 2)
            if c["nx"] * c["ny"] > 153:
                continue
            eq.solve(_NoProfiles(), Jtor=J)
        else:
            # Queries in between must not disturb anything
            [lambda: eq.psi(), lambda: machine.psi(eq.R, eq.Z), lambda: eq.Bpol(1.0, 0.1),
             lambda: machine.controlPsi(1.0, 0.2)][o[1]]()
            continue
        _check(eq, machine, fresh, I, pts, fixed)
    _check(eq, machine, fresh, I, pts, fixed)
    ctx.nontrivial(changes >= 2)
