"""C01: flux and field of a single circular filament"""
import math

import numpy as np
from hypothesis import strategies as st

from freegs.gradshafranov import Greens, GreensBr, GreensBz

from .. import ref
from ..gen import logmag, num, signed
from ..runner import Property, Skip
from ..util import close, finite, require

PROP = Property(
    "C01",
    "source/field positions (R 1 cm..20 m, separation 0.1 mm..100 m, on-axis-of-symmetry "
    "offsets, exact coincidence) are generated; non-trivial = field point distinct from the "
    "source with both radial and vertical offsets non-zero, or an array case with at least "
    "two elements",
    ["field tolerances allow the O(eps^2) error of central differences with step 1 mm"],
)


@st.composite
def pairs(draw, near=True):
    Rc = draw(st.one_of(num(0.05, 5.0), logmag(-1.3, 1.3)))
    Zc = draw(num(-5, 5))
    kind = draw(st.sampled_from(["any", "near", "far"]))
    if kind == "any":
        R = draw(num(0.01, 10.0))
        Z = draw(num(-10, 10))
    elif kind == "near":
        d = draw(logmag(-4, -0.5))
        a = draw(num(-math.pi, math.pi))
        R = max(0.01, round(Rc + d * math.cos(a), 9))
        Z = round(Zc + d * math.sin(a), 9)
    else:
        R = draw(logmag(-2, 2))
        Z = Zc + draw(signed(0, 100))
    return {"Rc": Rc, "Zc": Zc, "R": R, "Z": Z}


def _tol(c):
    m = 4 * c["R"] * c["Rc"] / ((c["R"] + c["Rc"]) ** 2 + (c["Z"] - c["Zc"]) ** 2)
    # cancellation in the elliptic-integral formula for small k^2; clip close to 1
    return 1e-8 + 2e-14 / m ** 2


def _dist(c):
    return math.hypot(c["R"] - c["Rc"], c["Z"] - c["Zc"])


@PROP.sub(pairs, quick=1200, thorough=16000)
def flux_value(c, ctx):
    d = _dist(c)
    if d < 5e-5:
        ctx.label("coincident")
        finite(Greens(c["Rc"], c["Zc"], c["R"], c["Z"]), "flux at the filament")
        return
    m = 4 * c["R"] * c["Rc"] / ((c["R"] + c["Rc"]) ** 2 + (c["Z"] - c["Zc"]) ** 2)
    if m < 1e-6 or 1 - m < 1e-9:
        finite(Greens(c["Rc"], c["Zc"], c["R"], c["Z"]), "flux")
        return
    ctx.nontrivial(c["R"] != c["Rc"] and c["Z"] != c["Zc"])
    ctx.label("near" if d < 0.1 else "far" if d > 10 else "mid")
    want = ref.greens(c["Rc"], c["Zc"], c["R"], c["Z"])
    close(
        Greens(c["Rc"], c["Zc"], c["R"], c["Z"]), want,
        "flux of unit filament", rtol=_tol(c) + (1e-6 if 1 - m < 1e-7 else 0),
    )


@PROP.sub(pairs, quick=800, thorough=8000)
def reciprocity_and_shift(c, ctx):
    m = 4 * c["R"] * c["Rc"] / ((c["R"] + c["Rc"]) ** 2 + (c["Z"] - c["Zc"]) ** 2)
    if m < 1e-6 or _dist(c) < 1e-4:
        raise Skip("coincident or extremely distant")
    ctx.nontrivial(c["R"] != c["Rc"] and c["Z"] != c["Zc"])
    a = Greens(c["Rc"], c["Zc"], c["R"], c["Z"])
    b = Greens(c["R"], c["Z"], c["Rc"], c["Zc"])
    close(b, a, "exchange of source and field point", rtol=_tol(c))
    dz = 0.734
    s = Greens(c["Rc"], c["Zc"] + dz, c["R"], c["Z"] + dz)
    # Rounding of the shifted coordinates matters for tiny separations
    close(s, a, "common vertical shift", rtol=_tol(c) + 1e-13 / _dist(c))
    r = Greens(c["Rc"], -c["Zc"], c["R"], -c["Z"])
    close(r, a, "vertical reflection", rtol=_tol(c))


@st.composite
def field_pairs(draw):
    Rc = draw(num(0.05, 5.0))
    Zc = draw(num(-3, 3))
    if draw(st.booleans()):
        d = draw(logmag(-1.5, 0.5))
        a = draw(num(-math.pi, math.pi))
        R = max(0.03, round(Rc + d * math.cos(a), 6))
        Z = round(Zc + d * math.sin(a), 6)
    else:
        R, Z = draw(num(0.03, 6.0)), draw(num(-5, 5))
    return {"Rc": Rc, "Zc": Zc, "R": R, "Z": Z}


@PROP.sub(field_pairs, quick=1200, thorough=16000)
def field_value(c, ctx):
    d = _dist(c)
    if d < 0.02:
        finite(GreensBr(c["Rc"], c["Zc"], c["R"], c["Z"]), "Br close to the filament")
        finite(GreensBz(c["Rc"], c["Zc"], c["R"], c["Z"]), "Bz close to the filament")
        return
    ctx.nontrivial(c["R"] != c["Rc"] and c["Z"] != c["Zc"])
    br, bz = ref.greens_B(c["Rc"], c["Zc"], c["R"], c["Z"])
    tol = ref.fd_tol(c["Rc"], c["Zc"], c["R"], c["Z"])
    close(GreensBr(c["Rc"], c["Zc"], c["R"], c["Z"]), br, "Br of unit filament",
          rtol=1e-7, atol=tol)
    close(GreensBz(c["Rc"], c["Zc"], c["R"], c["Z"]), bz, "Bz of unit filament",
          rtol=1e-7, atol=tol)


@st.composite
def arrays(draw):
    shape = draw(st.sampled_from([[1], [2], [5], [2, 3], [3, 1], [1, 4], [2, 2, 2]]))
    n = int(np.prod(shape))
    return {
        "shape": shape,
        "Rc": draw(num(0.1, 3.0)),
        "Zc": draw(num(-2, 2)),
        "R": draw(st.lists(num(0.05, 4.0), min_size=n, max_size=n)),
        "Z": draw(st.lists(num(-3, 3), min_size=n, max_size=n)),
        "mode": draw(st.sampled_from(["field", "source", "outer"])),
    }


@PROP.sub(arrays, quick=300, thorough=3000)
def arrays_are_elementwise(c, ctx):
    R = np.array(c["R"]).reshape(c["shape"])
    Z = np.array(c["Z"]).reshape(c["shape"])
    ctx.nontrivial(R.size > 1)
    ctx.label(c["mode"])
    for f in (Greens, GreensBr, GreensBz):
        if c["mode"] == "field":
            got = f(c["Rc"], c["Zc"], R, Z)
            want = np.array([f(c["Rc"], c["Zc"], r, z) for r, z in zip(c["R"], c["Z"])])
        elif c["mode"] == "source":
            got = f(R, Z, c["Rc"], c["Zc"])
            want = np.array([f(r, z, c["Rc"], c["Zc"]) for r, z in zip(c["R"], c["Z"])])
        else:
            R1, Z1 = np.array(c["R"]), np.array(c["Z"])
            got = f(c["Rc"], c["Zc"], R1[:, None], Z1[None, :])
            want = np.array([[f(c["Rc"], c["Zc"], r, z) for z in c["Z"]] for r in c["R"]])
            close(got, want, f.__name__ + " on an outer grid", rtol=1e-12, atol=1e-18)
            continue
        close(got, want.reshape(c["shape"]), f.__name__ + " on an array",
              rtol=1e-12, atol=1e-18)
        require(np.all(R.ravel() == np.array(c["R"])) and np.all(Z.ravel() == np.array(c["Z"])),
                "input arrays were modified")
