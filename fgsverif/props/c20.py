"""C20: what is written to GEQDSK and DivGeo files"""
import io
import re

import numpy as np
from hypothesis import strategies as st

from .. import plasma
from ..gen import num, signed
from ..runner import Property, Skip
from ..util import close, require
from . import c16

PROP = Property(
    "C20",
    "diverted and limited equilibria of known flux with generated profiles (as in C17), non-square grids, reference radii, either direction of current and field, with and without wall and "
    "O-/X-points given; the text is read with a parser of fixed-width columns written for this check; non-trivial = grid not square, or a wall, or a negative current or field",
    ["numbers in the files have nine digits", "the flux may have a constant added", "safety factor as in C17"],
)


@st.composite
def case(draw):
    cc = draw(c16.case())
    cc["spec"] = draw(plasma.profile_spec())
    cc["R0"] = draw(st.one_of(st.just(1.0), num(0.3, 4, 3)))
    cc["current"] = draw(signed(1e3, 1e7, 0))
    cc["ox"] = draw(st.booleans())
    cc["label"] = draw(st.sampled_from([None, "test", "a b"]))
    cc["wall too"] = draw(st.booleans())
    return cc


def setup(cc):
    import freegs

    eq = c16.make(cc)
    prof = plasma.profiles(eq, plasma.absolute(cc["spec"], cc["c"]), cc["c"]["sign"])
    prof.Jtor(eq.R, eq.Z, eq.psi())
    eq._profiles = prof
    eq._current = cc["current"]
    eq.tokamak.R0 = cc["R0"]
    if cc["how"] == "diverted" and cc["wall too"]:
        # Further out than the plasma, and no effect as the equilibrium isn't limited
        eq.tokamak.wall = freegs.machine.Wall([eq.Rmin, eq.Rmax, eq.Rmax, eq.Rmin], [eq.Zmin, eq.Zmin, eq.Zmax, eq.Zmax])
    return eq


def parse_geqdsk(text):
    lines = text.split("\n")
    head = lines[0].split()
    nx, ny = int(head[-2]), int(head[-1])
    pos = 1

    def take(n):
        nonlocal pos
        out = []
        while len(out) < n:
            line = lines[pos]
            out += [float(line[i:i + 16]) for i in range(0, len(line.rstrip()), 16)]
            pos += 1
        require(len(out) == n, "{} numbers where {} were expected", len(out), n)
        return np.array(out)

    s = take(20)
    d = dict(zip(["rdim", "zdim", "rcentr", "rleft", "zmid", "rmagx", "zmagx", "simagx", "sibdry", "bcentr", "cpasma"], s[:11]))
    require(s[11] == d["simagx"] and s[13] == d["rmagx"] and s[15] == d["zmagx"] and s[17] == d["sibdry"], "repeated values differ")
    d.update(nx=nx, ny=ny, text=lines[0])
    for name in ("fpol", "pres", "ffprime", "pprime"):
        d[name] = take(nx)
    d["psi"] = take(nx * ny).reshape((ny, nx)).T
    d["qpsi"] = take(nx)
    nb, nl = (int(x) for x in lines[pos].split())
    pos += 1
    b = take(2 * nb)
    d["bdry"] = b[0::2], b[1::2]
    w = take(2 * nl) if nl else np.zeros(0)
    d["lim"] = w[0::2], w[1::2]
    require(not "".join(lines[pos:]).strip(), "text after the end of the data")
    return d


@PROP.sub(case, quick=96, thorough=1000, shards=(8, 8))
def geqdsk_file(cc, ctx):
    from freegs import critical, geqdsk

    eq = setup(cc)
    psi = eq.psi()
    O, X = critical.find_critical(eq.R, eq.Z, psi)
    kw = {"oxpoints": (O, X)} if cc["ox"] else {}
    fh = io.StringIO()
    geqdsk.write(eq, fh, label=cc["label"], **kw)
    close(eq.psi(), psi, "flux after writing", rtol=0)
    d = parse_geqdsk(fh.getvalue())
    ctx.label(cc["how"])
    ctx.nontrivial(eq.nx != eq.ny or eq.tokamak.wall is not None or cc["current"] < 0 or cc["spec"]["fvac"] < 0)
    r = 1e-8
    if cc["label"]:
        require(cc["label"] in d["text"], "label missing from {}", d["text"])
    require((d["nx"], d["ny"]) == (eq.nx, eq.ny), "grid size {}", (d["nx"], d["ny"]))
    size = eq.Rmax + abs(eq.Zmin) + abs(eq.Zmax)
    close(d["rleft"], eq.Rmin, "inner edge", rtol=r)
    close(d["rdim"], eq.Rmax - eq.Rmin, "width", rtol=r)
    close(d["zdim"], eq.Zmax - eq.Zmin, "height", rtol=r)
    close(d["zmid"], 0.5 * (eq.Zmax + eq.Zmin), "middle", rtol=r, atol=1e-9)
    close(d["rcentr"], cc["R0"], "reference radius", rtol=r)
    close(d["bcentr"] * d["rcentr"], eq.fvac(), "vacuum field", rtol=1e-8)
    close(d["cpasma"], cc["current"], "plasma current", rtol=r)
    close([d["rmagx"], d["zmagx"]], [O[0][0], O[0][1]], "axis", atol=1e-8 * size)
    span = eq.psi_bndry - O[0][2]
    tol = 1e-8 * np.max(np.abs(psi - O[0][2]))
    close(d["psi"] - d["simagx"], psi - O[0][2], "flux relative to the axis", atol=tol)
    close(d["sibdry"] - d["simagx"], span, "flux at the boundary relative to the axis", rtol=1e-6)
    x = np.linspace(0, 1, eq.nx)
    for name, f in (("fpol", eq.fpol), ("pres", eq.pressure), ("ffprime", eq.ffprime), ("pprime", eq.pprime)):
        want = np.asarray(f(x), float)
        close(d[name], want, name + " from axis to boundary", rtol=r, atol=1e-8 * np.max(np.abs(want)))
    # p' and f f' are derivatives of p and f^2/2 with respect to the flux in the file
    flux = d["simagx"] + x * (d["sibdry"] - d["simagx"])
    mid = slice(2, -2)
    for name, y in (("pprime", d["pres"]), ("ffprime", 0.5 * d["fpol"] ** 2)):
        if cc["spec"]["n"] < 1 or cc["spec"]["m"] < 1:
            break
        num_ = np.gradient(y, flux)
        err = 0.03 * np.max(np.abs(d[name])) + 1e-8 * np.max(np.abs(y)) / abs(flux[1] - flux[0])
        close(d[name][mid], num_[mid], name + " as a derivative", atol=err)
    q = eq.q(x[1:])
    close(d["qpsi"][1:], q, "safety factor", rtol=1e-6)
    close(d["qpsi"][0], d["qpsi"][1], "safety factor on axis", rtol=0.2)
    Rb, Zb = d["bdry"]
    require(len(Rb) > 20, "only {} points on the boundary", len(Rb))
    close([Rb[0], Zb[0]], [Rb[-1], Zb[-1]], "first and last point of the boundary", atol=1e-8)
    n = (eq.psiRZ(Rb, Zb) - O[0][2]) / span
    close(n, np.ones(len(n)), "normalised flux on the boundary", atol=0.02)
    t = np.unwrap(np.arctan2(Zb - O[0][1], Rb - O[0][0]))
    close(abs(t[-1] - t[0]), 2 * np.pi, "angle about the axis covered by the boundary", atol=1e-6)
    require(np.all(np.sign(np.diff(t)) == np.sign(t[-1] - t[0])), "boundary isn't in order")
    w = eq.tokamak.wall
    if w is None:
        require(len(d["lim"][0]) == 0, "there is no wall")
    else:
        close(d["lim"][0], np.asarray(w.R, float), "wall R", rtol=r)
        close(d["lim"][1], np.asarray(w.Z, float), "wall Z", rtol=r, atol=1e-9)


def parse_divgeo(text):
    d = {}
    for name in ("jm", "km", "psib", "btf", "rtf"):
        d[name] = float(re.search(r"^\s*{}\s*=\s*([-+.\dEe]+)".format(name), text, re.M).group(1))
    _, rest = text.split("r(1:jm);")
    r, rest = rest.split("z(1:km);")
    z, psi = rest.split("((psi(j,k)-psib,j=1,jm),k=1,km)")
    nx, ny = int(d["jm"]), int(d["km"])
    for name, t in (("r", r), ("z", z), ("psi", psi)):
        d[name] = np.array([float(x) for x in t.split()])
    require(len(d["r"]) == nx and len(d["z"]) == ny and len(d["psi"]) == nx * ny, "amount of data")
    d["psi"] = d["psi"].reshape((ny, nx)).T
    return d


@PROP.sub(case, quick=48, thorough=500, shards=(8, 8))
def divgeo_file(cc, ctx):
    import warnings

    from freeqdsk import geqdsk as fq
    from freegs import _divgeo, critical, divgeo, geqdsk

    eq = setup(cc)
    psi = eq.psi()
    O, X = critical.find_critical(eq.R, eq.Z, psi)
    ctx.label(cc["how"])
    ctx.nontrivial(eq.nx != eq.ny or eq.tokamak.wall is not None or cc["current"] < 0 or cc["spec"]["fvac"] < 0)
    kw = {"oxpoints": (O, X)} if cc["ox"] else {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fh = io.StringIO()
        divgeo.write(eq, fh, **kw)
        files = [("from the equilibrium", fh.getvalue())]
        # and by way of a GEQDSK file, as described in the manual
        g = io.StringIO()
        geqdsk.write(eq, g)
        data = fq.read(io.StringIO(g.getvalue()))
        fh = io.StringIO()
        _divgeo.write(data, fh)
        files.append(("from a GEQDSK file", fh.getvalue()))
    for what, text in files:
        d = parse_divgeo(text)
        require((d["jm"], d["km"]) == (eq.nx, eq.ny), "grid size")
        close(d["r"], eq.R[:, 0], "R " + what, rtol=1e-8)
        close(d["z"], eq.Z[0], "Z " + what, rtol=1e-8, atol=1e-8 * (eq.Zmax - eq.Zmin))
        close(d["rtf"] * d["btf"], eq.fvac(), "vacuum field " + what, rtol=1e-8)
        close(d["rtf"], cc["R0"], "reference radius " + what, rtol=1e-8)
        scale = np.max(np.abs(psi - O[0][2]))
        close(d["psi"], psi - eq.psi_bndry, "flux relative to the boundary " + what, atol=3e-8 * scale)
