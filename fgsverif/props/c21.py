"""C21: reading GEQDSK files"""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from .. import plasma
from ..gen import num
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C21",
    "free-boundary solutions of generated problems are written with the library and read back into machines without coil currents, with other currents, with the right currents fixed, onto other domains, "
    "fitting the whole domain, with a wall, with flux not divided by 2 pi, with a constant added to the flux and on grids of 2^n+1 or other numbers of points; non-trivial = anything but the plain case",
    ["reading solves the equilibrium again, to the tolerance it is given; agreement of flux in the core to 2 % of its range, currents to 1 %", "the input has X-points"],
)


@st.composite
def case(draw):
    c = draw(plasma.tokamak_case(sizes=(33, 33, 65)))
    # Doesn't matter here, and converges more often
    c["m"], c["n"] = draw(st.sampled_from([(1.0, 2.0), (1.0, 1.0), (2.0, 2.0)]))
    c["how"] = draw(st.sampled_from(["plain", "currents", "fixed", "domain", "sol", "wall", "cocos", "offset", "grid", "bounds"]))
    c["k"] = [draw(num(-1, 1, 2)) for _ in range(4)]
    c["R0"] = draw(num(0.5, 2, 2))
    return c


def machine():
    """The test tokamak without its wall, which might limit the plasma"""
    import freegs

    tok = freegs.machine.TestTokamak()
    tok.wall = None
    return tok


def written(c):
    import freegs
    from freegs import geqdsk

    eq, prof, constrain = plasma.solved(c, machine(), rtol=1e-4, maxits=120, blend=0.2)
    O, X = plasma.diverted(eq)
    eq.tokamak.R0 = c["R0"]
    if c["how"] == "wall":
        d = [0.01 + 0.04 * abs(k) for k in c["k"]]
        a, b, lo, hi = eq.Rmin + d[0], eq.Rmax - d[1], eq.Zmin + d[2], eq.Zmax - d[3]
        eq.tokamak.wall = freegs.machine.Wall([a, b, b, a], [lo, lo, hi, hi])
    fh = io.StringIO()
    geqdsk.write(eq, fh)
    return eq, prof, fh.getvalue()


def altered(text, c):
    """The same equilibrium written in another way"""
    from freeqdsk import geqdsk as fq

    d = fq.read(io.StringIO(text))
    kw = {}
    if c["how"] == "cocos":
        d.psi, d.simagx, d.sibdry = d.psi * 2 * math.pi, d.simagx * 2 * math.pi, d.sibdry * 2 * math.pi
        kw["cocos"] = 11
    elif c["how"] == "offset":
        off = c["k"][0] * 2 * abs(d.sibdry - d.simagx)
        d.psi, d.simagx, d.sibdry = d.psi + off, d.simagx + off, d.sibdry + off
    out = io.StringIO()
    fq.write(d, out)
    return out.getvalue(), kw


def read(text, tok, **kw):
    from freegs import geqdsk

    with contextlib.redirect_stdout(io.StringIO()):
        return geqdsk.read(io.StringIO(text), tok, rtol=1e-4, maxits=100, **kw)


@PROP.sub(case, quick=56, thorough=800, shards=(8, 8))
def round_trip(c, ctx):
    import warnings

    how = c["how"]
    if how == "grid":
        return other_grid(c, ctx)
    eq, prof, text = written(c)
    ctx.label(how)
    ctx.nontrivial(how != "plain")
    tok = machine()
    kw = {}
    if how == "currents":
        for k, (n, coil) in zip(c["k"], tok.coils):
            coil.current = k * 4e5
    elif how == "fixed":
        n = tok.coils[int(abs(c["k"][0]) * 3.99)][0]
        tok[n].current = eq.tokamak[n].current
        tok[n].control = False
    elif how == "domain":
        k = c["k"]
        kw["domain"] = [eq.Rmin + 0.03 * max(k[0], -1), eq.Rmax + 0.5 * max(k[1], -0.1), eq.Zmin - 0.5 * max(k[2], -0.1), eq.Zmax + 0.5 * max(k[3], -0.1)]
    elif how == "sol":
        kw["fit_sol"] = True
    elif how in ("cocos", "offset"):
        text, more = altered(text, c)
        kw.update(more)
    elif how == "bounds":
        kw["current_bounds"] = [(min(0, 2 * coil.current), max(0, 2 * coil.current)) for _, coil in eq.tokamak.coils]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            new = read(text, tok, **kw)
    except RuntimeError:
        raise Skip("not converged")
    require(new.tokamak is tok, "machine isn't the one given")
    if how == "domain":
        close([new.Rmin, new.Rmax, new.Zmin, new.Zmax], kw["domain"], "domain", rtol=1e-12)
        require(new.dR <= eq.dR * (1 + 1e-6) and new.dZ <= eq.dZ * (1 + 1e-6), "resolution {} x {} of the input became {} x {}", eq.dR, eq.dZ, new.dR, new.dZ)
        for n in (new.nx, new.ny):
            require(n - 1 == 2 ** round(math.log2(n - 1)), "grid of {} points", n)
    else:
        require((new.nx, new.ny) == (eq.nx, eq.ny), "grid size")
        close([new.Rmin, new.Rmax, new.Zmin, new.Zmax], [eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax], "domain", rtol=1e-8, atol=1e-8)
    check_equilibrium(new, eq, c, coils=how != "bounds")
    if how == "bounds":
        for (lo, hi), (n, coil) in zip(kw["current_bounds"], tok.coils):
            require(lo - 1e-6 * (hi - lo) <= coil.current <= hi + 1e-6 * (hi - lo), "current {} in {} outside its bounds {}", coil.current, n, (lo, hi))
    if how == "fixed":
        require(tok[n].current == eq.tokamak[n].current and not tok[n].control, "fixed current was changed")
    w = eq.tokamak.wall
    if w is not None:
        close(tok.wall.R, np.array(w.R), "wall R", rtol=1e-8)
        close(tok.wall.Z, np.array(w.Z), "wall Z", rtol=1e-8)
    else:
        require(tok.wall is None, "there is no wall in the file")
    require(new.check_limited, "limiter isn't taken into account")


def check_equilibrium(new, eq, c, tol=1.0, coils=True):
    Ip = eq.plasmaCurrent()
    close(new.plasmaCurrent(), Ip, "plasma current", rtol=(0.025 if c["nx"] < 40 else 0.015) * tol)
    close(new.fvac(), eq.fvac(), "vacuum field", rtol=1e-7)
    close(new.tokamak.R0, c["R0"], "reference radius", rtol=1e-8)
    x = np.linspace(0, 1, 23)
    # Splines between the values in the file
    for name in ("pressure", "fpol"):
        a, b = getattr(new, name)(x), getattr(eq, name)(x)
        scale = np.max(np.abs(b)) if name == "pressure" else np.max(np.abs(b - eq.fvac()))
        close(a, b, name, atol=1e-3 * scale + 1e-7 * np.max(np.abs(b)))
        close(getattr(new, name)(0.37), getattr(eq, name)(0.37), name + " of one value", atol=1e-3 * scale + 1e-7 * np.max(np.abs(b)))
    span = abs(eq.psi_bndry - eq.psi_axis)
    for name in ("pprime", "ffprime"):
        a, b = getattr(new, name)(x), getattr(eq, name)(x)
        # Cancellation in f^2 from nine digits
        err = 0.0 if name == "pprime" else 1e-8 * eq.fvac() ** 2 * eq.nx / span
        # Normalised by the flux range of the input
        close(a[1:-1], b[1:-1], name, atol=(0.02 * tol) * np.max(np.abs(b)) + 10 * err)
    a, b = new.magneticAxis(), eq.magneticAxis()
    close(a[:2], b[:2], "magnetic axis", atol=0.015 * tol)
    d = (new.psiRZ(eq.R, eq.Z) - new.psi_axis) - (eq.psi() - eq.psi_axis)
    close(d * eq.mask, np.zeros_like(d), "flux in the core relative to the axis", atol=0.02 * tol * span)
    close(new.psi_bndry - new.psi_axis, eq.psi_bndry - eq.psi_axis, "flux at the boundary relative to the axis", atol=0.02 * tol * span)
    if coils:
        total = max(abs(coil.current) for _, coil in eq.tokamak.coils)
        for n, coil in eq.tokamak.coils:
            close(new.tokamak[n].current, coil.current, "current in " + n, atol=0.05 * tol * total)


def other_grid(c, ctx):
    """A file whose grid isn't 2^n+1"""
    import warnings

    from freeqdsk import geqdsk as fq

    eq, prof, text = written(c)
    ctx.label("grid")
    ctx.nontrivial()
    d = fq.read(io.StringIO(text))
    nx, ny = eq.nx + 8 + int(20 * abs(c["k"][0])), eq.ny + 8 + int(20 * abs(c["k"][1]))
    R, Z = np.linspace(eq.Rmin, eq.Rmax, nx), np.linspace(eq.Zmin, eq.Zmax, ny)
    x = np.linspace(0, 1, nx)
    r, z = np.meshgrid(R, Z, indexing="ij")
    data = {k: getattr(d, k) for k in ("rdim", "zdim", "rcentr", "rleft", "zmid", "rmagx", "zmagx", "simagx", "sibdry", "bcentr", "cpasma")}
    data.update(nx=nx, ny=ny, psi=eq.psiRZ(r, z) - eq.psi_axis + d.simagx, fpol=eq.fpol(x), pres=eq.pressure(x), ffprime=eq.ffprime(x), pprime=eq.pprime(x),
                qpsi=np.interp(x, np.linspace(0, 1, eq.nx), d.qpsi))
    fh = io.StringIO()
    fq.write(data, fh)
    tok = machine()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            new = read(fh.getvalue(), tok)
    except RuntimeError:
        raise Skip("not converged")
    for n, m in ((new.nx, nx), (new.ny, ny)):
        require(n >= m and n - 1 == 2 ** round(math.log2(n - 1)), "{} points became {}", m, n)
        require((n - 1) // 2 < m - 1, "{} points became {}", m, n)
    require(tok.wall is None, "there is no wall in the file")
    check_equilibrium(new, eq, c, tol=2.0)


@PROP.sub(case, quick=12, thorough=120, shards=(2, 8))
def stays_put(c, ctx):
    """The control system which comes with the equilibrium keeps it as it is; bad combinations are refused"""
    c = dict(c, how="plain")
    eq, prof, text = written(c)
    try:
        read(text, machine(), fit_sol=True, domain=[0.1, 2, -1, 1])
    except ValueError:
        pass
    else:
        require(False, "fit_sol together with domain was accepted")
    try:
        new = read(text, machine())
    except RuntimeError:
        raise Skip("not converged")
    ctx.nontrivial()
    psi, span = new.psi(), abs(new.psi_bndry - new.psi_axis)
    axis = new.psi_axis
    core = new.mask
    require(hasattr(new, "control"), "no control system")
    _, X = plasma.diverted(new)
    for x in X:
        # The interpolated flux isn't that of the coil this close to it
        for r, z in ((1.75, 0.6), (1.75, -0.6), (1.0, 1.1), (1.0, -1.1)):
            if math.hypot(x[0] - r, x[1] - z) < 5 * max(new.dR, new.dZ):
                raise Skip("X-point next to a coil")
    new.control(new)
    new._updateBoundaryPsi()
    close((new.psi() - new.psi_axis) * core, (psi - axis) * core, "flux in the core after applying the control system", atol=0.03 * span)
