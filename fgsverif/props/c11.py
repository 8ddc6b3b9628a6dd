"""C11: the plasma core"""
import numpy as np
from hypothesis import strategies as st
from scipy import ndimage

from ..gen import num, signed
from ..runner import Property, Skip
from ..util import close, require
from . import c10

PROP = Property(
    "C11",
    "analytic flux functions as in C10 (several axes, either sign) on grids of 17-65 points per side, boundary flux from the "
    "first X-point or chosen between axis and X-point; the core is compared with connected components found by "
    "scipy.ndimage; equilibria with such plasma flux and coils of random current; non-trivial = some grid points are in the core and "
    "some inside the boundary flux are not (another axis, or private flux region)",
    ["grid points within two cells of an X-point may be on either side"],
)


@st.composite
def case(draw):
    return {"c": draw(c10.flux(17, 65)), "frac": draw(st.one_of(st.none(), num(0.2, 1.0, 2))),
            "lists": draw(st.booleans())}


def reference(R, Z, psi, axis, X, psi_bndry):
    """(points which are in the core, points which may be)"""
    psin = (psi - axis[2]) / (psi_bndry - axis[2])
    inside = psin < 1.0
    nx, ny = psi.shape

    def blocks(n):
        b = np.zeros(psi.shape, bool)
        for x in X:
            i, j = np.argmin(abs(R[:, 0] - x[0])), np.argmin(abs(Z[0] - x[1]))
            b[max(0, i - n): i + n + 1, max(0, j - n): j + n + 1] = True
        return b

    start = np.argmin(abs(R[:, 0] - axis[0])), np.argmin(abs(Z[0] - axis[1]))
    if not inside[start] or blocks(2)[start]:
        raise Skip("core too small for the grid")

    def component(s):
        lab, _ = ndimage.label(s)
        return lab == lab[start]

    # Path to the axis well clear of X-points; or anywhere but through the X-points
    must = component(inside & ~blocks(2))
    may = component(inside & ~blocks(1)) | (inside & blocks(1))
    return must, may, inside


@PROP.sub(case, quick=400, thorough=4000, shards=(8, 8))
def core_is_connected_to_axis(cc, ctx):
    from freegs import critical

    c = cc["c"]
    R, Z = c10._grid(c)
    from .. import field

    psi = field.value(c["terms"], R, Z)
    O, X = critical.find_critical(R, Z, psi)
    if not O or not X:
        raise Skip("no axis or X-point")
    bndry = X[0][2]
    args = ()
    if cc["frac"] is not None:
        bndry = O[0][2] + cc["frac"] * (X[0][2] - O[0][2])
        args = (bndry,)
    must, may, inside = reference(R, Z, psi, O[0], X, bndry)
    keep = psi.copy()
    mask = critical.core_mask(R, Z, psi, O, X, *args)
    require(np.array_equal(psi, keep), "flux modified")
    require(mask.shape == psi.shape, "shape of the mask")
    require(np.all((mask == 0) | (mask == 1)), "mask has values other than 0 and 1: {}", sorted(set(mask.ravel())))
    ctx.nontrivial(bool(np.any(must) and np.any(inside & ~may)))
    ctx.label("X-point" if cc["frac"] is None else "given boundary")
    bad = must & (mask != 1)
    require(not np.any(bad), "grid point {} is in the core but not in the mask", list(map(int, np.argwhere(bad)[0])) if np.any(bad) else None)
    bad = ~may & (mask != 0)
    require(not np.any(bad), "grid point {} isn't in the core but is in the mask", list(map(int, np.argwhere(bad)[0])) if np.any(bad) else None)


@st.composite
def eq_case(draw):
    c = draw(c10.flux(17, 40))
    c["nx"], c["ny"] = draw(st.sampled_from([17, 33])), draw(st.sampled_from([17, 33]))
    coils = draw(st.lists(st.tuples(num(-0.3, 1.3, 2), st.sampled_from([-0.3, 1.3]), signed(1e3, 1e6, 0)), max_size=3))
    return {"c": c, "coils": coils, "boundary": draw(st.sampled_from(["free", "fixed"])),
            "change": draw(st.one_of(st.none(), num(-2, 2, 1))), "ask": draw(st.booleans())}


@PROP.sub(eq_case, quick=200, thorough=2000, shards=(4, 8))
def equilibrium_axis_boundary_and_core(cc, ctx):
    """What the equilibrium says about axis, boundary and core is that of its total flux"""
    import freegs
    from freegs import critical, boundary
    from .. import field

    c = cc["c"]
    R, Z = c10._grid(c)
    coils = [("c%d" % i, freegs.machine.Coil(max(0.05, c["Rmin"] + x * c["L"]), c["Zmin"] + y * c["H"], current=a))
             for i, (x, y, a) in enumerate(cc["coils"])]
    b = boundary.freeBoundary if cc["boundary"] == "free" else boundary.fixedBoundary
    eq = freegs.Equilibrium(tokamak=freegs.machine.Machine(coils), Rmin=c["Rmin"], Rmax=c["Rmin"] + c["L"],
                            Zmin=c["Zmin"], Zmax=c["Zmin"] + c["H"], nx=c["nx"], ny=c["ny"], boundary=b,
                            psi=field.value(c["terms"], R, Z))
    if cc["change"] is not None and coils:
        if cc["ask"]:
            try:
                eq.magneticAxis(), eq.psiN()
            except (IndexError, TypeError):
                pass  # No axis
        coils[0][1].current *= cc["change"]
        eq._updateBoundaryPsi()
        ctx.label("after a change of current")
    psi = eq.psi()
    O, X = critical.find_critical(eq.R, eq.Z, psi)
    if not O:
        raise Skip("no axis")
    tol = 1e-12 * np.max(np.abs(psi))
    ctx.nontrivial()
    ctx.label("diverted" if X else "no X-point")
    close(eq.psi_axis, O[0][2], "flux on axis", atol=tol)
    close(eq.magneticAxis(), O[0], "magnetic axis", atol=1e-12, rtol=1e-12)
    close([eq.Rmagnetic(), eq.Zmagnetic()], O[0][:2], "position of the axis", atol=1e-12)
    require(eq.is_limited is False, "limited without checking for limiters")
    if X:
        close(eq.psi_bndry, X[0][2], "flux on the boundary", atol=tol)
        must, may, inside = reference(eq.R, eq.Z, psi, O[0], X, X[0][2])
        require(np.all((eq.mask == 0) | (eq.mask == 1)), "mask has values other than 0 and 1")
        require(not np.any(must & (eq.mask != 1)), "grid points missing from the core")
        require(not np.any(~may & (eq.mask != 0)), "grid points in the core which shouldn't be")
        close(eq.psiN(), (psi - O[0][2]) / (X[0][2] - O[0][2]), "normalised flux", rtol=1e-9, atol=1e-9)
        i, j = c["nx"] // 3, c["ny"] // 2
        r, z = float(R[i, j]) + 1e-3, float(Z[i, j]) - 1e-3
        close(eq.psiNRZ(r, z), (eq.psiRZ(r, z) - O[0][2]) / (X[0][2] - O[0][2]), "normalised flux at a point", rtol=1e-9, atol=1e-9)
    elif cc["boundary"] == "fixed":
        close(eq.psi_bndry, psi[0, 0], "flux on the boundary", atol=tol)
        require(eq.mask is None, "mask without X-points")
    else:
        require(eq.psi_bndry is None and eq.mask is None, "boundary flux without X-points")
