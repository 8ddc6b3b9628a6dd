"""C09: boundary conditions"""
import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..gen import num
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C09",
    "domains of any position and aspect ratio, 17-33 points per side, smooth current densities (1-2 blobs, either sign) inside; "
    "flux on the edges, corners and at interior points is compared with a fine-grid sum of reference filaments; "
    "non-trivial = current not centred in the domain",
    ["the current is resolved by the grid (blob radius of at least 2.5 cells) and small at the edges"],
)


@st.composite
def case(draw):
    Rmin = draw(num(0.1, 1.5, 2))
    L = draw(num(0.8, 2, 2))
    H = draw(num(0.8, 3, 2))
    n = draw(st.integers(1, 2))
    return {
        "Rmin": Rmin, "L": L, "Zmin": draw(num(-2, 1, 2)), "H": H,
        "nx": draw(st.sampled_from([17, 33])), "ny": draw(st.sampled_from([17, 33])),
        "blobs": [[draw(num(0.4, 0.6, 2)), draw(num(0.35, 0.65, 2)), draw(num(0.17, 0.2, 3)), draw(num(-1, 1, 2))]
                  for _ in range(n)],
        "order": draw(st.sampled_from([2, 4])), "start": draw(num(-1, 1, 1)),
    }


def _J(c, R, Z):
    J = np.zeros(np.broadcast(R, Z).shape)
    for x, y, w, a in c["blobs"]:
        J = J + a * 1e6 * np.exp(-(((R - c["Rmin"]) / c["L"] - x) ** 2 + ((Z - c["Zmin"]) / c["H"] - y) ** 2) / (w * w))
    return J


class _P:
    def fvac(self):
        return 1.0


def _reference(c, pts):
    n = 90
    # Cell centres, so that observation points on the edge never coincide with a source
    r = c["Rmin"] + c["L"] * (np.arange(n) + 0.5) / n
    z = c["Zmin"] + c["H"] * (np.arange(n) + 0.5) / n
    R, Z = np.meshgrid(r, z, indexing="ij")
    W = _J(c, R, Z) * (c["L"] / n) * (c["H"] / n)
    return np.array([np.sum(ref.greens_arr(R, Z, a, b) * W) for a, b in pts])


def _solve(c, boundary):
    import freegs

    n = (c["nx"], c["ny"])
    eq = freegs.Equilibrium(Rmin=c["Rmin"], Rmax=c["Rmin"] + c["L"], Zmin=c["Zmin"], Zmax=c["Zmin"] + c["H"],
                            nx=n[0], ny=n[1], order=c["order"], boundary=boundary, psi=np.full(n, c["start"]))
    eq.solve(_P(), Jtor=_J(c, eq.R, eq.Z))
    return eq


def _edge_points(c):
    nx, ny = c["nx"], c["ny"]
    pts = [(0, 0), (0, ny - 1), (nx - 1, 0), (nx - 1, ny - 1)]
    for f in (0.1, 0.35, 0.5, 0.8):
        i, j = int(f * nx), int(f * ny)
        pts += [(0, j), (nx - 1, j), (i, 0), (i, ny - 1)]
    return pts


def _compare(c, ctx, boundary, tol_edge, tol_in, slope=0.0):
    if max(abs(b[3]) for b in c["blobs"]) < 0.1:
        raise Skip("no current")
    ctx.nontrivial(any(abs(b[0] - 0.5) > 0.03 or abs(b[1] - 0.5) > 0.03 for b in c["blobs"]))
    ctx.label("{}x{}".format(c["nx"], c["ny"]))
    eq = _solve(c, boundary)
    pts = _edge_points(c)
    # Largest flux which currents of this size make: what errors are compared to
    pos = dict(c, blobs=[[b[0], b[1], b[2], abs(b[3])] for b in c["blobs"]])
    scale = np.max(_reference(pos, [(eq.R[i], eq.Z[i]) for i in pts]))
    want = _reference(c, [(eq.R[i], eq.Z[i]) for i in pts])
    got = np.array([eq.plasma_psi[i] for i in pts])
    # The method using edge currents has an error which depends on the spacing (except at the corners)
    tol = np.full(len(pts), tol_edge + slope * max(eq.dR, eq.dZ))
    tol[:4] = tol_edge
    close(got, want, "flux on the edge", atol=tol * scale)
    nx, ny = c["nx"], c["ny"]
    ins = [(nx // 2, ny // 2), (nx // 4, ny // 2), (3 * nx // 4, ny // 4), (nx // 2, 4 * ny // 5)]
    scale = np.max(_reference(pos, [(eq.R[i], eq.Z[i]) for i in ins]))
    want = _reference(c, [(eq.R[i] + 1e-6, eq.Z[i] + 1e-6) for i in ins])
    close(np.array([eq.plasma_psi[i] for i in ins]), want, "flux inside", atol=tol_in * scale)


@PROP.sub(case, quick=80, thorough=600, shards=(4, 8))
def free_boundary(c, ctx):
    from freegs import boundary

    _compare(c, ctx, boundary.freeBoundary, 8e-3, 2e-2)


@st.composite
def hagenow_case(draw):
    c = draw(case())
    c["nx"], c["ny"] = draw(st.sampled_from([17, 33, 65])), draw(st.sampled_from([17, 33, 65]))
    return c


@PROP.sub(hagenow_case, quick=100, thorough=500, shards=(8, 8))
def free_boundary_from_edge_currents(c, ctx):
    from freegs import boundary

    _compare(c, ctx, boundary.freeBoundaryHagenow, 0.025, 0.03 + 0.3 * max(c["L"] / (c["nx"] - 1), c["H"] / (c["ny"] - 1)), 1.0)


@PROP.sub(case, quick=40, thorough=300, shards=(2, 8))
def fixed_boundary(c, ctx):
    from freegs import boundary

    ctx.nontrivial()
    eq = _solve(c, boundary.fixedBoundary)
    for name, e in (("left", eq.plasma_psi[0]), ("right", eq.plasma_psi[-1]),
                    ("lower", eq.plasma_psi[:, 0]), ("upper", eq.plasma_psi[:, -1])):
        close(e, np.zeros(len(e)), "flux on the {} edge".format(name), atol=1e-12)


@PROP.sub(case, quick=40, thorough=300, shards=(2, 8))
def mirror_image(c, ctx):
    """Turning the current upside down turns the flux upside down, for every boundary condition"""
    from freegs import boundary

    c = dict(c, Zmin=-c["H"] / 2, start=0.0)
    m = dict(c, blobs=[[x, 1 - y, w, a] for x, y, w, a in c["blobs"]])
    ctx.nontrivial()
    for b in (boundary.freeBoundary, boundary.freeBoundaryHagenow, boundary.fixedBoundary):
        p, q = _solve(c, b).plasma_psi, _solve(m, b).plasma_psi
        close(q[:, ::-1], p, "flux of the mirror image ({})".format(b.__name__), atol=1e-7 * np.max(np.abs(p)) + 1e-12)
