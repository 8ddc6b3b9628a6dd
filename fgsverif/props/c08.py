"""C08: multigrid"""
import numpy as np
from hypothesis import strategies as st

from ..gen import num
from ..runner import Property, Skip
from ..util import close, require

PROP = Property(
    "C08",
    "grids of 2^n+1 (and some that can't be halved) points, not necessarily square, any number of levels, with and "
    "without direct solve on the coarsest, arbitrary right-hand sides, edges and guesses; the result is compared "
    "with a dense solve of the same equations; non-trivial = more than one level",
    ["aspect ratios of grid cells between 1/3 and 3, sizes up to 33"],
)


@st.composite
def grid(draw, sizes):
    nx, ny = draw(st.sampled_from(sizes)), draw(st.sampled_from(sizes))
    Rmin = draw(num(0.2, 2, 2))
    L = draw(num(0.5, 2, 2))
    cell = draw(num(0.5, 2.0, 2))
    return {"nx": nx, "ny": ny, "Rmin": Rmin, "Rmax": round(Rmin + L, 6), "h": L / (nx - 1) * cell * (ny - 1)}


@st.composite
def case(draw):
    return {"g": draw(grid([9, 9, 17, 17, 33, 12, 13])), "levels": draw(st.integers(1, 5)), "direct": draw(st.booleans()),
            "laplace": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6)), "zero": draw(st.booleans())}


def _generator(c):
    from freegs import multigrid
    from freegs.gradshafranov import GSsparse

    g = c["g"]
    if c.get("laplace"):
        return multigrid.LaplaceSparse(g["Rmax"] - g["Rmin"], g["h"])
    return GSsparse(g["Rmin"], g["Rmax"], -g["h"] / 2, g["h"] / 2)


def _reference(c, b):
    """Dense solve of the five point equations with the edges of b as edge values"""
    g = c["g"]
    nx, ny = g["nx"], g["ny"]
    dR, dZ = (g["Rmax"] - g["Rmin"]) / (nx - 1), g["h"] / (ny - 1)
    R = np.linspace(g["Rmin"], g["Rmax"], nx)
    curv = 0.0 if c.get("laplace") else 1.0
    from scipy.sparse import coo_matrix
    from scipy.sparse.linalg import spsolve

    idx = np.arange(nx * ny).reshape(nx, ny)
    rows, cols, vals = [], [], []

    def put(r, k, v):
        rows.append(r.ravel())
        cols.append(k.ravel())
        vals.append(np.broadcast_to(v, r.shape).ravel())

    inn = idx[1:-1, 1:-1]
    Ri = R[1:-1, None] * np.ones(inn.shape)
    put(inn, inn, -2 / dR ** 2 - 2 / dZ ** 2)
    put(inn, idx[2:, 1:-1], 1 / dR ** 2 - curv / (2 * Ri * dR))
    put(inn, idx[:-2, 1:-1], 1 / dR ** 2 + curv / (2 * Ri * dR))
    put(inn, idx[1:-1, 2:], 1 / dZ ** 2)
    put(inn, idx[1:-1, :-2], 1 / dZ ** 2)
    edge = np.concatenate([idx[0], idx[-1], idx[1:-1, 0], idx[1:-1, -1]])
    put(edge, edge, 1.0)
    A = coo_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols)))).tocsc()
    return spsolve(A, b.ravel()).reshape(nx, ny)


def _with_edges(x, b):
    x = np.array(x)
    x[0], x[-1], x[:, 0], x[:, -1] = b[0], b[-1], b[:, 0], b[:, -1]
    return x


@PROP.sub(case, quick=60, thorough=600, shards=(6, 8))
def converges_to_the_solution(c, ctx):
    from freegs import multigrid

    g = c["g"]
    rng = np.random.default_rng(c["seed"])
    b = rng.standard_normal((g["nx"], g["ny"]))
    want = _reference(c, b)
    guess = np.zeros_like(b) if c["zero"] else rng.standard_normal(b.shape) * np.max(np.abs(want))
    guess = _with_edges(guess, b)
    keep, keepb = guess.copy(), b.copy()
    solver = multigrid.createVcycle(g["nx"], g["ny"], _generator(c), nlevels=c["levels"], ncycle=50, niter=40,
                                    direct=c["direct"])
    got = solver(guess, b)
    require(np.array_equal(keep, guess), "initial guess modified")
    require(np.array_equal(keepb, b), "right hand side modified")
    ctx.nontrivial(c["levels"] > 1 and g["nx"] % 2 == 1 and g["ny"] % 2 == 1)
    ctx.label("levels {}".format(c["levels"]))
    ctx.label("direct" if c["direct"] else "iterative")
    start = np.max(np.abs(keep - want))
    close(got, want, "solution after 50 cycles", atol=1e-4 * start + 1e-9 * np.max(np.abs(want)))


@st.composite
def smooth(draw):
    return {"g": draw(grid([17, 33])), "levels": draw(st.integers(2, 3)), "laplace": draw(st.booleans()),
            "a": draw(num(-0.5, 0.5, 2)), "b": draw(num(-0.5, 0.5, 2)), "sign": draw(st.sampled_from([1.0, -1.0])),
            "edge": draw(num(-1, 1, 2))}


@PROP.sub(smooth, quick=60, thorough=400, shards=(4, 8))
def one_cycle_removes_smooth_error(c, ctx):
    """This is what multigrid is for: single V-cycle, where Jacobi iterations alone do almost nothing"""
    from freegs import multigrid

    g = c["g"]
    x, y = np.meshgrid(np.linspace(0, 1, g["nx"]), np.linspace(0, 1, g["ny"]), indexing="ij")
    b = c["sign"] * np.sin(np.pi * x) * np.sin(np.pi * y) * (1 + c["a"] * x + c["b"] * y) * 10
    b = _with_edges(b, c["edge"] * (x + 2 * y) * 0.1)
    want = _reference(c, b)
    guess = _with_edges(c["edge"] * (x + 2 * y) * 0.1, b)
    ctx.nontrivial()
    start = np.max(np.abs(guess - want))
    solver = multigrid.createVcycle(g["nx"], g["ny"], _generator(c), nlevels=c["levels"], ncycle=1, niter=4, direct=True)
    err = np.max(np.abs(solver(guess, b) - want))
    require(err <= 0.15 * start, "error {:.3g} left of {:.3g} by a V-cycle", err, start)


@st.composite
def mesh(draw):
    nx, ny = draw(st.sampled_from([3, 5, 9, 17])), draw(st.sampled_from([3, 5, 9, 17]))
    return {"nx": nx, "ny": ny, "seed": draw(st.integers(0, 10 ** 6)), "c": [draw(num(-2, 2, 2)) for _ in range(3)]}


@PROP.sub(mesh, quick=100, thorough=500)
def transfer_between_grids(c, ctx):
    from freegs import multigrid

    nx, ny = c["nx"], c["ny"]
    ctx.nontrivial(nx != ny)
    # Coarsening keeps fields that are linear in position
    x, y = np.meshgrid(np.arange(2 * nx - 1) / 2.0, np.arange(2 * ny - 1) / 2.0, indexing="ij")
    fine = c["c"][0] + c["c"][1] * x + c["c"][2] * y
    got = multigrid.restrict(fine)
    require(got.shape == (nx, ny), "coarse shape {}", got.shape)
    close(got[1:-1, 1:-1], fine[2:-2:2, 2:-2:2], "coarse values", atol=1e-10)
    # Refining a field with zero edges is bilinear
    f = np.zeros((nx, ny))
    f[1:-1, 1:-1] = np.random.default_rng(c["seed"]).standard_normal((nx - 2, ny - 2))
    want = np.zeros((2 * nx - 1, 2 * ny - 1))
    want[::2, ::2] = f
    want[1::2, ::2] = (f[1:] + f[:-1]) / 2
    want[:, 1::2] = (want[:, 0:-1:2] + want[:, 2::2]) / 2
    close(multigrid.interpolate(f), want, "refined values", atol=1e-12)
    # Sizes which can't be halved are left alone
    odd = np.random.default_rng(c["seed"]).standard_normal((nx + 1, ny))
    close(multigrid.restrict(odd), odd, "size that can't be halved", atol=0)


@st.composite
def eq_case(draw):
    return {"g": draw(grid([9, 17])), "levels": draw(st.integers(1, 4)), "hagenow": draw(st.booleans()),
            "R0": draw(num(0.4, 0.6, 2)), "Z0": draw(num(-0.2, 0.2, 2)), "direct": draw(st.booleans())}


@PROP.sub(eq_case, quick=30, thorough=250, shards=(4, 8))
def equilibrium_solve(c, ctx):
    """An equilibrium using multigrid gets the flux of the direct second-order solver"""
    import freegs
    from freegs import boundary

    g = c["g"]

    class P:
        def fvac(self):
            return 1.0

    out = []
    for mg in (False, True):
        eq = freegs.Equilibrium(Rmin=g["Rmin"], Rmax=g["Rmax"], Zmin=-g["h"] / 2, Zmax=g["h"] / 2, nx=g["nx"],
                                ny=g["ny"], order=2,
                                boundary=boundary.freeBoundaryHagenow if c["hagenow"] else boundary.freeBoundary)
        if mg:
            eq.setSolverVcycle(nlevels=c["levels"], ncycle=40, niter=40, direct=c["direct"])
        L = g["Rmax"] - g["Rmin"]
        J = 1e6 * np.exp(-((eq.R - g["Rmin"] - c["R0"] * L) ** 2 / L ** 2 + (eq.Z / g["h"] - c["Z0"]) ** 2) / 0.03)
        eq.solve(P(), Jtor=J)
        out.append(eq.plasma_psi)
    ctx.nontrivial(c["levels"] > 1)
    ctx.label("Hagenow" if c["hagenow"] else "free")
    scale = np.max(np.abs(out[0]))
    close(out[1], out[0], "plasma flux", atol=2e-4 * scale)
