"""C26: optimisation"""
import copy
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from .. import coils, plasma
from ..gen import num
from ..runner import Property, Skip
from ..util import close, require
from . import c23

PROP = Property(
    "C26",
    "differential evolution of 1-4 numbers with any population (4-9), crossover and weight, some scores infinite, with and without limits and monitor, from any random state; designs of tokamaks with one or two coils to move; "
    "measures of random machines; non-trivial = at least two generations or controls (numbers), a coil moved (designs)",
    ["scores are numbers (not NaN)"],
)


class Index:
    def __init__(self, k, low=None, high=None):
        self.k, self.low, self.high = k, low, high

    def set(self, obj, value):
        if self.low is not None:
            value = min(max(value, self.low), self.high)
        obj["x"][self.k] = value

    def get(self, obj):
        return obj["x"][self.k]


@st.composite
def numbers(draw):
    n = draw(st.integers(1, 4))
    return {
        "start": [draw(st.one_of(num(-3, 3, 2), st.just(0.0), num(100, 1000, 0))) for _ in range(n)],
        "target": [draw(num(-3, 3, 2)) for _ in range(n)], "N": draw(st.integers(4, 9)), "maxgen": draw(st.integers(0, 6)),
        "CR": draw(st.one_of(st.sampled_from([0.0, 1.0, 0.3]), num(0, 1, 2))), "F": draw(st.one_of(st.sampled_from([1.0, 0.5]), num(0.1, 2, 2))),
        "limits": draw(st.booleans()), "monitor": draw(st.booleans()), "seed": draw(st.integers(0, 2 ** 31)), "infinite": draw(st.sampled_from([0, 0, 3])),
        "extra": draw(st.booleans()), "flat": draw(st.sampled_from([False, False, True])),
    }


@PROP.sub(numbers, quick=300, thorough=5000)
def evolution(c, ctx):
    from freegs import optimiser

    n, N = len(c["start"]), c["N"]
    start = {"x": list(c["start"]), "other": [1, 2]}
    lim = (min(c["start"]) - 1, max(c["start"]) + 1) if c["limits"] else (None, None)
    controls = [Index(k, *lim) for k in range(n)]
    seen = []  # every object measured
    gens = []

    def score(x):
        s = sum((a - b) ** 2 for a, b in zip(x, c["target"]))
        if c["infinite"] and int(abs(x[0]) * 1000) % c["infinite"] == 1:
            return float("inf")
        return float(int(s)) if c["flat"] else s

    def measure(obj):
        require(obj["other"] == [1, 2], "object has lost its other parts: {}", obj)
        seen.append(list(obj["x"]))
        return score(obj["x"])

    def monitor(generation, best, population):
        gens.append((generation, best[0], list(best[1]["x"]), [(s, list(o["x"])) for s, o in population], len(seen)))

    np.random.seed(c["seed"])
    kw = dict(maxgen=c["maxgen"], N=N, CR=c["CR"], F=c["F"])
    result = optimiser.optimise(start, controls, measure, monitor=monitor if c["monitor"] else None, **kw)
    ctx.nontrivial(c["maxgen"] > 1 and n > 1)
    ctx.label("{} controls".format(n))
    require(start == {"x": c["start"], "other": [1, 2]}, "starting object has been changed to {}", start)
    require(len(seen) == N * (1 + c["maxgen"]), "{} objects measured, expected {} generations of {}", len(seen), c["maxgen"] + 1, N)
    scores = [score(x) for x in seen]
    require(score(result["x"]) == min(scores), "result {} has score {}, although {} was found", result, score(result["x"]), min(scores))
    require(seen[0] == c["start"], "starting object hasn't been measured")
    for x in seen[1:N]:
        for a, b in zip(x, c["start"]):
            if abs(b) > 1e-3 and not (c["limits"] and abs(b) > 19):
                require(abs(a / b - 1) <= 0.05 + 1e-12, "{} in the first population, starting from {}", a, b)
        for k, (a, b) in enumerate(zip(x, c["start"])):
            require(a != b or c["limits"], "control {} isn't varied", k)
    if c["limits"]:
        for x in seen[1:]:
            for a in x:
                require(lim[0] <= a <= lim[1], "{} outside limits {}", a, lim)
    # The random numbers aren't used in any other way
    np.random.seed(c["seed"])
    first = list(seen)
    seen.clear()
    kept, gens[:] = list(gens), []
    again = optimiser.optimise(copy.deepcopy(start), controls, measure, monitor=None if c["monitor"] else monitor, **kw)
    require(again == result and seen == first, "another result from the same random numbers")
    gens = kept or gens
    # Each generation
    require([g[0] for g in gens] == list(range(c["maxgen"])), "monitor called for generations {}", [g[0] for g in gens])
    pop = [(score(x), x) for x in seen[:N]]
    for g, (_, bs, bx, after, count) in enumerate(gens):
        trials = seen[N * (g + 1): N * (g + 2)]
        require(count == N * (g + 2), "monitor called after {} measurements", count)
        require(len(after) == N, "population of {}", len(after))
        require(bs == score(bx) == min(scores[: N * (g + 2)]), "generation {}: best is {} with score {}, although {} was found", g, bx, bs, min(scores[: N * (g + 2)]))
        for i in range(N):
            new = (score(trials[i]), trials[i])
            want = new if new[0] < pop[i][0] else pop[i]
            require(after[i] == want, "generation {}: agent {} tried as {} becomes {}", g, pop[i], new, after[i])
            require(any(fits(pop[i][1], trials[i], t, c, lim) for t in itertools.permutations([pop[j][1] for j in range(N) if j != i], 3)),
                    "generation {}: {} isn't {} with {} controls set to a + F(b - c) of three others of {}", g, trials[i], pop[i], {0.0: "one of its", 1.0: "all of its"}.get(c["CR"], "some"), pop)
        pop = after


def fits(old, new, others, c, lim):
    """Whether an agent and its trial differ as differential evolution with these others would have it"""
    x, y, z = others
    match = []
    for k in range(len(old)):
        v = x[k] + c["F"] * (y[k] - z[k])
        if c["limits"]:
            v = min(max(v, lim[0]), lim[1])
        match.append(abs(new[k] - v) <= 1e-12 * (abs(x[k]) + abs(y[k]) + abs(z[k])))
    other = [k for k in range(len(old)) if new[k] != old[k]]
    if not all(match[k] for k in other) or not any(match):
        return False
    if c["CR"] == 1.0:
        return all(match)
    return len(other) <= 1 or c["CR"] > 0


@PROP.sub(lambda: st.fixed_dictionaries({"N": st.integers(4, 9), "own": st.integers(0, 8), "m": st.integers(1, 3), "two": st.booleans(), "seed": st.integers(0, 2 ** 31)}), quick=40, thorough=500)
def picking(c, ctx):
    from freegs import optimiser

    N = c["N"]
    e = [c["own"] % N] + ([(c["own"] + 2) % N] if c["two"] and N > 5 else [])
    np.random.seed(c["seed"])
    ctx.nontrivial()
    n = 1500
    count = np.zeros((c["m"], N))
    for _ in range(n):
        got = list(optimiser.pickUnique(N, c["m"], list(e)))
        require(len(got) == c["m"] and len(set(got)) == c["m"] and not set(got) & set(e) and all(0 <= k < N for k in got), "pickUnique({}, {}, {}) gives {}", N, c["m"], e, got)
        for pos, k in enumerate(got):
            count[pos, k] += 1
    p = 1.0 / (N - len(e))
    sd = math.sqrt(n * p * (1 - p)) or 1
    for pos in range(c["m"]):
        for k in range(N):
            if k not in e:
                # Eight standard deviations
                require(abs(count[pos, k] - n * p) <= 8 * sd, "index {} picked {} times out of {} as number {}, expected about {:.0f}", k, int(count[pos, k]), n, pos, n * p)


@st.composite
def measure_case(draw):
    return {"f": draw(c23.force_case()), "w": [draw(num(-3, 3, 2)) for _ in range(3)], "scale": draw(num(0.5, 3.5, 2))}


@PROP.sub(measure_case, quick=120, thorough=1500)
def measures(cc, ctx):
    from freegs import machine as m, optimise

    spec = cc["f"]["coils"]
    c = cc["f"]["c"]
    want = c23.expected(spec, c)
    tok = m.Machine([(n, c23.build(s)) for n, s in spec])
    eq = plasma.make(c, tok)
    ctx.nontrivial(len(spec) > 1)
    I = max(abs(s["I"]) for _, s in spec)
    require(optimise.max_abs_coil_current(eq) == I, "largest current is {}, expected {}", optimise.max_abs_coil_current(eq), I)
    sizes = [(math.hypot(*f), 1.5 * t) for f, t in want.values()] or [(0.0, 0.0)]
    F = float(optimise.max_coil_force(eq))
    lo, hi = max(a - b for a, b in sizes), max(a + b for a, b in sizes)
    require(lo * (1 - 1e-6) <= F <= hi * (1 + 1e-6), "largest force is {}, expected {}", F, max(sizes))
    w = cc["w"]
    total = optimise.weighted_sum((optimise.max_abs_coil_current, w[0]), (lambda e: 2.5 if e is eq else None, w[1]), optimise.max_coil_force, (optimise.max_coil_force, w[2]))(eq)
    close(float(total), w[0] * I + 2.5 * w[1] + F * (1 + w[2]), "weighted sum", rtol=1e-12, atol=1e-12 * (abs(w[0] * I) + abs(F)))
    close(optimise.weighted_sum(optimise.max_abs_coil_current)(eq), I, "sum of one", rtol=1e-14)
    # Controls
    for (name, s), coil in zip(spec, [k for _, k in tok.coils]):
        if s["t"] in ("coil", "shaped"):
            for cls, attr in ((optimise.CoilRadius, "R"), (optimise.CoilHeight, "Z")):
                old = getattr(coil, attr)
                other = {"R": "Z", "Z": "R"}[attr]
                keep = getattr(coil, other)
                ctl = cls(name)
                close(ctl.get(eq), old, "control of {}".format(attr))
                for low, high in ((None, None), (old + 0.05, None), (None, old - 0.05), (old - 0.1, old + 0.1), (0.0, None), (None, 0.0)):
                    kw = {}
                    if low is not None:
                        kw["minimum"] = low
                    if high is not None:
                        kw["maximum"] = high
                    for v in (old, old + 0.2, old - 0.2):
                        if attr == "R" and ((low or 0.0) > v or min(v, 10 if high is None else high) <= 0.05):
                            if not (low and low > 0.05):
                                continue
                        cls(name, **kw).set(eq, v)
                        lo_ = low if low is not None else (0.0 if attr == "R" else -1e9)
                        hi_ = 1e9 if high is None else high
                        close(float(getattr(coil, attr)), min(max(v, lo_), hi_), "{} set to {} within {}".format(attr, v, kw))
                        close(float(getattr(coil, other)), keep, "other coordinate")
                ctl.set(eq, old)
                close(ctl.get(eq), old, "control of {}".format(attr), rtol=1e-12, atol=1e-12)


@PROP.sub(lambda: st.fixed_dictionaries({"c": plasma.analytic(), "wall": num(0.3, 1.6, 2), "shift": num(-0.2, 0.2, 2)}), quick=25, thorough=200)
def walls(cc, ctx):
    """Infinite if the plasma and the wall cross, else zero"""
    from freegs import machine as m, optimise
    from shapely.geometry import LineString, Polygon

    eq = plasma.build(cc["c"])
    plasma.diverted(eq)
    S = np.asarray(eq.separatrix())
    mid = S.mean(axis=0)
    k = cc["wall"]
    W = [[mid[0] + k * a * np.ptp(S[:, 0]) + cc["shift"] * np.ptp(S[:, 0]), mid[1] + k * b * np.ptp(S[:, 1])] for a, b in ((-1, -1), (1, -1.05), (1.1, 1), (-1, 1))]
    P, Q = Polygon(S), Polygon(W)
    if not P.is_valid:
        raise Skip("separatrix crosses itself")
    d = P.exterior.distance(Q.exterior)
    cross = P.exterior.intersects(Q.exterior)
    if not cross and d < 1e-3:
        raise Skip("just touching")
    if cross and min(max(0, P.difference(Q).area), max(0, P.intersection(Q).area)) < 1e-5:
        raise Skip("just touching")
    ctx.nontrivial()
    ctx.label("crosses" if cross else "clear")
    eq.tokamak.wall = m.Wall([p[0] for p in W], [p[1] for p in W])
    got = optimise.no_wall_intersection(eq)
    require(got == (float("inf") if cross else 0.0), "no_wall_intersection is {} when they {}", got, "cross" if cross else "don't cross")


@st.composite
def design_case(draw):
    c = draw(plasma.tokamak_case(sizes=(33,)))
    c["kind"], c["value"] = "paxis", 1e3
    return {"c": c, "N": 4, "maxgen": draw(st.integers(1, 2)), "seed": draw(st.integers(0, 2 ** 31)), "measure": draw(st.sampled_from(["current", "force", "sum"])),
            "two": draw(st.booleans()), "CR": draw(num(0.2, 1, 1)), "F": draw(num(0.5, 1, 1)), "limit": draw(st.booleans())}


@PROP.sub(design_case, quick=6, thorough=60)
def design(cc, ctx):
    """A better machine, in equilibrium"""
    from freegs import machine as m, optimise as opt

    c = cc["c"]
    eq, prof, constrain = plasma.solved(c, tokamak=plain())
    measure = {"current": opt.max_abs_coil_current, "force": opt.max_coil_force, "sum": opt.weighted_sum((opt.max_abs_coil_current, 2.0), opt.max_coil_force)}[cc["measure"]]
    lim = dict(minimum=1.7, maximum=1.8) if cc["limit"] else {}
    controls = [opt.CoilRadius("P2U", **lim)] + ([opt.CoilHeight("P2L")] if cc["two"] else [])
    before = measure(eq)
    places = [(n, k.R, k.Z) for n, k in eq.tokamak.coils]
    calls = []

    def mon(g, best, pop):
        calls.append((g, best[0], [s for s, _ in pop], best[1], measure(best[1])))

    np.random.seed(cc["seed"])
    best = opt.optimise(eq, controls, measure, maxgen=cc["maxgen"], N=cc["N"], CR=cc["CR"], F=cc["F"], monitor=mon)
    require([(n, k.R, k.Z) for n, k in eq.tokamak.coils] == places, "coils of the starting equilibrium have been moved")
    require([x[0] for x in calls] == list(range(cc["maxgen"])), "monitor called for generations {}", [x[0] for x in calls])
    final = measure(best)
    last = before * (1 + 1e-2)
    for g, s, pop, b, now in calls:
        require(s <= last and s <= min(pop) + 1e-9 * abs(s), "best score {} in generation {}, was {}, population {}", s, g, last, pop)
        close(float(now), float(s), "score of the best", rtol=1e-9)
        last = s
    close(float(final), float(last), "score of the result", rtol=1e-9)
    # An equilibrium of the machine with the coils where they are now
    moved = best.tokamak["P2U"].R != dict((n, r) for n, r, z in places)["P2U"] or best.tokamak["P2L"].Z != dict((n, z) for n, r, z in places)["P2L"]
    ctx.nontrivial(moved)
    ctx.label("moved" if moved else "not moved")
    if cc["limit"] and moved:
        require(1.7 <= best.tokamak["P2U"].R <= 1.8 or best.tokamak["P2U"].R == dict((n, r) for n, r, z in places)["P2U"], "P2U moved to {}", best.tokamak["P2U"].R)
    fresh = m.Machine([(n, m.Coil(k.R, k.Z, current=k.current)) for n, k in best.tokamak.coils])
    want = fresh.psi(best.R, best.Z) + best.plasma_psi
    span = np.ptp(want)
    close(best.psi(), want, "flux of the result", rtol=1e-9, atol=1e-9 * span)
    close(float(best.plasmaCurrent()), c["sign"] * c["Ip"], "plasma current of the result", rtol=1e-6)
    # The control system keeps it as it is
    I = np.array(best.tokamak.controlCurrents())
    other = copy.deepcopy(best)
    other._constraints(other)
    close(np.array(other.tokamak.controlCurrents()), I, "currents when the control system is applied once more", atol=0.05 * np.max(np.abs(I)))


def plain():
    """The test tokamak with point coils"""
    from freegs import machine as m

    return m.Machine([("P1L", m.Coil(1.0, -1.1)), ("P1U", m.Coil(1.0, 1.1)), ("P2L", m.Coil(1.75, -0.6)), ("P2U", m.Coil(1.75, 0.6))])
