"""
Common machinery: every property module registers "subs".  A sub is

    strategy  -> draws a plain JSON-able case (numbers, strings, lists, dicts)
    fn(case, ctx) -> runs the code under test on the case, compares with the
                 oracle and raises Violation when they disagree

Hypothesis drives the strategy, shrinks failures, and the shrunk case is
written as a replay file which fn() can run again without Hypothesis.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("FGS_REPO", "/repo"))
# Cases take a second at most: one that needs this long does not end
CASE_SECONDS = 100
BASELINE = os.path.join(HERE, "fgsverif", "baseline.json")
KNOWN = os.path.join(HERE, "known_findings.txt")


class Violation(Exception):
    """The code under test disagreed with the oracle"""


class Skip(Exception):
    """The case turned out to be outside the property's domain"""


class HarnessError(Exception):
    """Something in the check itself went wrong"""


class Ctx:
    """Handed to every case: collects classification"""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self._dir = None

    def label(self, name):
        self.labels.append(str(name))

    def nontrivial(self, yes=True):
        if yes:
            self.is_nontrivial = True

    def tmpdir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="fgsverif_")
        return self._dir

    def close(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, shards=(1, 8), rule=""):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.rule = rule


class Property:
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs = []

    def sub(self, strategy, quick, thorough, shards=(1, 8), rule=""):
        def deco(fn):
            self.subs.append(
                Sub(fn.__name__, strategy, fn, quick, thorough, shards, rule)
            )
            return fn

        return deco


def canonical(case):
    return json.dumps(case, sort_keys=True)


def run_case(sub, case, ctx):
    """
    Run one case. Returns normally, or raises Skip / Violation / HarnessError.

    An exception that the code under test raises on an input of the property's
    domain is a violation: a check that expects an exception catches it itself.
    """
    # The case is round-tripped so that what runs is exactly what is replayed
    case = json.loads(canonical(case))
    limit = CASE_SECONDS

    begin, cpu = time.time(), time.process_time()

    def too_long(signum, frame):
        if time.process_time() - cpu < 0.6 * limit and time.time() - begin < 4 * limit:
            # The machine is busy with other things
            signal.alarm(limit)
            return
        raise Violation("did not finish within {} s".format(limit))

    old = signal.signal(signal.SIGALRM, too_long)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()):
                sub.fn(case, ctx)
    except (Violation, Skip, HarnessError):
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        frames = traceback.extract_tb(e.__traceback__)
        inside = any(
            os.path.realpath(f.filename).startswith(os.path.join(REPO, "freegs"))
            for f in frames
        )
        text = "".join(traceback.format_exception_only(type(e), e)).strip()
        where = "{}:{}".format(os.path.basename(frames[-1].filename), frames[-1].lineno)
        # Outside of the code, it is an answer which can't be made sense of, unless the
        # surroundings or the check itself are what failed
        if inside or not isinstance(e, (OSError, ImportError, NameError)):
            raise Violation("raised {} at {}".format(text, where)) from e
        raise HarnessError(
            "".join(traceback.format_exception(type(e), e, e.__traceback__))
        ) from e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        ctx.close()


def _seed_for(seed, pid, sub, shard):
    h = hashlib.sha256("{}/{}/{}/{}".format(seed, pid, sub, shard).encode()).digest()
    return int.from_bytes(h[:8], "big")


def load(pid):
    mod = importlib.import_module("fgsverif.props." + pid.lower())
    return mod.PROP


def note_skip(res, why, case):
    d = res["skips"].setdefault(why, {"n": 0, "cases": []})
    d["n"] += 1
    # Spread over the run
    if len(d["cases"]) < 6:
        d["cases"].append(json.loads(canonical(case)))
    else:
        d["cases"][d["n"] % 6] = json.loads(canonical(case))


def unusual_skips(pid, results):
    """Cases can turn out to be outside the domain of a property because of what the
    code under test does (no axis, not converged). The code is expected to work on as
    large a part of the generated cases as it did when baseline.json was made.
    Returns [(sub, message, cases)]"""
    try:
        with open(BASELINE) as f:
            base = json.load(f).get(pid, {})
    except FileNotFoundError:
        return []
    found = []
    for sub in sorted({r["sub"] for r in results}):
        n = sum(r["evaluations"] for r in results if r["sub"] == sub)
        if n < 16 or sub not in base:
            continue
        count, cases = {}, {}
        for r in results:
            if r["sub"] == sub:
                for why, d in r.get("skips", {}).items():
                    count[why] = count.get(why, 0) + d["n"]
                    cases.setdefault(why, []).extend(d["cases"][-2:])
        total = sum(count.values())
        usual = base[sub]
        for why, k in sorted(count.items(), key=lambda x: -x[1]):
            p = usual.get(why, 0.0)
            q = usual.get("*", 0.0)
            # A reason which is much more frequent, and more cases are left out altogether
            if k / n > allowed(p, n) and total / n > allowed(q, n):
                found.append((sub, "{} of {} generated cases can't be used ({}), {:.0f} % is usual".format(k, n, why, 100 * p), {"why": why, "cases": cases[why][:8]}))
                break
    return found


def allowed(p, n):
    return p + 0.15 + 5 * (p * (1 - p) / n) ** 0.5


def _job(pid, subname, tier, seed, shard, nshards, outfile):
    """Worker process: run one shard of one sub and write a JSON result"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 40 if tier == "quick" else 120
    # (its message about having stopped)
    engine.report = lambda *a, **k: None

    res = {
        "sub": subname,
        "evaluations": 0,
        "skipped": 0,
        "skips": {},
        "nontrivial": [],
        "labels": {},
        "samples": [],
        "violation": None,
        "error": None,
    }
    try:
        prop = load(pid)
        sub = [s for s in prop.subs if s.name == subname][0]
        total = sub.quick if tier == "quick" else sub.thorough
        n = max(1, -(-total // nshards))
        seen = set()
        state = {"last": None}
        strategy = sub.strategy() if callable(sub.strategy) else sub.strategy

        @hypothesis.seed(_seed_for(seed, pid, subname, shard))
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            print_blob=False,
        )
        @given(strategy)
        def test(case):
            ctx = Ctx()
            if state["last"] is None:
                if time.time() - t0 > budget:
                    res["cut_short"] = True
                    return
                res["evaluations"] += 1
            try:
                run_case(sub, case, ctx)
            except Skip as why:
                if state["last"] is None:
                    res["skipped"] += 1
                    note_skip(res, str(why), case)
                hypothesis.reject()
            except Violation as v:
                state["last"] = (json.loads(canonical(case)), str(v))
                raise
            if state["last"] is None:
                for lab in set(ctx.labels):
                    res["labels"][lab] = res["labels"].get(lab, 0) + 1
                if ctx.is_nontrivial:
                    h = hashlib.sha256(canonical(case).encode()).hexdigest()[:16]
                    if h not in seen:
                        seen.add(h)
                        if len(res["samples"]) < 3:
                            res["samples"].append({"sub": subname, "case": case})

        t0 = time.time()
        budget = float(os.environ.get("FGS_BUDGET", 150 if tier == "quick" else 3600))
        try:
            test()
        except Violation as v:
            case, msg = state["last"]
            res["violation"] = {"case": case, "message": msg}
        except hypothesis.errors.Flaky as v:
            # A failure which did not repeat when Hypothesis re-ran it
            if state["last"] is not None:
                case, msg = state["last"]
                ok = _confirm(sub, case)
                if ok is None:
                    res["error"] = "flaky: " + msg + "\n" + str(v)
                else:
                    res["violation"] = {"case": case, "message": ok}
            else:
                res["error"] = str(v)
        except hypothesis.errors.Unsatisfiable as v:
            # Every case was skipped: see unusual_skips
            if not res["skipped"]:
                res["error"] = "unsatisfiable: " + str(v)
        res["nontrivial"] = sorted(seen)
        res["wall"] = time.time() - t0
    except BaseException as e:  # noqa
        res["error"] = "".join(
            traceback.format_exception(type(e), e, e.__traceback__)
        )
    with open(outfile, "w") as f:
        json.dump(res, f)


def _confirm(sub, case):
    """Run a case again, twice; its message if it fails both times, else None"""
    msg = None
    for _ in range(2):
        try:
            run_case(sub, case, Ctx())
            return None
        except Violation as v:
            msg = str(v)
        except Skip:
            return None
    return msg


def known_findings(pid):
    """Entries 'KNOWN-FINDING: property=<id> key=<key> <text>' of the committed file"""
    found = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property={} ".format(pid)):
                found.append(line)
    return found


def replay(path):
    with open(path) as f:
        data = json.load(f)
    prop = load(data["property"])
    sub = [s for s in prop.subs if s.name == data["sub"]][0]
    if isinstance(data["case"], dict) and "skipped" in data["case"]:
        # A set of cases nearly all of which could be used
        sample = data["case"]["skipped"]
        left = 0
        for case in sample["cases"]:
            try:
                run_case(sub, case, Ctx())
            except Skip as s:
                left += str(s) == sample["why"]
            except Violation:
                pass
        print("{} of {} cases can't be used: {}".format(left, len(sample["cases"]), sample["why"]))
        if left == len(sample["cases"]):
            print("VIOLATION property={} replay={}".format(data["property"], path))
            return 1
        return 0
    try:
        run_case(sub, data["case"], Ctx())
    except Skip as s:
        print("case is outside the domain: {}".format(s))
        return 0
    except Violation as v:
        print("{}".format(v))
        print("VIOLATION property={} replay={}".format(data["property"], path))
        return 1
    print("case passes")
    return 0


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--sub")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)

    if args.selftest:
        import freegs
        import hypothesis

        print("freegs from {}, hypothesis {}".format(os.path.dirname(freegs.__file__), hypothesis.__version__))
        return 0
    if args.replay:
        return replay(args.replay)

    pid = args.property
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1

    t0 = time.time()
    try:
        prop = load(pid)
        import freegs

        if not os.path.realpath(freegs.__file__).startswith(REPO):
            print("freegs was imported from {}".format(freegs.__file__))
            return 3
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        traceback.print_exc()
        return 3

    work = tempfile.mkdtemp(prefix="fgsverif_run_")
    try:
        jobs = []
        for sub in prop.subs:
            if args.sub and sub.name != args.sub:
                continue
            sub.quick = max(1, int(sub.quick * args.scale))
            sub.thorough = max(1, int(sub.thorough * args.scale))
            nsh = sub.shards[0] if tier == "quick" else sub.shards[1]
            for shard in range(nsh):
                out = os.path.join(work, "{}_{}.json".format(sub.name, shard))
                jobs.append((sub.name, shard, nsh, out))

        mpctx = mp.get_context("fork")
        pending = list(jobs)
        running = []
        while pending or running:
            while pending and len(running) < args.jobs:
                sub, shard, nsh, out = pending.pop(0)
                p = mpctx.Process(
                    target=_job, args=(pid, sub, tier, seed, shard, nsh, out)
                )
                p.start()
                running.append((p, sub, out))
            time.sleep(0.02)
            running = [r for r in running if r[0].is_alive()]

        results = []
        for sub, shard, nsh, out in jobs:
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                results.append({"sub": sub, "error": "worker died", "evaluations": 0,
                                "skipped": 0, "skips": {}, "nontrivial": [], "labels": {},
                                "samples": [], "violation": None})
    finally:
        shutil.rmtree(work, ignore_errors=True)

    wall = time.time() - t0
    evaluations = sum(r["evaluations"] for r in results)
    nontrivial = set()
    for r in results:
        nontrivial.update(r["sub"] + ":" + h for h in r["nontrivial"])
    per_sub = {}
    for r in results:
        d = per_sub.setdefault(
            r["sub"],
            {"evaluations": 0, "outside_domain": 0, "nontrivial": 0, "labels": {}},
        )
        d["evaluations"] += r["evaluations"]
        d["outside_domain"] += r["skipped"]
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
    for key in nontrivial:
        per_sub[key.split(":")[0]]["nontrivial"] += 1
    samples = []
    taken = {}
    for r in results:
        for s in r["samples"]:
            if taken.get(r["sub"], 0) < 2:
                taken[r["sub"]] = taken.get(r["sub"], 0) + 1
                samples.append(s)
    violations = [r for r in results if r["violation"]]
    failing = {r["sub"] for r in violations}
    for sub, message, sample in unusual_skips(pid, results):
        if sub not in failing:
            violations.append({"sub": sub, "violation": {"case": {"skipped": sample}, "message": message}})
    skips = {}
    for r in results:
        for why, d in r.get("skips", {}).items():
            x = skips.setdefault(r["sub"], {})
            x[why] = x.get(why, 0) + d["n"]
    errors = [r for r in results if r["error"]]

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.rule,
            "samples": samples,
            "per_sub": per_sub,
            "outside_domain_because": skips,
            "cut_short": sorted({r["sub"] for r in results if r.get("cut_short")}),
            "sub_rules": {s.name: s.rule for s in prop.subs if s.rule},
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")

    for line in known_findings(pid):
        print(line)

    if args.v:
        for name, d in per_sub.items():
            w = max([r.get("wall", 0) for r in results if r["sub"] == name])
            print("{:28s} eval {:6d} skip {:5d} nontriv {:6d} wall {:6.1f}s {}".format(
                name, d["evaluations"], d["outside_domain"], d["nontrivial"], w,
                d["labels"]))

    for r in violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        body = {"property": pid, "sub": r["sub"], "case": r["violation"]["case"],
                "message": r["violation"]["message"]}
        h = hashlib.sha256(canonical(body).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", "{}_{}_{}.json".format(pid, r["sub"], h))
        with open(path, "w") as f:
            json.dump(body, f, indent=1, sort_keys=True)
            f.write("\n")
        print("{}: {}".format(r["sub"], r["violation"]["message"]))
        print("VIOLATION property={} replay={}".format(pid, path))
    for r in errors:
        print("ERROR in {}: {}".format(r["sub"], r["error"]))
    if violations:
        return 1
    if errors:
        return 2
    print("{}: held on {} cases ({} distinct non-trivial) in {:.1f}s".format(
        pid, evaluations, len(nontrivial), wall))
    return 0
