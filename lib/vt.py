"""Runner shared by all checks: drives generated cases, counts them, shrinks failures, writes evidence and replays.

A check module defines tests with @test(strategy, quick=N, thorough=M).  A test is a function f(case, t) where `case` is a
JSON value drawn from `strategy` and `t` a Recorder.  Raising Violation (or letting an exception escape that passed
through the code under test) is a violation of the property; any other exception is an error of the harness.
"""
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", ROOT)      # where evidence and replays go
SRC = os.path.join(REPO, "src")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.path.insert(0, SRC)
if HYP not in sys.path:
    sys.path.append(HYP)

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Violation(AssertionError):
    """The property does not hold for this case."""

    def __init__(self, msg, key=None):
        AssertionError.__init__(self, msg)
        self.key = key


def fail(msg, *args, key=None):
    raise Violation(msg.format(*args) if args else msg, key=key)


def check(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg.format(*args) if args else msg, key=key)


def eq(a, b, what, key=None):
    if a != b:
        raise Violation("{}: got {!r}, expected {!r}".format(what, a, b), key=key)


class Outcome:
    """What a call of the code under test did."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return "raised {}: {}".format(type(self.exc).__name__, self.exc) if self.exc is not None else "returned {!r}".format(
            self.value)


def attempt(func, *args, **kwargs):
    """Call the code under test where refusing with an exception is allowed."""
    try:
        return Outcome(func(*args, **kwargs))
    except Violation:
        raise
    except Exception as err:  # noqa
        if type(err).__module__.startswith("hypothesis"):
            raise
        return Outcome(exc=err)


class Test:
    def __init__(self, name, func, strategy, quick, thorough, shards, fixed):
        self.name, self.func, self.strategy = name, func, strategy
        self.quick, self.thorough, self.shards, self.fixed = quick, thorough, shards, fixed


REGISTRY = []


def test(strategy, quick=200, thorough=None, shards=None, fixed=()):
    """Register a generated test; `fixed` are cases always run first (regression seeds)."""

    def deco(func):
        REGISTRY.append(Test(func.__name__, func, strategy, quick, thorough or quick * 12, shards, list(fixed)))
        return func

    return deco


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self._labels = None
        self._case = None
        self.known = {}
        self.excluded = 0
        self.skipped = 0

    def start(self, case):
        self._case = case
        self._labels = set()
        self._nt = False
        self.evaluations += 1

    def label(self, *names):
        self._labels.update(str(n) for n in names)

    def nontriv(self, *labels):
        self._nt = True
        self.label(*labels)

    def finish(self):
        for lb in self._labels:
            self.labels[lb] = self.labels.get(lb, 0) + 1
        if self._nt:
            h = hashlib.sha256(json.dumps(self._case, sort_keys=True, default=repr).encode("utf-8", "surrogatepass")).hexdigest()[:16]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                n = len(self.nontrivial)
                if len(self.samples) < 2 or (len(self.samples) < 4 and n % 37 == 0):
                    self.samples.append(self._case)


def in_sut(tb):
    """Did the exception pass through the code under test?"""
    return any(os.path.realpath(f.filename).startswith(os.path.realpath(SRC) + os.sep) for f in traceback.extract_tb(tb))


def unreadable(err):
    """The provider or the oracle stumbled over a message or result that isn't of the expected form"""
    if isinstance(err, AttributeError):
        return isinstance(getattr(err, "obj", 0), (type(None), str, dict, list, tuple))
    return isinstance(err, (KeyError, IndexError, TypeError, ValueError))


def load_known(prop):
    """Known findings: lines 'finding: property=Cxx key=<key> <what fails>' in KNOWN_FINDINGS.txt."""
    res = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property={} key=".format(prop)):
                    rest = line.split("key=", 1)[1]
                    key, _, what = rest.partition(" ")
                    res[key] = what
    return res


def execute(tst, case, rec, known):
    """Run one case. Returns None or a Violation-like description."""
    rec.start(case)
    try:
        tst.func(case, rec)
    except Violation as v:
        rec.finish()
        if v.key and v.key in known:
            rec.known[v.key] = rec.known.get(v.key, 0) + 1
            return None
        return v
    except Exception as err:
        if type(err).__module__.startswith("hypothesis"):
            raise
        rec.finish()
        if in_sut(err.__traceback__):
            tail = traceback.extract_tb(err.__traceback__)
            last = [f for f in tail if os.path.realpath(f.filename).startswith(os.path.realpath(SRC))][-1]
            return Violation("unexpected {}: {} (from {}:{})".format(type(err).__name__, str(err)[:300],
                                                                     os.path.relpath(last.filename, REPO), last.lineno))
        if unreadable(err):
            last = traceback.extract_tb(err.__traceback__)[-1]
            return Violation("what was produced can't be read: {}: {} (at {}:{})".format(type(err).__name__, str(err)[:300],
                                                                                        os.path.basename(last.filename), last.lineno))
        raise
    rec.finish()
    return None


# seconds
SHRINKING = float(os.environ.get("VERIF_SHRINKING", "0")) or 60.0


class HarnessError(Exception):
    pass


def run_shard(tst, shard, n_examples, budget, seed, known):
    rec = Recorder()
    failing = {}
    t0 = time.time()
    harness = []

    def body(case):
        if not failing and time.time() - t0 > budget:
            rec.skipped += 1
            return
        if harness:
            return
        if failing and time.time() - failing["since"] > SHRINKING and json.loads(json.dumps(case)) != failing["case"]:
            return      # small enough
        try:
            v = execute(tst, case, rec, known)
        except Exception as err:
            if type(err).__module__.startswith("hypothesis"):
                raise
            harness.append(traceback.format_exc())
            raise HarnessError() from err
        if v is not None:
            failing["case"] = json.loads(json.dumps(case))
            failing["message"] = str(v)
            failing.setdefault("since", time.time())
            raise v

    error = None
    if shard == 0:
        for case in tst.fixed:
            try:
                v = execute(tst, case, rec, known)
            except Exception:
                harness.append(traceback.format_exc())
                break
            if v is not None:
                failing["case"], failing["message"] = case, str(v)
                break
    if not failing and not harness:
        runner = settings(max_examples=n_examples, database=None, deadline=None, derandomize=False,
                          report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                          suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                 HealthCheck.large_base_example],
                          print_blob=False, verbosity=hypothesis.Verbosity.quiet)(
            hypothesis.seed(seed * 1009 + shard * 7 + 1)(given(tst.strategy)(body)))
        try:
            runner()
        except BaseException as err:
            if isinstance(err, (KeyboardInterrupt, SystemExit)):
                raise
            if harness:
                error = harness[0]
            elif failing:
                pass
            else:
                error = "".join(traceback.format_exception(type(err), err, err.__traceback__))
    elif harness:
        error = harness[0]
    return {"test": tst.name, "shard": shard, "failing": failing or None, "error": error,
            "evaluations": rec.evaluations, "nontrivial": sorted(rec.nontrivial), "labels": rec.labels,
            "samples": rec.samples, "known": rec.known, "skipped": rec.skipped, "wall": time.time() - t0}


def _worker(conn, tst, shard, n, budget, seed, known):
    try:
        sys.stdout = open(os.devnull, "w")
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        import logging
        logging.disable(logging.CRITICAL)
        conn.send(run_shard(tst, shard, n, budget, seed, known))
    except BaseException:
        conn.send({"test": tst.name, "shard": shard, "failing": None, "error": traceback.format_exc(), "evaluations": 0,
                   "nontrivial": [], "labels": {}, "samples": [], "known": {}, "skipped": 0, "wall": 0})
    finally:
        conn.close()


def run_jobs(jobs, nproc):
    """jobs: list of (tst, shard, n, budget, seed, known). Fork one process per job."""
    ctx = multiprocessing.get_context("fork")
    pending, running, results = list(jobs), [], []
    while pending or running:
        while pending and len(running) < nproc:
            job = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=(b,) + job)
            p.start()
            b.close()
            running.append((p, a, job))
        ready = multiprocessing.connection.wait([a for _, a, _ in running], timeout=5)
        still = []
        for p, a, job in running:
            if a in ready:
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append({"test": job[0].name, "shard": job[1], "failing": None,
                                    "error": "worker died without an answer", "evaluations": 0, "nontrivial": [],
                                    "labels": {}, "samples": [], "known": {}, "skipped": 0, "wall": 0})
                p.join()
            else:
                still.append((p, a, job))
        running = still
    return results


def short(obj, n=1500):
    s = json.dumps(obj, default=repr, ensure_ascii=True)
    return obj if len(s) <= n else s[:n] + "..."


def main(prop, module):
    import multiprocessing.connection  # noqa
    t0 = time.time()
    import oidcrp
    if not os.path.realpath(oidcrp.__file__).startswith(os.path.realpath(SRC)):
        print("ERROR: code under test is not {}".format(SRC))
        return 2
    known = load_known(prop)
    tests = list(REGISTRY)

    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            rp = json.load(f)
        tst = [x for x in tests if x.name == rp["test"]][0]
        v = execute(tst, rp["case"], Recorder(), {})
        if v is None:
            print("replay: the property holds for this case")
            return 0
        print("replay: {}".format(v))
        print("VIOLATION property={} replay={}".format(prop, sys.argv[3]))
        return 1

    only = os.environ.get("VERIF_ONLY")
    if only:
        tests = [x for x in tests if x.name in only.split(",")]
    nproc = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 2)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", "0")) or (150.0 if TIER == "quick" else 1500.0)
    jobs = []
    for tst in tests:
        total = int((tst.quick if TIER == "quick" else tst.thorough) * scale) or 1
        shards = tst.shards or max(1, min(nproc, total // 40))
        for s in range(shards):
            jobs.append((tst, s, max(1, total // shards), budget, SEED, known))
    # interleave so that long tests start early
    jobs.sort(key=lambda j: (j[1], tests.index(j[0])))
    results = run_jobs(jobs, nproc)

    # known findings: run their recorded cases
    kf_lines, kf_count = [], {}
    for key, what in sorted(known.items()):
        path = os.path.join(ROOT, "known", "{}-{}.json".format(prop, key))
        still = any(key in r["known"] for r in results)
        if not still and os.path.exists(path):
            with open(path) as f:
                kc = json.load(f)
            tst = [x for x in REGISTRY if x.name == kc["test"]][0]
            rec = Recorder()
            execute(tst, kc["case"], rec, known)
            still = key in rec.known
        kf_count[key] = sum(r["known"].get(key, 0) for r in results)
        if still:
            kf_lines.append("KNOWN-FINDING: property={} {} ({})".format(prop, what, key))

    errors = [r for r in results if r["error"]]
    failing = [r for r in results if r["failing"]]
    evaluations = sum(r["evaluations"] for r in results)
    nontriv = set()
    labels, samples, per_test = {}, [], {}
    for r in results:
        nontriv.update(r["test"] + ":" + h for h in r["nontrivial"])
        pt = per_test.setdefault(r["test"], {"evaluations": 0, "skipped_for_time": 0, "labels": {}})
        pt["evaluations"] += r["evaluations"]
        pt["skipped_for_time"] += r["skipped"]
        for k, v in r["labels"].items():
            pt["labels"][k] = pt["labels"].get(k, 0) + v
    seen = {}
    for r in results:
        for s in r["samples"]:
            if seen.get(r["test"], 0) < 2:
                seen[r["test"]] = seen.get(r["test"], 0) + 1
                samples.append({"test": r["test"], "case": short(s)})
    for name, pt in per_test.items():
        pt["distinct_nontrivial"] = sum(1 for h in nontriv if h.startswith(name + ":"))
        pt["labels"] = dict(sorted(pt["labels"].items()))
    evidence = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(nontriv), "rule": module.RULE,
                     "samples": samples, "per_test": per_test, "known_findings_hit": kf_count},
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(failing)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write("\n")

    for line in kf_lines:
        print(line)
    if failing:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        done = set()
        for r in sorted(failing, key=lambda r: len(json.dumps(r["failing"]["case"]))):
            if r["test"] in done:
                continue
            done.add(r["test"])
            body = {"property": prop, "test": r["test"], "case": r["failing"]["case"], "message": r["failing"]["message"],
                    "how": "./run_check {} --replay <this file>".format(prop)}
            h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(OUT, "replays", "{}-{}-{}.json".format(prop, r["test"], h))
            with open(path, "w") as f:
                json.dump(body, f, indent=1)
            print("{}: {}".format(r["test"], r["failing"]["message"][:1500]))
            print("   case: {}".format(json.dumps(r["failing"]["case"])[:1500]))
            print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    if errors:
        for r in errors[:3]:
            print("HARNESS ERROR in {} shard {}:\n{}".format(r["test"], r["shard"], r["error"][-4000:]))
        return 2
    print("{}: ok, {} cases, {} distinct non-trivial, {:.1f} s".format(prop, evaluations, len(nontriv), time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(per_test, indent=1))
    return 0
