"""Seeded search, minimisation, replay and evidence for all checks."""
import copy
import gc
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 150          # CPU seconds for one run (typical: 0.1)


def _setup_env(scratch):
    import matplotlib
    matplotlib.use("Agg")
    matplotlib.rcParams["figure.max_open_warning"] = 0


class Hang(BaseException):
    pass


class Ctx:
    """What one simulated run reports."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.violations = []     # (class, message)
        self.known = []          # (finding id, message)
        self.probes = Counter()
        self.nontrivial = False
        self.trace = []
        self.world = None
        self.stats = Counter()
        self.fault_stats = Counter()

    def note(self, kid, msg):
        """A known finding was met."""
        self.known.append((kid, self._clean(msg)))

    def new_world(self, listing_seed=0):
        from sim import world as W
        self.close_world()
        self.world = W.fresh_world(self.scratch, listing_seed)
        return self.world

    def close_world(self):
        w, self.world = self.world, None
        if w is None:
            return
        w.uninstall()
        w.on = False
        self.trace += [self._clean(t) for t in w.trace]
        self.fault_stats += w.fault_stats
        self.stats["fault_points_passed"] += w.n_events
        self.stats["source_lines_traced"] += w.n_lines
        self.stats["processes"] += w.procs
        self.stats["simulated_ms"] += int(
            round((w.clock.now - 1_600_000_000.0) * 1000))
        if w.escapes:
            self.fail("escape", "mutation outside the working directory: "
                      + "; ".join(w.escapes[:3]))

    def fail(self, cls, msg):
        self.violations.append((cls, self._clean(msg)))

    def _clean(self, text):
        """Without what differs between runs of the same plan."""
        return str(text).replace(os.path.realpath(self.scratch) + "/run/disk",
                                 "<disk>")

    def probe(self, name, n=1):
        self.probes[name] += n


def load_check(pid):
    import importlib
    module = importlib.import_module("checks." + pid.lower())
    return module.CHECK


def in_repo(tb):
    from sim.world import REPO
    frames = traceback.extract_tb(tb)
    return any(os.path.dirname(f.filename) == REPO for f in frames)


def execute(check, plan, scratch):
    """Run one plan; a pure function of the plan and the code under test."""
    ctx = Ctx(scratch)
    # unreachable cycles go at the same place in every execution: between runs
    gc.disable()
    gc.collect()

    def alarm(signum, frame):
        raise Hang()
    old = signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        try:
            check.execute(plan, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
            if ctx.world is not None:
                ctx.close_world()
    except Hang:
        ctx.fail("hang", f"no progress within {CPU_LIMIT} s of CPU time")
    except Exception as e:
        if type(e).__name__ != "HarnessError" and in_repo(e.__traceback__):
            where = [f for f in traceback.extract_tb(e.__traceback__)
                     if os.path.dirname(f.filename) == _repo_dir()][-1]
            ctx.fail(f"unexpected-{type(e).__name__}",
                     f"{type(e).__name__}: {e} in {where.name}")
        else:
            raise
    return ctx


def _repo_dir():
    from sim.world import REPO
    return REPO


def trace_hash(ctx):
    text = "\n".join(ctx.trace) + json.dumps(ctx.violations)
    return hashlib.sha256(text.encode()).hexdigest()[:16]


def make_plan(check, seed, index):
    rng = random.Random(f"{seed}:{check.id}:{index}")
    plan = check.gen(rng)
    # plans live in JSON: what is executed is what a replay file contains
    return json.loads(json.dumps(plan))


_SCRATCH = None


def _worker_init():
    global _SCRATCH
    from sim import world as W
    _SCRATCH = W.make_scratch()
    _setup_env(_SCRATCH)
    W.repo()
    gc.collect()
    gc.freeze()
    import atexit
    atexit.register(shutil.rmtree, _SCRATCH, True)
    multiprocessing.util.Finalize(None, shutil.rmtree,
                                  args=(_SCRATCH, True), exitpriority=1)


def _worker(job):
    pid, seed, indices = job
    check = load_check(pid)
    out = []
    for i in indices:
        plan = make_plan(check, seed, i)
        try:
            ctx = execute(check, plan, _SCRATCH)
        except BaseException:
            out.append({"index": i, "harness": traceback.format_exc()})
            break
        out.append({
            "index": i, "violations": ctx.violations, "known": ctx.known,
            "hash": trace_hash(ctx), "nontrivial": ctx.nontrivial,
            "probes": dict(ctx.probes), "stats": dict(ctx.stats),
            "faults": dict(ctx.fault_stats),
            "trace": ctx.trace if i < 3 or ctx.violations else None})
    return out


def search(check, seed, runs, workers=None, stop_on_violation=True):
    workers = workers or os.cpu_count() or 4
    chunk = max(1, min(8, runs // (workers * 8) or 1))
    jobs = [(check.id, seed, list(range(a, min(a + chunk, runs))))
            for a in range(0, runs, chunk)]
    results = []
    ctx = multiprocessing.get_context("fork")
    with ProcessPoolExecutor(workers, mp_context=ctx,
                             initializer=_worker_init) as pool:
        # jobs are handed out in order, in waves: what is explored before a
        # violation stops the search does not depend on the worker count
        wave = 256 // chunk + 1
        for a in range(0, len(jobs), wave):
            for out in pool.map(_worker, jobs[a:a + wave]):
                results += out
            if any("harness" in r for r in results):
                break
            if stop_on_violation and any(r["violations"] for r in results):
                break
    results.sort(key=lambda r: r["index"])
    return results


# ------------------------------------------------------------- minimisation
def _ddmin(plan, key, test):
    items = plan[key]
    n = 2
    while len(items) >= 1:
        size = max(1, len(items) // n)
        reduced = False
        for a in range(0, len(items), size):
            candidate = dict(plan)
            candidate[key] = items[:a] + items[a + size:]
            if test(candidate):
                plan, items = candidate, candidate[key]
                n = max(n - 1, 2)
                reduced = True
                break
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return plan


def minimise(check, plan, cls, scratch, budget=40.0):
    deadline = time.monotonic() + budget
    tries = [0]

    def test(candidate):
        if time.monotonic() > deadline:
            return False
        tries[0] += 1
        try:
            ctx = execute(check, json.loads(json.dumps(candidate)), scratch)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            return False
        return any(c == cls for c, _ in ctx.violations)

    changed = True
    while changed and time.monotonic() < deadline:
        before = json.dumps(plan, sort_keys=True)
        for key in getattr(check, "lists", ("ops", "faults")):
            if plan.get(key):
                plan = _ddmin(plan, key, test)
        for candidate in check.simplify(copy.deepcopy(plan)):
            if time.monotonic() > deadline:
                break
            if test(candidate):
                plan = candidate
                break
        changed = json.dumps(plan, sort_keys=True) != before
    return plan, tries[0]


def write_replay(check, plan, cls, msg, ctx, seed, index):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    body = {"property": check.id, "class": cls, "message": msg,
            "found_with": {"VERIF_SEED": seed, "run": index},
            "trace_hash": trace_hash(ctx), "plan": plan, "trace": ctx.trace}
    key = hashlib.sha256(json.dumps([cls, plan], sort_keys=True)
                         .encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", f"{check.id}-{key}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def replay(path):
    from sim import world as W
    with open(path) as f:
        body = json.load(f)
    check = load_check(body["property"])
    scratch = W.make_scratch()
    _setup_env(scratch)
    try:
        ctx = execute(check, body["plan"], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return body, ctx


# --------------------------------------------------------------------- main
def known_ids(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["id"]: e for e in data.get("findings", [])
            if e["property"] == pid}


def run_check(pid, tier, seed, runs=None, workers=None):
    t0 = time.monotonic()
    print(f"{pid}: VERIF_SEED={seed} tier={tier}", flush=True)
    check = load_check(pid)
    runs = runs or check.runs[tier]
    results = search(check, seed, runs, workers)
    bad = [r for r in results if "harness" in r]
    if bad:
        print("HARNESS ERROR in run %d\n%s" % (bad[0]["index"],
                                               bad[0]["harness"]))
        return 2
    listed = known_ids(pid)
    known_hits, violations = Counter(), []
    known_msg = {}
    for r in results:
        for kid, msg in r["known"]:
            if kid in listed:
                known_hits[kid] += 1
                known_msg.setdefault(kid, msg)
            else:
                violations.append((r["index"], kid, msg))
        for cls, msg in r["violations"]:
            violations.append((r["index"], cls, msg))
    for kid in listed:
        print(f"KNOWN-FINDING: property={pid} {listed[kid]['what']} "
              f"[{kid}; met in {known_hits[kid]} runs]")
    code = 0
    reported = []
    if violations:
        code = _report(check, seed, violations, reported, listed)
    _evidence(check, tier, seed, results, violations, known_hits, reported,
              time.monotonic() - t0)
    print(f"{pid}: {len(results)} runs, {len(violations)} violations, "
          f"{time.monotonic() - t0:.1f} s")
    return code


def _report(check, seed, violations, reported, listed):
    from sim import world as W
    scratch = W.make_scratch()
    _setup_env(scratch)
    done = set()
    try:
        for index, cls, msg in violations:
            if cls in done or len(done) >= 3:
                continue
            done.add(cls)
            plan = make_plan(check, seed, index)
            plan, tries = minimise(check, plan, cls, scratch,
                                   budget=40.0 if len(done) == 1 else 15.0)
            ctx = execute(check, plan, scratch)
            found = [m for c, m in ctx.violations if c == cls]
            if not found:       # a known id that is not listed
                found = [m for c, m in ctx.known if c == cls] or [msg]
            path = write_replay(check, plan, cls, found[0], ctx, seed, index)
            out = subprocess.run(
                [sys.executable, os.path.join(VERIF, "run.py"), "--replay",
                 path], capture_output=True, text=True)
            again = "replay: reproduced exactly" in out.stdout
            print(f"  run {index}: {cls}: {found[0]}")
            print(f"  minimised in {tries} runs; replay "
                  + ("reproduces it exactly" if again
                     else "DIFFERS: " + out.stdout[-400:] + out.stderr[-400:]))
            for line in ctx.trace[-25:]:
                print("    " + line)
            print(f"VIOLATION property={check.id} replay={path}", flush=True)
            reported.append({"class": cls, "replay": path,
                             "replay_exact": again})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 1


def _evidence(check, tier, seed, results, violations, known_hits, reported,
              wall):
    faults, probes, stats = Counter(), Counter(), Counter()
    for r in results:
        faults.update(r["faults"])
        probes.update(r["probes"])
        stats.update(r["stats"])
    hashes = {r["hash"] for r in results if r["nontrivial"]}
    samples = []
    for r in results:
        if r.get("trace") and r["nontrivial"] and len(samples) < 2:
            samples.append({"run": r["index"], "plan": make_plan(
                check, seed, r["index"]), "trace": r["trace"][:60]})
    body = {
        "property": check.id, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(hashes),
            "rule": check.rule + " Distinct = different hash of the complete "
                    "event trace of the run (operations, outcomes, fault "
                    "positions); non-trivial = " + check.nontrivial_rule,
            "samples": samples,
            "seeds": [seed],
            "runs_per_hour": int(len(results) / max(wall, 1e-9) * 3600),
            "simulated_time_ms": stats["simulated_ms"],
            "simulated_processes": stats["processes"],
            "fault_points_passed": stats["fault_points_passed"],
            "source_lines_traced": stats["source_lines_traced"],
            "faults_injected": dict(sorted(faults.items())),
            "faults_total": sum(faults.values()),
            "reach_probes": dict(sorted(probes.items())),
            "known_finding_hits": dict(known_hits),
            "real_code": check.real,
            "stubs": check.stubs,
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if reported:
        body["coverage"]["reported"] = reported
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", check.id + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(body, f, indent=1)
    os.replace(path + ".tmp", path)


class BaseCheck:
    id = None
    runs = {"quick": 400, "thorough": 6000}
    rule = ""
    nontrivial_rule = "at least one fault fired."
    real = ["all modules of /repo, unmodified, compiled from the working tree",
            "numpy, matplotlib and CPython file objects and logging"]
    stubs = ["tqdm (counts progress bars)", "log clock (1 ms per record)",
             "file-system calls pass through a fault-injecting seam to a "
             "private directory"]
    assumptions = [
        "process-crash model: what a completed system call wrote survives, "
        "user-space buffers are lost (no power loss, no reordering)",
        "stat() never fails; files are damaged by truncation or removal, not "
        "by bit flips"]
    lists = ("ops", "faults")

    def simplify(self, plan):
        return iter(())
