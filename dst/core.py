"""Simulation driver: seeds -> scenarios -> isolated runs -> verdicts.

Every run is a pure function of its scenario (plain JSON: the workload, the schedule and
the faults) and of the code in /repo.  A run executes in a child forked from a pristine
parent, so no state leaks between runs and a replay needs nothing but the scenario.
"""
import gc
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import sim

REPO = os.environ.get("DST_REPO", "/repo")
OUT = os.environ.get("DST_OUT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(os.path.realpath(REPO), "jsgf") + os.sep
CPU_LIMIT = 25.0        # seconds of CPU per run; normal runs use well under one
MEM_LIMIT = 3 << 30     # bytes of address space per run
STOP_AFTER = 12         # violations after which a worker stops its share of a batch
SLOW_FACTOR = 4         # a run over the limit is repeated with this many times it
WALL_LIMIT = 240.0      # seconds of wall clock per run before it is a harness error

_real_time = time.time
_RealRandom = random.Random


class Violation(Exception):
    """The property does not hold.  cls is a short stable class name."""

    def __init__(self, cls, detail=""):
        super(Violation, self).__init__("%s: %s" % (cls, detail))
        self.cls, self.detail = cls, str(detail)


class Hang(BaseException):
    pass


def rng_for(*parts):
    return _RealRandom("/".join(str(p) for p in parts))


# ------------------------------------------------------------------ recorder
class Rec(object):
    """What one run records: an event log (digested), counters, fault counts, probes."""

    def __init__(self, keep=False):
        self.keep, self.events = keep, []
        self.h = hashlib.sha256()
        self.states = hashlib.sha256()
        self.n = 0
        self.steps = 0
        self.faults, self.probes = {}, {}
        self.nontrivial = False

    def log(self, *ev):
        s = json.dumps(ev, sort_keys=True, default=str, ensure_ascii=True)
        self.h.update(s.encode() + b"\n")
        self.n += 1
        if self.keep and len(self.events) < 4000:
            self.events.append(ev)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def step(self, n=1):
        self.steps += n

    def digest(self):
        return self.h.hexdigest()[:20]


# ------------------------------------------------------------- a single run
def import_jsgf():
    """Import the package under test from the working tree, random seam first."""
    sim.install_random()
    sim.install_locks()
    sys.path.insert(0, REPO)
    # No stale byte code.
    sys.pycache_prefix = os.environ.get("DST_PYC") or "/nonexistent/pycache"
    import jsgf
    import jsgf.ext
    import jsgf.parser  # noqa
    got = os.path.realpath(jsgf.__file__)
    if not got.startswith(LIB):
        raise RuntimeError("imported %s instead of the tree in %s" % (got, REPO))
    return jsgf


def in_library(tb):
    """True if the exception was raised while executing the library's own code (or
    code called from it), rather than by a mistake of the harness."""
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(LIB):
            return True
        tb = tb.tb_next
    return False


MISFITS = (TypeError, AttributeError, ValueError, LookupError, RecursionError,
           pickle.PicklingError, pickle.UnpicklingError)


def _on_cpu(signum, frame):
    raise Hang("CPU limit")


def execute(check, scn, keep=False, cpu=CPU_LIMIT):
    """Run a scenario in this process.  Returns a JSON-able result dict."""
    rec = Rec(keep)
    res = {"status": "ok"}
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        try:
            check.run(scn, rec)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            sys.settrace(None)
    except Violation as v:
        res = {"status": "violation", "cls": v.cls, "detail": v.detail[:1500]}
    except Hang:
        res = {"status": "violation", "cls": "no-progress",
               "detail": "the run used more than %d s of CPU" % cpu}
    except sim.Deadlock as e:
        res = {"status": "violation", "cls": "deadlock", "detail": str(e)}
    except BaseException as e:   # noqa
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        # The harness only handles what the library hands out: an object of another
        # shape (None where a list belongs, say) fails in the code that uses it.
        if in_library(e.__traceback__) or isinstance(e, MISFITS):
            res = {"status": "violation", "cls": "unexpected-%s" % type(e).__name__,
                   "detail": text[-1500:]}
        else:
            res = {"status": "harness", "cls": type(e).__name__,
                   "detail": text[-3000:]}
    res.update(digest=rec.digest(), n=rec.n, steps=rec.steps, faults=rec.faults,
               probes=rec.probes, nontrivial=bool(rec.nontrivial))
    if keep:
        res["events"] = rec.events
    return res


def run_isolated(check, scn, scratch, keep=False, cpu=CPU_LIMIT):
    """Fork, run one scenario inside its own scratch directory, return the result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
            d = tempfile.mkdtemp(dir=scratch)
            os.chdir(d)
            sim.set_root(d)
            res = execute(check, scn, keep, cpu)
            data = json.dumps(res, default=str).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:   # noqa
            try:
                os.write(2, traceback.format_exc().encode())
            except Exception:
                pass
            code = 9
        os._exit(code)
    os.close(w)
    chunks, deadline, timed_out = [], _real_time() + WALL_LIMIT, False
    while True:
        left = deadline - _real_time()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5))
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if timed_out:
        return {"status": "harness", "cls": "wall-timeout", "detail": "", "digest": "",
                "n": 0, "steps": 0, "faults": {}, "probes": {}, "nontrivial": False}
    try:
        return json.loads(b"".join(chunks).decode())
    except ValueError:
        return {"status": "harness", "cls": "child-died", "detail": "", "digest": "",
                "n": 0, "steps": 0, "faults": {}, "probes": {}, "nontrivial": False}


def pristine(fn):
    """The JSON-able result of fn(), computed in a child forked from this process, so
    that nothing it does is seen here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = {"ok": fn()}
            except BaseException as e:   # noqa
                lib = in_library(e.__traceback__)
                res = {"error": type(e).__name__, "lib": lib, "text": "".join(
                    traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
            data = json.dumps(res, default=str).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:   # noqa
            code = 9
        os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    res = json.loads(b"".join(chunks).decode())
    if "error" in res:
        if res["lib"]:
            raise Violation("unexpected-%s" % res["error"], res["text"])
        raise RuntimeError("in a child: " + res["text"])
    return res["ok"]


def clean(scratch):
    for n in os.listdir(scratch):
        shutil.rmtree(os.path.join(scratch, n), ignore_errors=True)


# -------------------------------------------------------------------- batch
def scenario(check, seed, i, tier):
    rng = rng_for(check.ID, seed, i)
    return check.gen(rng, {"i": i, "tier": tier})


def _worker(check, seed, tier, idxs, scratch, out):
    bad = 0
    for k, i in enumerate(idxs):
        try:
            scn = scenario(check, seed, i, tier)
            scn_txt = json.dumps(scn, sort_keys=True)
            scn = json.loads(scn_txt)
            res = run_isolated(check, scn, scratch)
        except Exception:
            res = {"status": "harness", "cls": "generator", "digest": "", "n": 0,
                   "steps": 0, "faults": {}, "probes": {}, "nontrivial": False,
                   "detail": traceback.format_exc()[-3000:]}
            scn_txt = ""
        if res.get("cls") == "no-progress":
            # Slow is not stuck: it has to use up several times the limit as well.
            slow = run_isolated(check, scn, scratch, cpu=SLOW_FACTOR * CPU_LIMIT)
            if slow["status"] != "violation":
                res = slow
                res["probes"]["slow-run"] = 1
        res["i"] = i
        res["scn"] = hashlib.sha256(scn_txt.encode()).hexdigest()[:20]
        out.write(json.dumps(res) + "\n")
        clean(scratch)
        bad += {"violation": 1, "harness": 1}.get(res["status"], 0)
        if res.get("cls") == "no-progress":
            bad += STOP_AFTER
        if bad >= STOP_AFTER:
            out.write(json.dumps({"stopped": i}) + "\n")
            break
    out.flush()


def batch(check, seed, tier, n, workers, base):
    """Run scenarios 0..n-1 on forked workers; results ordered by index.  The split
    over workers has no influence on any run."""
    procs = []
    for w in range(workers):
        scratch = os.path.join(base, "w%d" % w)
        os.makedirs(scratch, exist_ok=True)
        path = os.path.join(base, "out%d" % w)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                gc.freeze()
                with open(path, "w") as f:
                    _worker(check, seed, tier, range(w, n, workers), scratch, f)
            except BaseException:   # noqa
                traceback.print_exc()
                code = 9
            os._exit(code)
        procs.append((pid, path))
    bad = 0
    for pid, path in procs:
        _, st = os.waitpid(pid, 0)
        bad += st != 0
    results, stopped = [], False
    for _, path in procs:
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    try:
                        r = json.loads(line)
                    except ValueError:
                        bad += 1
                        continue
                    if "stopped" in r:
                        stopped = True
                    else:
                        results.append(r)
    results.sort(key=lambda r: r["i"])
    if bad or (len(results) != n and not stopped):
        results.append({"status": "harness", "cls": "worker-died", "i": n, "digest": "",
                        "detail": "%d of %d results" % (len(results), n), "n": 0,
                        "steps": 0, "faults": {}, "probes": {}, "nontrivial": False,
                        "scn": ""})
    return results


# ---------------------------------------------------------------- minimiser
def _paths(obj, pre=()):
    """Paths of every non-empty list in a scenario that may be shortened."""
    if isinstance(obj, dict):
        for k in sorted(obj):
            for p in _paths(obj[k], pre + (k,)):
                yield p
    elif isinstance(obj, list):
        if obj and not (pre and str(pre[-1]).startswith("_")):
            yield pre
        for i, x in enumerate(obj):
            for p in _paths(x, pre + (i,)):
                yield p


def _get(obj, path):
    for k in path:
        obj = obj[k]
    return obj


def minimise(check, scn, cls, scratch, max_runs=500, max_s=75.0):
    """Delta debugging over the lists of the scenario named in check.SHRINK (dotted
    prefixes), then check.simplify(scn) candidates; a candidate is kept only if the
    same violation class persists."""
    t0, runs = _real_time(), [0]
    keys = getattr(check, "SHRINK", ("ops",))

    def fails(cand):
        if runs[0] >= max_runs or _real_time() - t0 > max_s:
            return False
        runs[0] += 1
        res = run_isolated(check, cand, scratch)
        clean(scratch)
        return res["status"] == "violation" and res["cls"] == cls

    def shrink_list(cur, path):
        lst = _get(cur, path)
        size = max(1, len(lst) // 2)
        changed = False
        while size >= 1:
            i = 0
            while i < len(_get(cur, path)):
                cand = json.loads(json.dumps(cur))
                sub = _get(cand, path)
                del sub[i:i + size]
                if fails(cand):
                    cur, changed = cand, True
                else:
                    i += size
            size //= 2
        return cur, changed

    again = True
    while again and runs[0] < max_runs and _real_time() - t0 < max_s:
        again = False
        for key in keys:
            if key in scn:
                for path in list(_paths(scn[key], (key,))):
                    try:
                        lst = _get(scn, path)
                    except (KeyError, IndexError, TypeError):
                        continue
                    if isinstance(lst, list) and lst:
                        scn, ch = shrink_list(scn, path)
                        again = again or ch
        simp = getattr(check, "simplify", None)
        if simp:
            for cand in simp(json.loads(json.dumps(scn))):
                if json.dumps(cand, sort_keys=True) != \
                        json.dumps(scn, sort_keys=True) and fails(cand):
                    scn, again = cand, True
                    break
    return scn, runs[0]


# ------------------------------------------------------------ known findings
def known_findings(pid):
    """'finding: property=<id> class=<cls> match=<substring> :: text' lines."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    head, _, text = line.partition("::")
                    kv = dict(x.split("=", 1) for x in head.split()[1:])
                    out.append((kv.get("class"), kv.get("match", ""), text.strip()))
    return out


# --------------------------------------------------------------------- main
def run_check(check, tier, seed, n=None, workers=None):
    t0 = _real_time()
    n = n or check.RUNS[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    base = tempfile.mkdtemp(prefix="dst-%s-" % check.ID)
    try:
        return _run_check(check, tier, seed, n, workers, base, t0)
    finally:
        os.chdir(VERIF)
        shutil.rmtree(base, ignore_errors=True)


def _run_check(check, tier, seed, n, workers, base, t0):
    os.chdir(base)
    print("seed %d: property %s, %d simulated runs on %d workers (%s)" % (
        seed, check.ID, n, workers, tier))
    if hasattr(check, "prepare"):
        check.prepare(base, tier, seed)
    results = batch(check, seed, tier, n, workers, base)
    wall_search = _real_time() - t0
    harness = [r for r in results if r["status"] == "harness"]
    viols = [r for r in results if r["status"] == "violation"]
    known = known_findings(check.ID)
    fresh, seen_known = [], {}
    for r in viols:
        for cls, match, text in known:
            if r["cls"] == cls and match in r["detail"]:
                seen_known[text] = seen_known.get(text, 0) + 1
                break
        else:
            fresh.append(r)

    # Exact repeatability, measured on a sample of this very batch.
    ok_idx = [r for r in results if r["status"] == "ok"]
    step = max(1, len(ok_idx) // check.__dict__.get("RECHECK", 24))
    sample, mismatch = ok_idx[::step], 0
    scratch = os.path.join(base, "w0")
    for r in sample:
        again = run_isolated(check, json.loads(json.dumps(
            scenario(check, seed, r["i"], tier))), scratch)
        clean(scratch)
        mismatch += again["digest"] != r["digest"]

    faults, probes = {}, {}
    for r in results:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    nontriv = {r["scn"] for r in results if r["nontrivial"]}
    hours = max(wall_search, 1e-6) / 3600.0
    ev = {
        "property": check.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(nontriv),
            "rule": check.RULE,
            "samples": [scenario(check, seed, i, tier)
                        for i in ([r["i"] for r in results if r["nontrivial"]] or
                                  [0])[:2]],
            "simulated_runs": len(results),
            "seeds_per_hour": int(len(results) / hours),
            "simulated_steps": sum(r["steps"] for r in results),
            "events_recorded": sum(r["n"] for r in results),
            "simulated_time": "the code under test has no clock or timer; simulated "
                              "time is counted in steps (simulated_steps)",
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "probes_never_hit": [p for p in getattr(check, "PROBES", ())
                                 if not probes.get(p)],
            "distinct_event_logs": len({r["digest"] for r in results}),
            "distinct_measure": "distinct digests of complete event logs",
            "repeatability": {"rerun": len(sample), "different": mismatch},
            "components_real": check.REAL,
            "components_stub": check.STUB,
            "workers": workers,
        },
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": 0.0,
        "violations": len(fresh),
    }
    for text, k in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (check.ID, text, k))
    code = 0
    if fresh:
        code = 1
        first = fresh[0]
        scn = json.loads(json.dumps(scenario(check, seed, first["i"], tier)))
        print("run %d: %s: %s" % (first["i"], first["cls"], first["detail"][:600]))
        small, k = minimise(check, scn, first["cls"], scratch)
        final = run_isolated(check, small, scratch, keep=True)
        if final["status"] != "violation":
            small = scn
            final = run_isolated(check, small, scratch, keep=True)
        rdir = os.path.join(OUT, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-seed%d-run%d.json" % (check.ID, seed, first["i"]))
        with open(rp, "w") as f:
            json.dump({"property": check.ID, "seed": seed, "run": first["i"],
                       "violation": final.get("cls", first["cls"]),
                       "detail": final.get("detail", first["detail"]),
                       "digest": final.get("digest"), "scenario": small,
                       "minimiser_runs": k, "trace": final.get("events", [])},
                      f, indent=1, default=str)
        p = subprocess.run([sys.executable] + sys.argv[:1] +
                           [check.ID, "--replay", rp], cwd=VERIF,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        same = p.returncode == 1
        print("%d runs violate the property; minimised in %d runs to %s; fresh-process "
              "replay %s" % (len(fresh), k, rp,
                             "reproduces it" if same else "DID NOT reproduce it"))
        ev["coverage"]["violation"] = {"class": first["cls"], "replay": rp,
                                       "replay_confirmed": same}
        print("VIOLATION property=%s replay=%s" % (check.ID, rp))
    if harness:
        print("HARNESS ERROR in %d runs, first:\n%s: %s" % (
            len(harness), harness[0]["cls"], harness[0]["detail"]), file=sys.stderr)
        if not code:
            code = 2
    ev["wall_s"] = round(_real_time() - t0, 2)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", "%s.json" % check.ID), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d runs, %d distinct non-trivial, %.1f s, faults %s, exit %d" % (
        check.ID, len(results), len(nontriv), ev["wall_s"],
        ev["coverage"]["faults_injected"], code))
    if mismatch:
        print("warning: %d of %d re-runs recorded a different event log" % (
            mismatch, len(sample)))
    return code


def replay(check, path):
    with open(path) as f:
        data = json.load(f)
    base = tempfile.mkdtemp(prefix="dst-replay-")
    try:
        os.chdir(base)
        if hasattr(check, "prepare"):
            check.prepare(base, "replay", data.get("seed", 0))
        res = run_isolated(check, data["scenario"], base, keep=True)
    finally:
        os.chdir(VERIF)
        shutil.rmtree(base, ignore_errors=True)
    for ev in res.get("events", []):
        print(json.dumps(ev, default=str)[:300])
    print("%s %s %s" % (res["status"], res.get("cls", ""), res.get("detail", "")))
    if res["status"] == "violation":
        if data.get("digest") not in (None, res["digest"]):
            print("note: event log digest differs from the recorded one")
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    return 0 if res["status"] == "ok" else 2


def digests(check, tier, seed, n, workers):
    base = tempfile.mkdtemp(prefix="dst-dig-")
    try:
        os.chdir(base)
        if hasattr(check, "prepare"):
            check.prepare(base, tier, seed)
        for r in batch(check, seed, tier, n or 200, workers or 8, base):
            print(r["i"], r["status"], r["digest"])
    finally:
        os.chdir(VERIF)
        shutil.rmtree(base, ignore_errors=True)
    return 0
