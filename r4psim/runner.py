"""Runs batches of simulated executions for one property, in forked workers, and reports.

Everything a run does is a function of (property, tier, VERIF_SEED, run index).
"""
import collections
import hashlib
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

from . import env
from .common import make_rng, HarnessError

VERIF = env.VERIF
RT = time.monotonic


def workload(name):
    return importlib.import_module("r4psim.workloads." + name)


def make_case(spec, seed, idx):
    w = workload(spec["wl"])
    rng = make_rng(spec["wl"], spec.get("focus"), seed, idx)
    case = w.gen(rng, spec.get("focus"))
    return json.loads(json.dumps(case))


def run_case(case):
    """Execute one case in this process; returns a JSON-able summary."""
    w = workload(case["wl"])
    try:
        res = w.execute(case)
    except HarnessError as e:
        return {"harness": str(e)}
    except Exception:
        return {"harness": traceback.format_exc()}
    out = {"fails": res.fails, "probes": res.probes, "evals": res.evals, "digest": res.digest,
           "steps": res.steps, "time": res.sim_time, "counts": dict(res.counts),
           "nontrivial": bool(res.nontrivial)}
    if res.fails:
        out["log"] = res.log
    if getattr(res, "outhash", None):
        out["outhash"] = res.outhash
    return out


# ---------------------------------------------------------------- endless executions
CPU = 25        # seconds of processor time for one execution; they take 0.01 to 3


def limit(secs=CPU):
    """End this process (SIGPROF) if what it executes now goes on and on without giving control
    back to the simulator.  Processor time, so that a busy machine makes no difference."""
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_PROF, secs)


def died(st):
    """The violation shown by a process that ended in the middle of an execution."""
    if not os.WIFSIGNALED(st):
        return ["*", "crash", "the process exited with %d" % os.WEXITSTATUS(st)]
    if os.WTERMSIG(st) == signal.SIGPROF:
        return ["*", "hang", "no end within %d s of processor time" % CPU]
    return ["*", "crash", "the process died with %s" % signal.Signals(os.WTERMSIG(st)).name]


# ---------------------------------------------------------------- isolated single runs
def run_isolated(case, timeout=150, cpu=CPU):
    """Execute a case in a forked child, so that a crash of native code is an observation."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            quiet()
            limit(cpu)
            data = json.dumps(run_case(case)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = RT() + timeout
    hung = False
    while True:
        left = end - RT()
        if left <= 0:
            hung = True
            break
        ok, _, _ = select.select([r], [], [], left)
        if not ok:
            hung = True
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if hung:
        return {"fails": [["*", "hang", "no end within %d s of processor time" % CPU]], "crash": True}
    if os.WIFSIGNALED(st):
        return {"fails": [died(st)], "crash": True}
    try:
        return json.loads(buf.decode())
    except ValueError:
        return {"fails": [["*", "crash", "the process exited without a result"]], "crash": True}


_devnull = None


def quiet():
    """Models and the library may print; a check's stdout is its report."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(fd, 2)
    os.close(fd)


# ---------------------------------------------------------------- batches
class Batch:
    def __init__(self, spec, seed, count, cap, workers=8, start=0, first_fail_stop=True, relevant=None):
        self.spec = spec
        self.seed = seed
        self.count = count
        self.cap = cap
        self.workers = workers
        self.start = start
        self.relevant = relevant
        self.results = {}
        self.stop_on_fail = first_fail_stop

    def _worker(self, shard, w):
        quiet()
        import gc
        gc.disable()
        n = 0
        out = os.fdopen(w, "wb", 0)
        for idx in shard:
            out.write(("S %d\n" % idx).encode())
            try:
                case = make_case(self.spec, self.seed, idx)
                limit()
                r = run_case(case)
                limit(0)
            except BaseException:
                r = {"harness": traceback.format_exc()}
            r.pop("log", None)
            out.write(("R %d %s\n" % (idx, json.dumps(r))).encode())
            n += 1
            if n % 40 == 0:
                gc.collect()
        out.write(b"E\n")
        out.close()
        os._exit(0)

    def _spawn(self, shard):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                self._worker(shard, w)
            finally:
                os._exit(3)
        os.close(w)
        return {"pid": pid, "fd": r, "buf": b"", "shard": shard, "cur": None, "last": RT(), "done": False}

    def run(self):
        t0 = RT()
        ids = list(range(self.start, self.start + self.count))
        # short shards: workers are recycled often, and work is spread evenly
        chunk = max(1, min(60, len(ids) // (self.workers * 4) or 1))
        shards = collections.deque(ids[i:i + chunk] for i in range(0, len(ids), chunk))
        live = {}
        stop = False
        while live or (shards and not stop):
            while shards and len(live) < self.workers and not stop:
                c = self._spawn(shards.popleft())
                live[c["fd"]] = c
            ok, _, _ = select.select(list(live), [], [], 1.0)
            for fd in ok:
                c = live[fd]
                d = os.read(fd, 1 << 18)
                if not d:
                    os.close(fd)
                    del live[fd]
                    _, st = os.waitpid(c["pid"], 0)
                    if not c["done"]:
                        cur = c["cur"]
                        rest = c["shard"]
                        if cur is not None:
                            self.results[cur] = {"fails": [died(st)], "crash": True}
                            rest = rest[rest.index(cur) + 1:]
                        if rest:
                            shards.appendleft(rest)
                    continue
                c["last"] = RT()
                c["buf"] += d
                *lines, c["buf"] = c["buf"].split(b"\n")
                for ln in lines:
                    if ln[:1] == b"S":
                        c["cur"] = int(ln[2:])
                    elif ln[:1] == b"R":
                        _, i, js = ln.split(b" ", 2)
                        self.results[int(i)] = json.loads(js)
                        c["cur"] = None
                    elif ln[:1] == b"E":
                        c["done"] = True
            for fd, c in list(live.items()):
                if RT() - c["last"] > 150 and not c["done"]:
                    os.kill(c["pid"], signal.SIGKILL)
                    os.waitpid(c["pid"], 0)
                    os.close(fd)
                    del live[fd]
                    cur = c["cur"]
                    if cur is not None:
                        self.results[cur] = {"fails": [["*", "hang", "no end within %d s of processor time" % CPU]], "crash": True}
                        rest = c["shard"][c["shard"].index(cur) + 1:]
                        if rest:
                            shards.appendleft(rest)
            if RT() - t0 > self.cap:
                # no more executions, but those under way are seen to their end
                shards.clear()
                for fd, c in list(live.items()):
                    if c.setdefault("final", c["cur"]) is None or c["final"] in self.results:
                        os.kill(c["pid"], signal.SIGKILL)
                        os.waitpid(c["pid"], 0)
                        os.close(fd)
                        del live[fd]
            if self.stop_on_fail and self.relevant and any(self.relevant(r) for r in self.results.values()):
                stop = True
            if stop:
                for fd, c in list(live.items()):
                    os.kill(c["pid"], signal.SIGKILL)
                    os.waitpid(c["pid"], 0)
                    os.close(fd)
                live.clear()
                shards.clear()
        self.wall = RT() - t0
        return self.results


# ---------------------------------------------------------------- minimisation
def fail_key(f):
    return (f[0], f[1])


def concerns(f, prop):
    """Does this violation contradict the property?  Transport, crash and exception findings
    ('*') contradict every property of the workload that meets them."""
    return f[0] == "*" or prop in f[0].split()


def has_fail(r, key):
    return any(fail_key(f) == key for f in r.get("fails", ()))


def shrunk(w, case):
    """Simpler cases, first of all one in which all the job's processes take part, in order."""
    if case.get("world"):
        yield {k: v for k, v in case.items() if k != "world"}
    for c in w.shrink(case):
        if not c.get("world") or c["n"] == sum(r >= 0 for r in c["world"]):
            yield c


def minimise(case, key, budget):
    """Shrink operations and schedule while the same class of violation persists."""
    t0 = RT()
    w = workload(case["wl"])
    best = case
    tries = 0
    improved = True
    if key[1] == "hang":
        # every failing try takes its whole limit, and there is no log to freeze the schedule from
        while improved and RT() - t0 < budget:
            improved = False
            for cand in shrunk(w, best):
                if RT() - t0 > budget:
                    break
                tries += 1
                if has_fail(run_isolated(cand, 40, 5), key):
                    best = json.loads(json.dumps(cand))
                    improved = True
                    break
        return best, tries
    while improved and RT() - t0 < budget * 0.7:
        improved = False
        for cand in shrunk(w, best):
            if RT() - t0 > budget * 0.7:
                break
            tries += 1
            try:
                r = run_isolated(cand, 40)
            except Exception:
                continue
            if has_fail(r, key):
                best = json.loads(json.dumps(cand))
                improved = True
                break
    # the simplest schedule that still fails
    for s in ({"policy": "low", "forced": []}, {"policy": "high", "forced": []},
              {k: v for k, v in best["sched"].items() if k in ("policy", "seed", "kill", "max_steps", "faults")}):
        for keep in (("kill", "faults", "max_steps"),):
            s2 = dict(s)
            for k in keep:
                if k in best["sched"]:
                    s2[k] = best["sched"][k]
        c = dict(best, sched=s2)
        r = run_isolated(c, 40)
        tries += 1
        if has_fail(r, key):
            best = json.loads(json.dumps(c))
            break
    if "forced" not in best["sched"]:
        # freeze the schedule: replay no longer depends on any random generator
        r = run_isolated(best, 60)
        if has_fail(r, key) and r.get("log") is not None:
            c = json.loads(json.dumps(best))
            c["sched"]["forced"] = r["log"]
            c["sched"].pop("seed", None)
            if has_fail(run_isolated(c, 60), key):
                best = c
                f = best["sched"]["forced"]
                while f and RT() - t0 < budget:
                    c = json.loads(json.dumps(best))
                    c["sched"]["forced"] = f[:len(f) // 2]
                    if not has_fail(run_isolated(c, 40), key):
                        break
                    f = c["sched"]["forced"]
                    best = c
    return best, tries


def write_replay(prop, case, key, detail, extra=None):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "class": list(key), "detail": detail, "case": case}
    if extra:
        body.update(extra)
    js = json.dumps(body, indent=1)
    p = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(js.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(js)
    return p


# ---------------------------------------------------------------- hash seeds
def outhash_elsewhere(cases, hashseed):
    """Execute cases in a fresh interpreter with another string hash seed; returns their results."""
    import subprocess
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, os.path.join(VERIF, "check"), "--cases"], input=json.dumps(cases).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=VERIF, timeout=400)
    try:
        return json.loads(p.stdout.decode().strip().split("\n")[-1])
    except ValueError:
        return [{"crash": True}] * len(cases)


def run_cases_from_stdin():
    cases = json.loads(sys.stdin.read())
    print(json.dumps([{k: r.get(k) for k in ("outhash", "fails", "digest")} for r in map(run_isolated, cases)]))
    return 0


def hash_seeds(spec, count):
    """Check hook: the same seeded executions in an interpreter with another PYTHONHASHSEED."""
    def go(prop, tier, seed, probes):
        k = count[tier]
        cases = [make_case(spec, seed, 900000 + i) for i in range(k)]
        other = outhash_elsewhere(cases, 4242)
        bad = []
        for i, c in enumerate(cases):
            a, b = run_isolated(c), other[i]
            probes["hash seeds compared"] = probes.get("hash seeds compared", 0) + 1
            if (a.get("outhash"), a.get("fails"), a.get("digest")) != (b.get("outhash"), b.get("fails"), b.get("digest")):
                path = write_replay(prop, c, ("C16", "hash seed"), "the same run differs under another PYTHONHASHSEED", {"hashseed": 4242})
                bad.append(("hash seed", "run %d differs between PYTHONHASHSEED=%s and 4242" % (900000 + i, os.environ.get("PYTHONHASHSEED")), path))
                break
        return bad
    return go


# ---------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                ln = ln.strip()
                if ln:
                    out.append(json.loads(ln))
    return out


# ---------------------------------------------------------------- one property check
def check(prop, tier, seed, specs, meta, workers=None):
    t0 = RT()
    workers = workers or min(8, os.cpu_count() or 8)
    known = [k for k in known_findings() if k.get("status") == "known" and prop in k["properties"]]
    status = 0
    # recorded findings: each is one concrete history, run as it stands
    for k in known:
        r = run_isolated(k["case"])
        hit = [f for f in r.get("fails", ()) if concerns(f, prop)]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    total = {"runs": 0, "nontrivial": 0, "evals": 0, "steps": 0, "time": 0.0, "crashes": 0}
    probes, counts = collections.Counter(), collections.Counter()
    digests = set()
    perwl = {}
    violations = []
    harness = []
    determinism = {"checked": 0, "mismatch": []}
    budget = sum(s["cap"] for s in specs)

    def relevant(r):
        return any(concerns(f, prop) for f in r.get("fails", ()))

    samples = []
    for spec in specs:
        b = Batch(spec, seed, spec["count"], spec["cap"], workers=workers, relevant=relevant)
        res = b.run()
        name = spec["wl"] + ("/" + spec["focus"] if spec.get("focus") else "")
        pw = perwl.setdefault(name, {"runs": 0, "requested": spec["count"], "wall_s": 0.0})
        pw["runs"] += len(res)
        pw["wall_s"] = round(pw["wall_s"] + b.wall, 1)
        bad = []
        for idx in sorted(res):
            r = res[idx]
            if "harness" in r:
                harness.append((name, idx, r["harness"]))
                continue
            total["runs"] += 1
            if r.get("crash"):
                total["crashes"] += 1
            else:
                total["nontrivial"] += 1 if r["nontrivial"] else 0
                total["evals"] += r["evals"]
                total["steps"] += r["steps"]
                total["time"] += r["time"]
                probes.update(r["probes"])
                counts.update(r["counts"])
                if r["nontrivial"]:
                    digests.add(r["digest"])
            if relevant(r):
                bad.append(idx)
        # repeatability of a sample, in other worker processes and another order
        okids = [i for i in sorted(res) if not res[i].get("crash") and "harness" not in res[i]]
        smp = okids[:: max(1, len(okids) // 16)][:16]
        for idx in smp[::-1]:
            if bad:
                break
            r2 = run_isolated(make_case(spec, seed, idx))
            determinism["checked"] += 1
            if r2.get("digest") != res[idx]["digest"] or r2.get("fails") != res[idx]["fails"] \
                    or r2.get("outhash") != res[idx].get("outhash"):
                determinism["mismatch"].append([name, idx])
        if len(samples) < 3 and okids:
            c = make_case(spec, seed, okids[0])
            js = json.dumps(c)
            samples.append(js if len(js) < 600 else js[:600] + "...")
        seen = set()
        # an execution without end is reported last: it takes long to confirm
        bad.sort(key=lambda i: any(f[1] == "hang" for f in res[i]["fails"]))
        for idx in bad[:6]:
            case = make_case(spec, seed, idx)
            if violations and any(f[1] == "hang" for f in res[idx]["fails"]):
                break
            r = run_isolated(case)
            hits = [f for f in r.get("fails", ()) if concerns(f, prop)]
            if not hits:
                orig = [f for f in res[idx].get("fails", ()) if concerns(f, prop)]
                if res[idx].get("crash"):
                    harness.append((name, idx, "not reproduced: %r" % (orig,)))
                    continue
                hits = orig
            key = fail_key(hits[0])
            if key in seen:
                continue
            seen.add(key)
            small, tries = minimise(case, key, 60 if tier == "quick" else 180)
            r = run_isolated(small)
            det = [f for f in r.get("fails", ()) if fail_key(f) == key]
            if not det:
                small, det = case, hits
            path = write_replay(prop, small, key, det[0][2], {"seed": seed, "run": idx, "workload": name})
            violations.append({"class": list(key), "detail": det[0][2], "replay": path, "seed": seed, "run": idx})
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (key[1], det[0][2]))
            status = 1
            if len(violations) >= 2:
                break
        if status:
            break
    extra = meta.get("extra")
    if extra and not status:
        v = extra(prop, tier, seed, probes)
        for cls, detail, path in v:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (cls, detail))
            violations.append({"class": cls, "detail": detail, "replay": path})
            status = 1
    if determinism["mismatch"] and not status:
        if meta.get("determinism_is_property"):
            name, idx = determinism["mismatch"][0]
            spec = [s for s in specs if name == s["wl"] + ("/" + s["focus"] if s.get("focus") else "")][0]
            path = write_replay(prop, make_case(spec, seed, idx), ("*", "not repeatable"),
                                "two executions of the same seed and schedule differ", {"twice": True})
            print("VIOLATION property=%s replay=%s" % (prop, path))
            violations.append({"class": "not repeatable", "detail": "seed %d run %d" % (seed, idx), "replay": path})
            status = 1
    wall = RT() - t0
    if harness and not status:
        for h in harness[:5]:
            sys.stderr.write("HARNESS %s run %s: %s\n" % (h[0], h[1], h[2]))
        status = 2
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(digests),
            "rule": "an evaluation is one simulated execution of a whole job from its own seed; it is non-trivial when "
                    "the workload's activity condition holds (%s) and distinct when its sequence of (rank, operation) "
                    "scheduling events differs from that of every other run" % meta.get("nontrivial", "more than one rank and something crossed ranks"),
            "oracle_comparisons": total["evals"],
            "samples": samples,
            "simulated_runs": total["runs"], "nontrivial_runs": total["nontrivial"],
            "runs_per_hour": int(total["runs"] / max(wall, 1e-9) * 3600),
            "scheduler_steps": total["steps"], "simulated_seconds": round(total["time"], 3),
            "faults_injected": {k: v for k, v in sorted(counts.items())},
            "probes": {k: v for k, v in sorted(probes.items())},
            "workloads": perwl,
            "determinism": {"reexecuted": determinism["checked"], "mismatches": determinism["mismatch"]},
            "seeds": "run i of a workload is seeded by (workload, focus, VERIF_SEED=%d, i)" % seed,
            "real": meta.get("real", "all repast4py Python modules and the _core/_space C++ extensions, built from /repo's working tree; numpy, networkx, torch"),
            "stub": meta.get("stub", "MPI transport (mpi4py and mpi.h), clocks, process scheduling, numba's compiler (functions run as Python)"),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d distinct non-trivial, %d comparisons, %.0f s%s" % (
        prop, tier, total["runs"], len(digests), total["evals"], wall,
        "" if status == 0 else (", VIOLATED" if status == 1 else ", HARNESS ERROR")))
    return status


def replay(path):
    with open(path) as f:
        d = json.load(f)
    key = tuple(d["class"])
    if d.get("twice"):
        a, b = run_isolated(d["case"]), run_isolated(d["case"])
        same = a.get("digest") == b.get("digest") and a.get("outhash") == b.get("outhash")
        print("replay: " + ("identical" if same else "the two executions differ"))
        return 0 if same else 1
    if d.get("hashseed"):
        a, b = run_isolated(d["case"]), outhash_elsewhere([d["case"]], d["hashseed"])[0]
        if [a.get(k) for k in ("outhash", "fails", "digest")] != [b.get(k) for k in ("outhash", "fails", "digest")]:
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        print("not reproduced: identical under both hash seeds")
        return 0
    r = run_isolated(d["case"])
    for f in r.get("fails", ()):
        print("%s %s: %s" % tuple(f))
    if has_fail(r, key):
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    if "harness" in r:
        print(r["harness"])
        return 2
    print("not reproduced: property=%s class=%s" % (d["property"], key[1]))
    return 0
