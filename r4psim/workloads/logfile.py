"""Reduced and tabular logging by all ranks into files written by one of them.

Focus "faults" fails and shortens the writes, focus "crash" kills the job at some operation and
then starts it again in the same directory."""
import csv
import io
import os
from ..common import Result, Fail, Stopped, run_sim, gen_sched, RANKS, replay_cur
from ..fs import SimFS

NAME = "logfile"
OPS = ["SUM", "MIN", "MAX", "PROD"]


def gen(rng, focus=None):
    n = min(rng.choice(RANKS), 6)
    sets = []
    for s in range(rng.choice([1, 1, 2, 3])):
        path = rng.choice(["out/a.csv", "out/sub/b.txt", "c.csv", "out/a.csv", "noext"])
        delim = rng.choice([",", ",", ";", "\t", "|"])
        pre = rng.choice([True, True, True, "dir", False, False, False, False])
        if rng.random() < 0.6:
            cols = []
            for c in range(rng.randrange(1, 4)):
                cols.append({"name": "c%d" % c if rng.random() < .8 else "col %d" % c, "op": rng.choice(OPS),
                             "dt": rng.choice(["int", "float", "float32", "int32"])})
            buf = rng.choice([1, 2, 3, 5, 7, 1000, 1000])
            sets.append({"k": "red", "cols": cols, "delim": delim, "buf": buf, "path": path, "pre": pre})
        else:
            sets.append({"k": "tab", "cols": ["h%d" % c for c in range(rng.randrange(1, 4))], "delim": delim,
                         "path": path, "pre": pre})
    ops = []
    tick = 0.0
    big = focus is None and rng.random() < .03
    if big:     # more values between writes than a buffer is made for
        n = min(n, 4)
        for S in sets:
            if S["k"] == "red":
                S["buf"] = rng.choice([1000, 1000, 700, 3000])
    for _ in range(rng.choice([0, 3, 8, 15, 30])):
        s = rng.randrange(len(sets))
        r = rng.random()
        if sets[s]["k"] == "red":
            if r < 0.85:
                tick += rng.choice([0, 0.5, 1, 1])
                for _ in range(rng.choice([300, 999, 1000, 1001, 1700, 2500]) if big and rng.random() < .5 and len(ops) < 4000 else 1):
                    ops.append(["log", s, tick])
            else:
                ops.append(["write", s])
        else:
            if r < 0.8:
                ops.append(["row", s, [rng.choice([0, 0, 1, 2, 5]) for _ in range(n)], rng.randrange(1000)])
            else:
                ops.append(["write", s])
    for s in rng.sample(range(len(sets)), len(sets)):
        if rng.random() < .95:
            ops.append(["close", s])
    case = {"wl": NAME, "n": n, "sets": sets, "ops": ops, "salt": rng.randrange(1 << 30), "faults": [],
            "small": rng.random() < .7}
    case["sched"] = gen_sched(rng, n)
    if focus == "faults":
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(["eio", "enospc", "short", "short"])
            at = rng.randrange(0, 12)
            op = "write" if rng.random() < .85 or k == "short" else "open"
            if op == "open":
                k = rng.choice(["eio", "emfile", "eacces"])
                case["faults"].append(["open", rng.randrange(len(sets), len(sets) + 8) if rng.random() < .8 else at, k, 0, 1])
                continue
            case["faults"].append(["write", at, k, rng.random(), 1])
            if k == "short" and rng.random() < .7:
                case["faults"].append(["write", at + 1, rng.choice(["enospc", "eio"]), 0, rng.choice([1, 2, 4])])
    if focus == "crash":
        case["sched"]["kill"] = [rng.randrange(n), rng.randrange(1, 60)]
    return case


def val(case, rank, s, c, k, op, dt):
    h = (case["salt"] * 31 + rank * 7919 + s * 104729 + c * 1299709 + k * 15485863) % 2147483647
    h = (h * 48271) % 2147483647
    if op == "PROD":
        v = [1, 2, -1, 1, 1][h % 5]
    else:
        v = h % 101 - 50
    return v if dt.startswith("int") else v / 4.0


def cell(case, rank, s, c, k):
    h = (case["salt"] + rank * 7919 + s * 104729 + c * 1299709 + k * 15485863) % 1000003
    return [h, h / 8.0, "t%d" % h, 'q"%d"' % (h % 7), "a,b;c|d", "", True, None, -h, "x\ty"][h % 10]


def expected(case, n, np):
    """The text of every write, per set, as a single process that saw every value would write it."""
    chunks = [[] for _ in case["sets"]]
    pend = [[] for _ in case["sets"]]
    cnt = [0] * len(case["sets"])
    rowk = [[0] * n for _ in case["sets"]]
    red = {"SUM": np.add, "MIN": np.minimum, "MAX": np.maximum, "PROD": np.multiply}

    def flush(s):
        S = case["sets"][s]
        if S["k"] == "red":
            chunks[s].append("".join(S["delim"].join(r) + "\n" for r in pend[s]))
        else:
            rows = sorted(pend[s], key=lambda x: x[0])      # stable: rank order, each rank's own order
            chunks[s].append(text([r for _, r in rows], S["delim"]))
        pend[s] = []

    for o in case["ops"]:
        s = o[1]
        S = case["sets"][s]
        if o[0] == "log":
            row = [str(o[2])]
            for c, C in enumerate(S["cols"]):
                dt = np.dtype({"int": int, "float": float}.get(C["dt"], C["dt"]))
                a = None
                for r in range(n):
                    v = np.array([val(case, r, s, c, cnt[s], C["op"], C["dt"])], dtype=dt)
                    a = v if a is None else red[C["op"]](a, v)
                row.append(str(a[0]))
            cnt[s] += 1
            pend[s].append(row)
            if len(pend[s]) >= S["buf"]:
                flush(s)
        elif o[0] == "row":
            for r in range(n):
                for j in range(o[2][r]):
                    pend[s].append((r, tuple(cell(case, r, s, c, o[3] + j) for c in range(len(S["cols"])))))
        else:
            flush(s)
    return chunks


def text(rows, delim):
    f = io.StringIO(newline="")
    csv.writer(f, delimiter=delim).writerows(rows)
    return f.getvalue().replace("\r\n", "\n")


def header(S):
    if S["k"] == "red":
        return S["delim"].join(["tick"] + [c["name"] for c in S["cols"]]) + "\n"
    return text([S["cols"]], S["delim"])


PRE = b"precious,data\n1,2\n"


def execute(case):
    res = Result()
    n = case["n"]
    fs = SimFS(case["faults"])
    fs.small = case["small"]
    cwd = os.getcwd()
    try:
        os.chdir(fs.dir)
        for S in case["sets"]:
            if S["pre"]:
                p = os.path.join(fs.dir, S["path"])
                if S["pre"] == "dir":       # the name is that of a directory with something in it
                    if os.path.isfile(p):
                        continue
                    os.makedirs(p, exist_ok=True)
                    p = os.path.join(p, "kept.txt")
                elif os.path.isdir(p):
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(PRE)
        _execute(case, n, fs, res)
    finally:
        os.chdir(cwd)
        fs.remove()
    return res


def _execute(case, n, fs, res):
    import numpy as np
    chunks = expected(case, n, np)
    before = fs.files()
    killed = job(case, n, fs, res, chunks, before, "kill" in case["sched"])
    res.nontrivial = n > 1 and any(any(c) for c in chunks)
    if killed and not res.fails:
        # the job is started again in the same directory
        mid = fs.files()
        fs.dead = False
        c2 = dict(case, sched={k: v for k, v in case["sched"].items() if k not in ("kill", "forced")})
        fs.faults = []
        job(c2, n, fs, res, chunks, mid, False)
        res.probe("restarted after crash")


def job(case, n, fs, res, chunks, before, may_kill):
    import numpy as np
    sets = case["sets"]
    wrote = [[] for _ in sets]          # per set: True / False (the write raised) for each write on rank 0
    prop = "C14" if (case["faults"] or "kill" in case["sched"]) else "C13"
    made = [None] * len(sets)
    failed_ctor = []

    def program(rank, r4, comm):
        L = r4.logging
        objs, dcs, cnt = [], [], [0] * len(sets)
        fills = will_write(case)
        for s, S in enumerate(sets):
            try:
                if S["k"] == "red":
                    import dataclasses
                    types = {"int": int, "float": float, "float32": np.float32, "int32": np.int32}
                    cls = dataclasses.make_dataclass("D%d" % s, [("f%d" % c, types[C["dt"]], dataclasses.field(default=0))
                                                                for c, C in enumerate(S["cols"])])
                    dc = cls()
                    loggers = []
                    for c, C in enumerate(S["cols"]):
                        loggers += L.create_loggers(dc, getattr(r4.MPI, C["op"]), rank, names={"f%d" % c: C["name"]})
                    objs.append(L.ReducingDataSet(loggers, comm, S["path"], S["delim"], S["buf"]))
                    dcs.append(dc)
                else:
                    objs.append(L.TabularLogger(comm, S["path"], S["cols"], S["delim"]))
                    dcs.append(None)
            except OSError as e:
                if not case["faults"]:
                    res.fail("C13 C14", "cannot log", "rank %d: creating a logger for %r: %s" % (rank, S["path"], e))
                failed_ctor.append(s)
                raise Stopped()
            if rank == 0:
                new = sorted(set(_ls(fs)) - set(before) - {m for m in made if m})
                if len(new) != 1:
                    res.fail("C13 C14", "log file", "creating a logger for %r made the files %r" % (S["path"], new))
                    raise Stopped()
                made[s] = new[0]

        def wr(s, f):
            try:
                f()
                ok = True
            except OSError as e:
                ok = False
                if rank != 0 or not fs.fired:
                    res.fail("C13 C14", "error", "rank %d: %s" % (rank, e))
                    raise Stopped()
            if rank == 0:
                wrote[s].append(ok)

        for o in case["ops"]:
            s = o[1]
            S = sets[s]
            if o[0] == "log":
                for c, C in enumerate(S["cols"]):
                    setattr(dcs[s], "f%d" % c, val(case, rank, s, c, cnt[s], C["op"], C["dt"]))
                cnt[s] += 1
                if (s, cnt[s]) in fills:
                    wr(s, lambda: objs[s].log(o[2]))
                else:
                    objs[s].log(o[2])
            elif o[0] == "row":
                for j in range(o[2][rank]):
                    objs[s].log_row(*[cell(case, rank, s, c, o[3] + j) for c in range(len(S["cols"]))])
            elif o[0] == "write":
                wr(s, objs[s].write)
            else:
                wr(s, objs[s].close)
        return True

    with fs:
        outcome, sim = run_sim(n, program, case["sched"], res)
    after = fs.files()
    for p, d in before.items():
        res.evals += 1
        if after.get(p) != d:
            res.fail("C14 C13", "overwritten", "the existing file %r was changed or removed" % p)
    if failed_ctor or res.fails and outcome != "done":
        return False
    for s, S in enumerate(sets):
        if made[s] is None:
            continue
        got = after.get(made[s], b"").decode().replace("\r", "")
        segs = [(header(S), True)]
        exp = chunks[s]
        oks = wrote[s]
        if outcome == "done" and len(oks) != len(exp):
            res.fail(prop, "writes", "%d writes on rank 0, expected %d" % (len(oks), len(exp)))
        segs += list(zip(exp, oks))
        rest = exp[len(oks):]
        i = 0
        states = {0}        # offsets in the file up to which everything written so far is explained
        for t, ok in segs:
            res.evals += 1
            nxt = set()
            for i in states:
                if got.startswith(t, i):
                    nxt.add(i + len(t))
                if not ok:
                    k = 0
                    while k < len(t) and i + k < len(got) and got[i + k] == t[k]:
                        nxt.add(i + k)
                        k += 1
                    nxt.add(i + k)
            if not nxt:
                res.fail(prop, "content", "%s: file %r has %r where %r was written; the file is %r" % (
                    S["k"], S["path"], got[min(states):min(states) + 120], t[:120], got[:400]))
                break
            states = nxt
        else:
            if outcome == "killed":
                tail = "".join(rest[:1])
                if not any(tail.startswith(got[i:]) for i in states):
                    res.fail(prop, "content", "%s: after the crash file %r ends in %r, the next write was %r" % (
                        S["k"], S["path"], got[max(states):max(states) + 200], tail[:200]))
                res.probe("crash checked")
            elif len(got) not in states:
                res.fail(prop, "content", "%s: file %r has unexpected extra content %r" % (
                    S["k"], S["path"], got[max(states):max(states) + 300]))
        if not all(oks):
            res.probe("failed writes")
        res.probe("rows expected", sum(t.count("\n") for t in exp))
    extra = sorted(set(after) - set(before) - set(m for m in made if m))
    if extra and outcome == "done":
        res.fail("C13 C14", "stray file", "unexpected files %r" % extra)
    return outcome == "killed"


def _ls(fs):
    out = []
    for d, _, f in os.walk(fs.dir):
        out += [os.path.relpath(os.path.join(d, x), fs.dir) for x in f]
    return out


def will_write(case):
    """The (set, log number) pairs whose log fills the set's buffer."""
    out = set()
    pend = [0] * len(case["sets"])
    num = [0] * len(case["sets"])
    for o in case["ops"]:
        s = o[1]
        if o[0] == "log":
            num[s] += 1
            pend[s] += 1
            if pend[s] >= case["sets"][s]["buf"]:
                out.add((s, num[s]))
                pend[s] = 0
        elif o[0] in ("write", "close"):
            pend[s] = 0
    return out


def shrink(case):
    ops = case["ops"]
    if len(ops) > 4:
        h = len(ops) // 2
        yield dict(case, ops=ops[:h])
        yield dict(case, ops=ops[h:])
    for s in range(len(case["sets"])):
        if len(case["sets"]) > 1:
            yield dict(case, sets=case["sets"][:s] + case["sets"][s + 1:],
                       ops=[[o[0], o[1] - (o[1] > s)] + o[2:] for o in ops if o[1] != s])
    w = len(ops) // 4
    while w >= 2:
        for i in range(0, len(ops), w):
            yield dict(case, ops=ops[:i] + ops[i + w:])
        w //= 2
    if len(ops) < 200:
        for i in range(len(ops)):
            yield dict(case, ops=ops[:i] + ops[i + 1:])
    for i in range(len(case["faults"])):
        yield dict(case, faults=case["faults"][:i] + case["faults"][i + 1:])
    if case["n"] > 1:
        for m in range(1, case["n"]):
            yield dict(case, n=m, ops=[o if o[0] != "row" else o[:2] + [o[2][:m]] + o[3:] for o in ops])
    for s, S in enumerate(case["sets"]):
        if S["pre"]:
            yield dict(case, sets=case["sets"][:s] + [dict(S, pre=False)] + case["sets"][s + 1:])
        if S["k"] == "red" and len(S["cols"]) > 1:
            yield dict(case, sets=case["sets"][:s] + [dict(S, cols=S["cols"][:1])] + case["sets"][s + 1:])
