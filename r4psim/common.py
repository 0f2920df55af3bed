"""Shared pieces of the workloads: schedule configuration, violations, the agent class."""
import random
import traceback


class Fail(Exception):
    """An observation that contradicts a property."""

    def __init__(self, prop, kind, detail):
        super().__init__("%s %s: %s" % (prop, kind, detail))
        self.prop = prop
        self.kind = kind
        self.detail = detail


class Stopped(Exception):
    """This rank has recorded its violations and stops."""


class Result:
    def __init__(self):
        self.fails = []         # (property or '*', kind, detail); '*' = any property of the workload
        self.probes = {}
        self.evals = 0          # oracle comparisons made
        self.digest = ""
        self.steps = 0
        self.sim_time = 0.0
        self.counts = {}
        self.nontrivial = True
        self.log = []           # scheduler choices actually made

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fail(self, prop, kind, detail):
        if len(self.fails) < 40:
            self.fails.append((prop, kind, detail))


RANKS = [1] * 2 + [2] * 8 + [3] * 7 + [4] * 9 + [5] * 3 + [6] * 5 + [7] * 1 + [8] * 3 + [9] * 2 + [12] * 1


def gen_sched(rng, n, crash=False):
    """Schedule configuration of one run: which scheduler, stalls, skews, early returns."""
    s = {"policy": rng.choice(["random"] * 5 + ["sticky", "prio", "low", "high"]),
         "seed": rng.randrange(1 << 30)}
    if rng.random() < 0.6:
        s["eager"] = rng.choice([0.2, 0.5, 0.9, 1.0])
    if n > 1 and rng.random() < 0.25:
        s["stall"] = [rng.randrange(n), rng.randrange(0, 200), rng.randrange(20, 400)]
    if rng.random() < 0.2:
        s["clock"] = [rng.choice([0.0, -3600.0, 5.0, 1e6]) for _ in range(n)]
    if rng.random() < 0.3:
        s["redshuf"] = True
    return s


def sim_kwargs(sched):
    kw = {"policy": sched.get("policy", "random")}
    if "eager" in sched:
        kw["eager"] = sched["eager"]
    if "stall" in sched:
        r, a, b = sched["stall"]
        kw["stall"] = {r: (a, b)}
    if "clock" in sched:
        kw["clock_off"] = sched["clock"]
    if sched.get("redshuf"):
        kw["reduce_shuffle"] = True
    if "kill" in sched:
        kw["kill_at"] = tuple(sched["kill"])
    if "max_steps" in sched:
        kw["max_steps"] = sched["max_steps"]
    return kw


def gen_world(rng, n, p=.12):
    """Which rank of the library's communicator each process of the job is, if not the same one:
    the job may have further processes, and number its ranks differently."""
    if rng.random() >= p:
        return None
    w = list(range(n)) + [-1] * rng.choice([0, 0, 1, 2])
    rng.shuffle(w)
    return w


def on_world(program, world):
    """The program on a communicator that is not the whole job's."""
    def run(rank, r4, comm):
        c = comm.Split(0 if world[rank] >= 0 else 1, world[rank])
        return program(c.Get_rank(), r4, c) if world[rank] >= 0 else None
    return run


def run_sim(n, program, sched, res, isolate_rng=False, world=None, **extra):
    """Run one simulated job and fold the transport's own findings into res."""
    from . import env, kernel
    if world:
        program, n = on_world(program, world), len(world)
        res.probe("jobs on a part of the processes or on renumbered ranks")
    if "forced" in sched:
        dec = kernel.Decisions(None, sched["forced"])
    else:
        dec = kernel.Decisions(sched.get("seed", 0))
    kw = sim_kwargs(sched)
    kw.update(extra)
    outcome, sim = env.simulate(n, program, dec, isolate_rng=isolate_rng, **kw)
    res.steps += sim.steps
    res.sim_time += sim.steps * sim.tick_dt
    res.digest = sim.digest() if not res.digest else res.digest + sim.digest()
    res.log = dec.log
    for k, v in sim.counts.items():
        res.counts[k] = res.counts.get(k, 0) + v
    for kind, detail in sim.problems:
        res.fail("*", kind, detail)
    for r in sim.ranks:
        if r.exc is not None:
            e = r.exc
            if isinstance(e, Fail):
                res.fail(e.prop, e.kind, "rank %d: %s" % (r.idx, e.detail))
            elif isinstance(e, Stopped) or type(e).__name__ == "SimProblem":
                pass
            elif isinstance(e, HarnessError):
                raise e
            else:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if "/repast4py/" in f.filename] or tb[-1:]
                loc = "%s:%s" % (where[-1].filename.rsplit("/", 1)[1], where[-1].name) if where else "?"
                res.fail("*", "exception %s" % type(e).__name__, "rank %d: %s: %s (in %s)" % (r.idx, type(e).__name__, e, loc))
    return outcome, sim


def replay_cur():
    """The running simulation (for a workload's own yield points)."""
    from . import kernel
    return kernel.CUR


class HarnessError(Exception):
    pass


def agent_class(r4, hash_salt=0):
    """A user agent: versioned state; identity equality with a scattered but repeatable hash."""
    base = r4.core.Agent

    class A(base):
        def __init__(self, uid, *state):
            super().__init__(uid[0], uid[1], uid[2])
            self.state = tuple(state)

        def save(self):
            return (self.uid,) + self.state

        def update(self, *state):
            self.state = tuple(state)

        def put(self, v, box=False):
            """Give the agent the state v: as new values, or in place inside the list it has."""
            if box and self.state:
                self.state[1][:] = [v, v]
            else:
                self.state = (None if box else v, [v, v])

        @property
        def seen(self):
            """The value that was put, or everything if it does not make sense."""
            st = self.state
            if len(st) == 2 and len(st[1]) == 2 and st[1][0] == st[1][1] and (st[0] is None or st[0] == st[1][0]):
                return st[1][0]
            return st

        def __hash__(self):
            u = self.uid
            return hash((u[0] * 7919 + hash_salt, u[1], u[2] * 31337)) & 0xffffffff

        def __eq__(self, other):
            return self is other
    return A


class Restore:
    """The user's restore function: creates agents afresh, or reuses cached instances."""

    def __init__(self, cls, mode):
        self.cls = cls
        self.mode = mode
        self.cache = {}

    def __call__(self, data):
        uid = tuple(data[0])
        if self.mode == "cached":
            a = self.cache.get(uid)
            if a is not None:
                a.state = tuple(data[1:])
                return a
            a = self.cls(uid, *data[1:])
            self.cache[uid] = a
            return a
        return self.cls(uid, *data[1:])

    def made(self, agent):
        if self.mode == "cached":
            self.cache[agent.uid] = agent


def dims_create(n, nd):
    """Process grid as MPI_Dims_create documents it: as balanced as possible, non-increasing."""
    best = None

    def rec(rem, k, mx):
        if k == 1:
            if rem <= mx:
                yield (rem,)
            return
        for f in range(min(rem, mx), 0, -1):
            if rem % f == 0:
                for t in rec(rem // f, k - 1, f):
                    yield (f,) + t
    for t in rec(n, nd, n):
        if best is None or (t[0] - t[-1], t) < (best[0] - best[-1], best):
            best = t
    return list(best)


def make_rng(*parts):
    return random.Random(":".join(str(p) for p in parts))


def listings(res, ctx, local, tag, k=0):
    """The context's counts and listings, by type and not, against the local agents' ids."""
    want = {u: 1 for u in local}
    byt = {}
    for u in want:
        byt.setdefault(u[1], set()).add(u)
    res.evals += 1

    def bad(what, got, exp):
        res.fail("C20 C01 C05", "listing", tag + "%s: %r, expected %r" % (what, got, exp))
    if ctx.size() != {-1: len(want)}:
        bad("size()", ctx.size(), {-1: len(want)})
    types = sorted(set(byt) | {0, 1, 2, 3})
    exp = {t: len(byt.get(t, ())) for t in types}
    got = ctx.size(types)
    if got != exp:
        bad("size(%r)" % types, got, exp)
    allu = [a.uid for a in ctx.agents()]
    for t in types:
        us = byt.get(t, set())
        if ctx.contains_type(t) != bool(us):
            bad("contains_type(%d)" % t, ctx.contains_type(t), bool(us))
        lst = [a.uid for a in ctx.agents(t)]
        if len(lst) != len(us) or set(lst) != us:
            bad("agents(%d)" % t, lst, sorted(us))
        c = k % 4
        part = [a.uid for a in ctx.agents(t, count=c)]
        if part != lst[:c]:
            bad("agents(%d, count=%d)" % (t, c), part, lst[:c])
    if len(allu) != len(want) or set(allu) != set(want):
        bad("agents()", allu, sorted(want))
    part = [a.uid for a in ctx.agents(count=k % 5)]
    if part != allu[:k % 5]:
        bad("agents(count=%d)" % (k % 5), part, allu[:k % 5])
    for t in (None, types[k % len(types)]):
        ordered = [a.uid for a in ctx.agents(t)]
        for c in (None, len(ordered) // 2):
            what = "agents(%r, count=%r, shuffle=True)" % (t, c)
            first = ordered if c is None else ordered[:c]
            # a sample of 4 or more is the first ones, in each of 30 tries, with probability < 1e-23
            for i in range(30):
                sh = [a.uid for a in ctx.agents(t, count=c, shuffle=True)]
                if len(sh) != len(first) or len(set(sh)) != len(sh) or not set(sh) <= set(ordered):
                    bad(what, sh, "%d of %r" % (len(first), sorted(ordered)))
                if len(ordered) < 4 or (sh != first if c is None else set(sh) != set(first)):
                    break
            else:
                bad(what + " 30 times", "always %r" % (first,), "any of %r" % (ordered,))
    if [a.uid for a in ctx.agents()] != allu:
        bad("agents() after shuffling", [a.uid for a in ctx.agents()], allu)
