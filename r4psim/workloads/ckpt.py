"""Checkpoints: a job whose processes are killed after writing checkpoints, and its restart.

Three simulated jobs run the same model: one that is never interrupted, one that is killed at an
arbitrary operation, and one restarted from the files the killed job left behind.  From the
checkpoint on, the restarted job's history on every rank (events, ticks, random draws, agents in
order, locations, edges) must be the uninterrupted job's history."""
import os
from ..common import Result, Fail, Stopped, run_sim, gen_sched, agent_class, Restore, RANKS, dims_create
from .. import fs

NAME = "ckpt"
TYPES = ["FIRST", "RANDOM", "BY_PRIORITY", "LAST"]


def gen(rng, focus=None):
    n = min(rng.choice(RANKS), 6)
    kind = rng.choice(["none", "grid", "grid", "cspace", "both"])
    nd = rng.choice([1, 2, 2, 3]) if kind == "grid" else rng.choice([2, 2, 3])
    procs = dims_create(n, nd)
    buf = rng.choice([0, 1, 2])
    b = []
    for d in range(3):
        b += [rng.choice([0, 0, -3, 5]), procs[d] * rng.randrange(max(buf, 1), max(buf, 1) + 4) + rng.choice([0, 0, 1])] if d < nd else [0, 0]
    nets = [{"d": rng.random() < .5, "name": "net%d" % i} for i in range(rng.choice([0, 1, 1, 2]))]
    if kind == "none" and not nets:
        nets = [{"d": rng.random() < .5, "name": "net0"}]
    stop = rng.randrange(4, 9)
    evs = []
    eid = 0
    for r in range(n):
        for _ in range(rng.choice([0, 1, 2, 4])):
            evs.append({"r": r, "id": eid, "at": rng.choice([0, 1, 1, 2, 3, 5, 0.5, 2.5]), "t": rng.choice(TYPES),
                        "p": rng.choice([0, 1, 2, 2, -1.5]), "iv": rng.choice([0, 0, 1, 1, 2, .5, 1.5]),
                        "kid": rng.choice([0, 0, .3, .6]), "void": rng.choice([0, 0, .1]), "tag": rng.random() < .5})
            eid += 1
    ck = sorted(set(rng.choice([1, 1, 2, 3, 4, 1.1, 2.1, 3.25]) for _ in range(rng.choice([1, 1, 2, 3]))))
    case = {"wl": NAME, "n": n, "kind": kind, "nd": nd, "b": b, "per": rng.random() < .5, "buf": buf,
            "nets": nets, "stop": stop, "evs": evs, "ck": ck, "seed": rng.randrange(1 << 30), "perrank": rng.random() < .5,
            "agents": [rng.choice([0, 1, 2, 3, 5]) for _ in range(n)], "types": rng.choice([1, 2, 3]),
            "shuffle": rng.random() < .5, "cross": rng.choice([0, 2, 5, 10]), "unplaced": rng.choice([0, 0, .3]),
            "pm": rng.choice([.3, .7, 1]), "step": rng.choice([1, 1, 1, .5, 2]), "sp": rng.choice(TYPES[:3]),
            "rm": rng.choice([0, .1, .3]), "add": rng.choice([0, .1, .3]), "tags": rng.random() < .3,
            "ends": rng.choice([0, 1, 2]), "rstop": rng.random() < .7, "restore": rng.choice(["fresh", "cached"]),
            "salt": rng.randrange(1 << 16), "kill": [rng.randrange(n), max(rng.random(), rng.random(), rng.random())], "lazy": rng.random() < .3,
            "small": rng.random() < .3, "hold": rng.choice([0, 0, 0, 0, 1, 2]),
            "share": rng.random() < .4}
    if rng.random() < .25:
        case["faults"] = [["write", rng.randrange(0, 3 * n), "short", rng.random()]]
    case["sched"] = gen_sched(rng, n)
    case["sched_a"] = gen_sched(rng, n)
    case["sched_c"] = gen_sched(rng, n)
    return case


class Model:
    """The user's model: everything it does is drawn from repast4py's random generator."""

    def __init__(self, case, rank, r4, comm, out, path, ckp=None):
        self.case, self.rank, self.r4, self.comm, self.out, self.path = case, rank, r4, comm, out, path
        self.A = agent_class(r4, case["salt"])
        self.restore = Restore(self.A, case["restore"])
        self.rng = None
        self.evts = {}          # cached scheduled events, by name, to void them
        self.nid = 0
        self.kids = 0
        S = r4.space
        self.ctx = r4.context.SharedContext(comm)
        B = S.BoundingBox(*case["b"])
        bt = S.BorderType.Periodic if case["per"] else S.BorderType.Sticky
        self.grid = self.cs = None
        if case["kind"] in ("grid", "both"):
            self.grid = S.SharedGrid("grid", B, bt, S.OccupancyType.Single if case.get("occ") == "S" else S.OccupancyType.Multiple, case["buf"], comm)
            self.ctx.add_projection(self.grid)
        if case["kind"] in ("cspace", "both"):
            self.cs = S.SharedCSpace("cs", B, bt, S.OccupancyType.Single if case.get("occ") == "S" else S.OccupancyType.Multiple, case["buf"], comm, 5)
            self.ctx.add_projection(self.cs)
        self.nets = []
        for N in case["nets"]:
            x = (r4.network.DirectedSharedNetwork if N["d"] else r4.network.UndirectedSharedNetwork)(N["name"], comm)
            self.nets.append(x)
            self.ctx.add_projection(x)
        self.P = r4.schedule.PriorityType
        self.order = []
        self.held = []
        if ckp is None:
            self.fresh()
        else:
            self.restored(ckp)

    # -- a new job
    def fresh(self, seeded=False):
        c, r4 = self.case, self.r4
        if not seeded:
            r4.random.init(c["seed"] + (self.rank if c["perrank"] else 0))
        rng = r4.random.default_rng
        for _ in range(c["agents"][self.rank]):
            self.new_agent()
        self.ctx.synchronize(self.restore)
        if self.nets:
            cnt = self.comm.allgather([a.uid for a in self.ctx.agents()])
            every = [(tuple(u), r) for r, us in enumerate(cnt) for u in us]
            mine = [u for u, r in every if r == self.rank]
            want, plan = {}, []
            # only the smaller uid's owner adds an edge, so no edge is added from both sides
            for _ in range(c["cross"]):
                if not every or not mine:
                    break
                u = mine[int(rng.integers(len(mine)))]
                v, r = every[int(rng.integers(len(every)))]
                if u >= v:
                    continue
                if r != self.rank:
                    want[v] = r
                plan.append((int(rng.integers(len(self.nets))), u, v, int(rng.integers(100)), bool(rng.random() < .5)))
            self.ctx.request_agents(sorted(want.items()), self.restore)
            for ni, u, v, w, rev in plan:
                a = self.ctx.agent(u)
                o = self.ctx.agent(v) or self.ctx.ghost_agent(v)
                if rev:
                    a, o = o, a
                if w % 3 == 0:
                    self.nets[ni].add_edge(a, o)
                else:
                    self.nets[ni].add_edge(a, o, w=w, tag=["x", w])
        self.ctx.synchronize(self.restore)
        run = self.runner = r4.schedule.init_schedule_runner(self.comm)
        st = run.schedule_repeating_event(1, c["step"], self.step, self.ptype(c["sp"]), 1, metadata={"name": "step"})
        self.evts["step"] = st
        for e in c["evs"]:
            if e["r"] != self.rank:
                continue
            md = {"name": "ev", "e": e["id"]}
            if e["tag"] and c["tags"]:
                md["tag"] = "second"
            name = "ev%d" % e["id"]
            f = self.event(e, name)
            if c["lazy"]:
                md["k"] = lambda g: g.k       # the metadata may be computed when saving
            if e["iv"]:
                self.evts[name] = run.schedule_repeating_event(e["at"], e["iv"], f, self.ptype(e["t"]), e["p"], metadata=md)
            else:
                self.evts[name] = run.schedule_event(e["at"], f, self.ptype(e["t"]), e["p"], metadata=md)
        for i in range(c["ends"]):
            run.schedule_end_event(self.end(i), metadata={"name": "end", "i": i})
        run.schedule_stop(c["stop"])
        # the checkpoint is the last event of its tick (other uses: see known_findings.jsonl)
        pt = self.ptype(c.get("ckt", "LAST"))
        for t in c["ck"]:
            if c.get("ckrep"):
                run.schedule_repeating_event(t, c["ckrep"], self.checkpoint, pt, metadata={"name": "ckpt"})
            else:
                run.schedule_event(t, self.checkpoint, pt, metadata={"name": "ckpt"})

    def ptype(self, t):
        return getattr(self.P, t)

    def new_agent(self):
        c = self.case
        rng = self.r4.random.default_rng
        # the id and type are the agent's identity: agents of different types may have the same id
        t = int(rng.integers(c["types"]))
        id, t = (self.nid // c["types"], self.nid % c["types"]) if c.get("share") else (self.nid, t)
        a = self.A((id, t, self.rank), 0, float(rng.random()))
        self.nid += 1
        self.restore.made(a)
        self.ctx.add(a)
        if c["kind"] != "none" and rng.random() >= c["unplaced"]:
            lb = (self.grid or self.cs).get_local_bounds()
            q = []
            for d, (m, e) in enumerate(((lb.xmin, lb.xextent), (lb.ymin, lb.yextent), (lb.zmin, lb.zextent))):
                q.append(float(m + e * rng.random()) if d < c["nd"] else 0.0)
            self.put(a, q)
        return a

    def put(self, a, q):
        import math
        S = self.r4.space
        if self.cs is not None:
            self.cs.move(a, S.ContinuousPoint(*q))
        if self.grid is not None:
            self.grid.move(a, S.DiscretePoint(*[int(math.floor(x)) for x in q]))

    # -- events
    def step(self):
        c, ctx = self.case, self.ctx
        rng = self.r4.random.default_rng
        for a in list(ctx.agents(shuffle=c["shuffle"])):
            a.state = (a.state[0] + 1, float(rng.random()))
            sp = self.cs or self.grid
            if sp is not None and rng.random() < c["pm"]:
                l = sp.get_location(a)
                if l is not None:
                    q = [float(x) for x in l.coordinates]
                    for d in range(c["nd"]):
                        q[d] += float(rng.integers(-2, 3)) if self.cs is None else float(rng.random() * 3 - 1.5)
                    self.put(a, q)
        for ni, x in enumerate(self.nets):
            es = sorted(((u.uid, v.uid) if c["nets"][ni]["d"] else tuple(sorted((u.uid, v.uid))), u, v) for u, v in x.graph.edges)
            for k, u, v in sorted(es, key=lambda t: t[0]):
                lo = u if u.uid <= v.uid else v
                if lo.local_rank != self.rank:
                    continue
                q = rng.random()
                if q < .15:
                    x.remove_edge(u, v)
                elif q < .4:
                    x.update_edge(u, v, w=int(rng.integers(100)))
            loc = sorted(ctx.agents(), key=lambda a: a.uid)
            for _ in range(2):
                if len(loc) > 1 and rng.random() < .5:
                    i, j = (int(z) for z in rng.integers(len(loc), size=2))
                    if i != j and not x.contains_edge(loc[i], loc[j]):
                        x.add_edge(loc[i], loc[j], w=int(rng.integers(100)))
        for a in sorted(ctx.agents(), key=lambda a: a.uid):
            if rng.random() < c["rm"]:
                ctx.remove(a)
        if rng.random() < c["add"]:
            self.new_agent()
        ctx.synchronize(self.restore)
        w = self.world()
        # what the other ends of the edges look like here
        self.write_held()
        w["ends"] = {a.uid: (a.state, a.local_rank) for x in self.nets for e in x.graph.edges for a in e}
        self.note("step", w)

    def event(self, e, name, depth=0):
        m = self

        class Ev:
            def __init__(self):
                self.k = 0

            def __call__(self):
                rng = m.r4.random.default_rng
                self.k += 1
                m.note(name, float(rng.random()))
                ags = sorted(m.ctx.agents(), key=lambda a: a.uid)
                if ags:
                    a = ags[int(rng.integers(len(ags)))]
                    a.state = (a.state[0] + 1000, float(rng.random()))
                if depth < 2 and rng.random() < e["kid"]:
                    m.kids += 1
                    nm = "kid%d" % m.kids
                    at = m.runner.tick() + float(rng.choice([0, .5, 1, 1, 2, 3]))
                    t = TYPES[int(rng.integers(3))]
                    md = {"name": "kid", "e": e["id"], "nm": nm, "depth": depth + 1}
                    if m.case["lazy"]:
                        md["k"] = lambda g: g.k
                    m.evts[nm] = m.runner.schedule_event(at, m.event(e, nm, depth + 1), m.ptype(t), float(rng.integers(4)), metadata=md)
                if rng.random() < e["void"]:
                    names = sorted(k for k in m.evts if k != "step")
                    nm = names[int(rng.integers(len(names)))]
                    m.evts[nm].void()
                    m.note("void", nm)
        return Ev()

    def end(self, i):
        def f():
            self.note("end%d" % i, float(self.r4.random.default_rng.random()))
        return f

    def checkpoint(self):
        self.note("ckpt", self.world())
        ckp = self.r4.checkpoint.Checkpoint()
        ckp.save_random()
        ckp.save_schedule()
        ckp.save_agents(self.ctx.agents())
        for s in (self.grid, self.cs):
            if s is not None:
                ckp.save_space(self.ctx, s)
        for x in self.nets:
            ckp.save_network(x, self.rank)
        ckp.save("model", {"nid": self.nid, "kids": self.kids, "names": sorted(self.evts)})
        path = self.path % (self.runner.tick(), self.rank)
        # the model goes on: what it does now must not reach the saved state
        self.r4.random.default_rng.random()
        self.note("after ckpt", None)
        if self.case.get("hold"):
            self.held.append([self.case["hold"], path, ckp])
        else:
            self.write(path, ckp)

    def write_held(self, all=False):
        """Write the checkpoints that have been kept in memory for some steps of the model."""
        for h in list(self.held):
            h[0] -= 1
            if all or h[0] < 0:
                self.held.remove(h)
                self.write(*h[1:])

    def write(self, path, ckp):
        import dill
        with open(path, "wb") as f:
            dill.dump(ckp, f)

    # -- a restarted job
    def restored(self, ckp):
        c = self.case

        def take(d, key):
            self.nid, self.kids = d["nid"], d["kids"]
            return key
        if ckp.restore("model", take, "k") != "k":
            raise Fail("C15", "restore", "the restorer's value was not returned")
        self.r4.random.init(99)
        for a in ckp.restore_agents(self.restore):
            self.ctx.add(a)
        for s in (self.grid, self.cs):
            if s is not None:
                ckp.restore_space(self.ctx, s)
        for x in self.nets:
            ckp.restore_network(self.ctx, x, self.restore)
        specs = {e["id"]: e for e in c["evs"]}

        def create(md):
            nm = md["name"]
            if nm == "step":
                return self.step
            if nm == "ckpt":
                return self.checkpoint
            if nm == "end":
                return self.end(md["i"])
            f = self.event(specs[md["e"]], "ev%d" % md["e"] if nm == "ev" else md["nm"], md.get("depth", 0))
            if c["lazy"]:
                f.k = md["k"]
            return f

        def proc(md, ev):
            nm = md.get("name")
            if nm == "ev":
                self.evts["ev%d" % md["e"]] = ev
            elif nm == "kid":
                self.evts[md["nm"]] = ev
            elif nm == "step":
                self.evts["step"] = ev
        self.runner = ckp.restore_schedule(self.comm, create, proc, restore_stop_at=c["rstop"])
        if c["tags"]:
            self.runner = ckp.restore_schedule(self.comm, create, proc, tag="second", initialize=False, restore_stop_at=c["rstop"])
        if not c["rstop"]:
            self.runner.schedule_stop(c["stop"])
        # names of events that are over may still be voided by the model
        over = self.r4.schedule.OneTimeEvent(0, lambda: None)
        for k in ckp.restore("model", lambda d: d["names"]):
            self.evts.setdefault(k, over)
        self.ctx.synchronize(self.restore)
        ckp.restore_random()
        if self.r4.random.seed != c["seed"] + (self.rank if c["perrank"] else 0):
            raise Fail("C15", "restored seed", "random.seed is %r after restoring, it was %r" % (
                self.r4.random.seed, c["seed"] + (self.rank if c["perrank"] else 0)))
        self.note("ckpt", self.world())
        self.r4.random.default_rng.random()
        self.note("after ckpt", None)

    # -- history
    def note(self, what, val):
        self.out[self.rank].append([self.runner.tick(), what, val])

    def world(self):
        """Agents in order, their states and locations, and the edges, as this rank sees them."""
        ags = [[a.uid, a.state] for a in self.ctx.agents()]
        locs, at = {}, {}
        for name, s in (("grid", self.grid), ("cs", self.cs)):
            if s is None:
                continue
            for a in self.ctx.agents():
                l = s.get_location(a)
                locs[(name, a.uid)] = None if l is None else tuple(l.coordinates.tolist())
                if l is not None:
                    at[(name, locs[(name, a.uid)])] = [o.uid for o in s.get_agents(l)]
        edges = []
        for N, x in zip(self.case["nets"], self.nets):
            es = {}
            for u, v, d in x.graph.edges(data=True):
                k = (u.uid, v.uid) if N["d"] else tuple(sorted((u.uid, v.uid)))
                es[k] = dict(d)
            edges.append(es)
        return {"agents": ags, "locations": locs, "occupants": at, "edges": edges}


def differ(a, c):
    """A one-line description of how two history entries differ."""
    if a[:2] != c[:2] or not isinstance(a[2], dict):
        return "expected %r, got %r" % (a, c)
    for k in a[2]:
        x, y = a[2][k], c[2][k]
        if x == y:
            continue
        if isinstance(x, dict):
            x, y = {p: v for p, v in x.items() if p not in y or y[p] != v}, {p: v for p, v in y.items() if p not in x or x[p] != v}
        elif k == "agents":
            if sorted(map(repr, x)) == sorted(map(repr, y)):
                return "%r: same agents in another order: expected %r, got %r" % (a[:2], [q[0] for q in x], [q[0] for q in y])
            x, y = [q for q in x if q not in y], [q for q in y if q not in x]
        elif k == "edges":
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    x = {e: v for e, v in p.items() if q.get(e) != v}
                    y = {e: v for e, v in q.items() if p.get(e) != v}
                    break
        return "%r: %s: expected %r, got %r" % (a[:2], k, x, y)
    return None


def execute(case):
    import dill
    res = Result()
    n = case["n"]
    hist = {}

    def job(label, sched, simfs, load=None):
        out = hist[label] = [[] for _ in range(n)]

        def program(rank, r4, comm):
            path = os.path.join(simfs.dir, "ck_%r_%d")
            ckp = None
            if load is not None:
                with open(path % (load, rank), "rb") as f:
                    ckp = dill.load(f)
            m = Model(case, rank, r4, comm, out, path, ckp)
            m.runner.execute()
            m.write_held(True)
            out[rank].append([m.runner.tick(), "finished", None])
        try:
            with simfs:
                return run_sim(n, program, sched, res)
        finally:
            simfs.__exit__()

    fa, fb = fs.SimFS(), fs.SimFS(case.get("faults", ()))
    fb.small = case["small"]
    fc = None
    try:
        oa, sima = job("a", case["sched_a"], fa)
        if res.fails:
            return res
        # the job that is killed
        r, frac = case["kill"]
        ops = max(1, int(sima.ranks[r].ops * frac))
        sched = dict(case["sched"], kill=[r, ops])
        log_a = res.log
        job("b", sched, fb)
        log = res.log
        if res.fails:
            return res
        done = []
        for t in case["ck"]:
            try:
                for k in range(n):
                    p = os.path.join(fb.dir, "ck_%r_%d" % (t, k))
                    if os.path.getsize(p) == 0:
                        raise EOFError
                    import pickle
                    import pickletools
                    with open(p, "rb") as f:
                        for op, _, _ in pickletools.genops(f):
                            pass
                    if op.name != "STOP":
                        raise EOFError
                done.append(t)
            except (OSError, EOFError, ValueError):
                pass
        if not done:
            res.probe("killed before any checkpoint was complete")
            res.nontrivial = False
            res.log = log
            return res
        t = done[-1]
        # the killed job's history is a prefix of the uninterrupted one
        for k in range(n):
            a, b = hist["a"][k], hist["b"][k]
            for i, e in enumerate(b):
                res.evals += 1
                if i >= len(a) or a[i] != e:
                    res.fail("C16", "history differs", "rank %d, run under two schedules: %s" % (
                        k, differ(a[i], e) if i < len(a) else "extra %r" % (e[:2],)))
                    return res
        fc = fs.SimFS()
        for k in range(n):
            for q in case["ck"]:
                p = "ck_%r_%d" % (q, k)
                if q == t:
                    with open(os.path.join(fb.dir, p), "rb") as i, open(os.path.join(fc.dir, p), "wb") as o:
                        o.write(i.read())
        job("c", case["sched_c"], fc, load=t)
        res.log = log
        res.probe("restarts")
        for k in range(n):
            a, c = hist["a"][k], hist["c"][k]
            s = [i for i, e in enumerate(a) if e[1] == "ckpt" and e[0] == t][0]
            a = a[s:]
            if not case["rstop"]:
                # a stop scheduled anew is another event of its tick: compare what precedes that tick
                a = [e for e in a if e[0] < case["stop"]]
                c = [e for e in c if e[0] < case["stop"]]
            for i in range(max(len(a), len(c))):
                res.evals += 1
                if i >= len(c):
                    if res.fails:
                        break
                    res.fail("C15", "event missing after restore", "rank %d: %r does not happen after the restart at %r" % (k, a[i][:2], t))
                    return res
                if i >= len(a):
                    res.fail("C15", "extra event after restore", "rank %d: %r happens only after the restart at %r" % (k, c[i][:2], t))
                    return res
                if a[i] != c[i]:
                    d = differ(a[i], c[i])
                    res.fail("C15", "restored state differs" if i == 0 else "history differs after restore",
                             "rank %d, restart at %r, entry %d: %s" % (k, t, i, d))
                    return res
        res.nontrivial = n > 1 and any(len(x) > 3 for x in hist["c"])
        return res
    finally:
        fa.remove()
        fb.remove()
        if fc is not None:
            fc.remove()


def shrink(case):
    for k in ("evs", "ck", "nets"):
        for i in range(len(case[k])):
            if k == "ck" and len(case[k]) < 2:
                continue
            yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
    for i in range(case["n"]):
        if case["agents"][i]:
            yield dict(case, agents=case["agents"][:i] + [case["agents"][i] - 1] + case["agents"][i + 1:])
    for k, v in (("kind", "none"), ("faults", []), ("ends", 0), ("cross", 0), ("rm", 0), ("add", 0), ("shuffle", False), ("unplaced", 0),
                 ("tags", False), ("lazy", False), ("types", 1), ("rstop", True), ("perrank", False), ("small", False), ("hold", 0), ("restore", "fresh")):
        if case.get(k) not in (None, v):
            yield dict(case, **{k: v})
    if case["cross"] > 1:
        yield dict(case, cross=case["cross"] // 2)
    if case["stop"] > 2:
        yield dict(case, stop=case["stop"] - 1)
    for i, e in enumerate(case["evs"]):
        for k in ("kid", "void", "iv"):
            if e[k]:
                yield dict(case, evs=case["evs"][:i] + [dict(e, **{k: 0})] + case["evs"][i + 1:])
    for k in ("sched_a", "sched_c"):
        if case[k] != {"policy": "low", "forced": []}:
            yield dict(case, **{k: {"policy": "low", "forced": []}})
    if case["kill"][1] != 1.0:
        yield dict(case, kill=[case["kill"][0], 1.0])
    m = case["n"] - 1
    if m >= 1:
        yield dict(case, n=m, agents=case["agents"][:m], kill=[case["kill"][0] % m, case["kill"][1]],
                   evs=[e for e in case["evs"] if e["r"] < m])
