"""The same seeded model executed twice, under different schedules and object hashes.

The model draws everything from repast4py's random generator and records what it sees, in the
order in which it sees it: agents, ghosts, locations, neighbours, edges, value layers, events,
requested agents, and the log files it writes.  Both executions must record the same."""
import hashlib
import os
from ..common import Result, Fail, run_sim, gen_sched
from .. import fs
from . import ckpt

NAME = "repro"


def gen(rng, focus=None):
    case = ckpt.gen(rng)
    for k in ("ck", "kill", "faults", "sched_a", "sched_c", "small", "rstop", "tags", "lazy"):
        case.pop(k, None)
    case["wl"] = NAME
    case["tags"] = case["lazy"] = False
    case["ck"] = []
    case["req"] = rng.choice([0, .3, .7])
    case["link"] = rng.choice([0, .3, .7])
    case["log"] = rng.choice([0, 1, 2, 3])
    case["lbuf"] = rng.choice([1, 2, 3, 1000])
    case["vl"] = rng.choice([None, None, "sv", "rw"]) if case["kind"] != "none" and case["nd"] < 3 else None
    case["move"] = rng.choice([0, .3]) if case["kind"] == "none" else 0
    case["occ"] = "S" if case["kind"] in ("grid", "cspace") and rng.random() < .25 else "M"
    case["noghost"] = rng.choice([0, 0, .3])
    case["sched2"] = gen_sched(rng, case["n"])
    case["salt2"] = rng.randrange(1 << 16) if rng.random() < .8 else case["salt"]
    return case


class Model(ckpt.Model):

    def __init__(self, case, rank, r4, comm, out, path, salt):
        self.counts = [0, 0.0]
        self.vl = None
        self.tab = self.red = None
        self.nstep = 0
        case = dict(case, salt=salt)
        super().__init__(case, rank, r4, comm, out, path)

    def fresh(self):
        c, r4 = self.case, self.r4
        r4.random.init(c["seed"] + (self.rank if c["perrank"] else 0))
        if c["vl"]:
            S, V = r4.space, r4.value_layer
            cls = V.SharedValueLayer if c["vl"] == "sv" else V.ReadWriteValueLayer
            self.vl = cls(self.comm, S.BoundingBox(*c["b"]), S.BorderType.Periodic if c["per"] else S.BorderType.Sticky, c["buf"], "random")
            self.ctx.add_value_layer(self.vl)
        if c["log"] & 1:
            self.tab = r4.logging.TabularLogger(self.comm, os.path.join(self.path, "log/t.csv"), ["tick", "rank", "a", "b"])
        if c["log"] & 2:
            m = self

            class Src:
                def __init__(self, name, i, dt):
                    self.name, self.i, self.dtype = name, i, dt

                @property
                def value(self):
                    return m.counts[self.i]
            ls = [r4.logging.ReducingDataLogger(Src("n", 0, int), r4.MPI.SUM, self.rank),
                  r4.logging.ReducingDataLogger(Src("x", 1, float), r4.MPI.MAX, self.rank)]
            self.red = r4.logging.ReducingDataSet(ls, self.comm, os.path.join(self.path, "log/r.csv"), buffer_size=c["lbuf"])
        super().fresh(seeded=True)
        if self.tab is not None or self.red is not None:
            r4.schedule.runner().schedule_end_event(self.close)

    def close(self):
        for x in (self.tab, self.red):
            if x is not None:
                x.write()

    def step(self):
        c, ctx = self.case, self.ctx
        rng = self.r4.random.default_rng
        super().step()
        self.nstep += 1
        # what every rank does at the same point, decided alike by all (a generator of their own)
        coin = self.coin()
        if coin.random() < max(c["req"], c["link"]):
            cnt = self.comm.allgather([a.uid for a in ctx.agents()])
            every = [(tuple(u), r) for r, us in enumerate(cnt) for u in us if r != self.rank]
            want = []
            for _ in range(3):
                if every and rng.random() < c["req"]:
                    want.append(every[int(rng.integers(len(every)))])
            got = ctx.request_agents(want, self.restore)
            self.note("requested", [(a.uid, a.state, a.local_rank) for a in got])
            mine = sorted(ctx.agents(), key=lambda a: a.uid)
            for g in got:
                for x in self.nets:
                    if mine and rng.random() < c["link"]:
                        a = mine[int(rng.integers(len(mine)))]
                        if a.uid < g.uid and not x.contains_edge(a, g):
                            x.add_edge(a, g, w=int(rng.integers(100)))
        if c["move"] and coin.random() < c["move"]:
            mv = [(a.uid, int(rng.integers(c["n"]))) for a in sorted(ctx.agents(), key=lambda a: a.uid) if rng.random() < .3]
            ctx.move_agents(mv, self.restore)
            self.seen("moved")
        if self.vl is not None:
            S = self.r4.space
            lb = (self.vl.read_layer if c["vl"] == "rw" else self.vl).local_bounds
            for _ in range(3):
                x, y = lb.xmin + int(rng.integers(lb.xextent)), (lb.ymin + int(rng.integers(lb.yextent)) if c["nd"] > 1 else 0)
                self.vl.set(S.DiscretePoint(int(x), int(y), 0), float(rng.random()))
            if c["vl"] == "rw":
                self.vl.swap_layers()
        ctx.synchronize(self.restore, sync_ghosts=coin.random() >= c["noghost"])
        self.seen("again")
        ags = list(ctx.agents())
        self.counts = [len(ags), float(rng.random())]
        if self.tab is not None:
            for a in ags:
                self.tab.log_row(self.runner.tick(), self.rank, a.uid, a.state[1])
            if coin.random() < .4:
                self.tab.write()
        if self.red is not None:
            self.red.log(self.runner.tick())

    def coin(self):
        import random
        return random.Random("%d:%d" % (self.case["seed"], self.nstep))

    def note(self, what, val):
        super().note(what, val)
        if what == "step":
            self.seen("order")

    def seen(self, what):
        """Everything in the order in which the library lists it."""
        c, ctx = self.case, self.ctx
        out = [[a.uid for a in ctx.agents()], [a.uid for a in ctx.agents(shuffle=True)]]
        for t in range(c["types"]):
            try:
                out.append([a.uid for a in ctx.agents(t, shuffle=True)])
            except KeyError:
                out.append(None)
        for x in self.nets:
            out.append([(u.uid, v.uid, sorted(d.items(), key=repr)) for u, v, d in x.graph.edges(data=True)])
            out.append([n.uid for n in x.graph.nodes])
        for s in (self.grid, self.cs):
            if s is None:
                continue
            pts = {}
            for a in ctx.agents():
                l = s.get_location(a)
                if l is not None:
                    pts[tuple(l.coordinates.tolist())] = [o.uid for o in s.get_agents(l)]
            out.append(list(pts.items()))
            if s is self.grid:
                nb = []
                for p in list(pts)[:5]:
                    nb.append([o.uid for o in s.get_num_agents and s.get_agents(self.r4.space.DiscretePoint(*[int(q) for q in p]))])
                out.append(nb)
            else:
                lb = s.get_local_bounds()
                box = self.r4.space.BoundingBox(lb.xmin - c["buf"], lb.xextent + 2 * c["buf"], lb.ymin - c["buf"], lb.yextent + 2 * c["buf"],
                                                lb.zmin - c["buf"] if c["nd"] > 2 else 0, lb.zextent + 2 * c["buf"] if c["nd"] > 2 else 0)
                out.append([o.uid for o in s.get_agents_within(box)])
        if self.vl is not None:
            g = (self.vl.read_layer if c["vl"] == "rw" else self.vl).grid
            out.append(hashlib.sha256(g.numpy().tobytes()).hexdigest())
        super().note(what, out)


def one(case, sched, salt, res):
    n = case["n"]
    out = [[] for _ in range(n)]
    F = fs.SimFS()
    rest = [None] * n

    def program(rank, r4, comm):
        import torch
        m = Model(case, rank, r4, comm, out, F.dir, salt)
        m.runner.execute()
        out[rank].append([m.runner.tick(), "finished", str(r4.random.default_rng.bit_generator.state["state"])])
        rest[rank] = hashlib.sha256(torch.get_rng_state().numpy().tobytes()).hexdigest()
    try:
        with F:
            run_sim(n, program, sched, res, isolate_rng=True)
        files = F.files()
    finally:
        F.__exit__()
        F.remove()
    return out, files, rest


def execute(case):
    res = Result()
    n = case["n"]
    oa, fa, ra = one(case, case["sched"], case["salt"], res)
    log = res.log
    if res.fails:
        return res
    ob, fb, rb = one(case, case["sched2"], case["salt2"], res)
    res.log = log
    if res.fails:
        return res
    for k in range(n):
        for i in range(max(len(oa[k]), len(ob[k]))):
            res.evals += 1
            a = oa[k][i] if i < len(oa[k]) else None
            b = ob[k][i] if i < len(ob[k]) else None
            if a == b:
                continue
            if a is None or b is None:
                d = "%r happens in one of them only" % ((a or b)[:2],)
            elif isinstance(a[2], list) and a[:2] == b[:2] and isinstance(b[2], list):
                d = "%r: " % (a[:2],) + "; ".join("%r or %r" % (x, y) for x, y in zip(a[2], b[2]) if x != y)[:600]
            else:
                d = ckpt.differ(a, b)
            res.fail("C16", "history differs", "rank %d, entry %d: %s" % (k, i, d))
            return res
    for p in sorted(set(fa) | set(fb)):
        res.evals += 1
        if fa.get(p) != fb.get(p):
            res.fail("C16", "log file differs", "%s: %r or %r" % (p, (fa.get(p) or b"")[:200], (fb.get(p) or b"")[:200]))
            return res
    if ra != rb:
        res.fail("C16", "random generator differs", "torch generator state at the end: %r or %r" % (ra, rb))
    res.probe("files compared", len(fa))
    res.probe("entries compared", sum(len(x) for x in oa))
    res.outhash = hashlib.sha256(repr((oa, sorted(fa.items()))).encode()).hexdigest()[:20]
    res.nontrivial = n > 1 and any(len(x) > 3 for x in oa)
    return res


def shrink(case):
    for c in ckpt.shrink(dict(case, faults=[], small=False, rstop=True, kill=[0, 1.0], sched_a={"policy": "low", "forced": []},
                              sched_c={"policy": "low", "forced": []})):
        for k in ("faults", "small", "rstop", "kill", "sched_a", "sched_c"):
            c.pop(k, None)
        yield c
    for k, v in (("req", 0), ("link", 0), ("log", 0), ("vl", None), ("move", 0), ("noghost", 0), ("occ", "M"), ("salt2", case["salt"])):
        if case[k] != v:
            yield dict(case, **{k: v})
    for s in ({"policy": "low", "forced": []}, {"policy": "high", "forced": []}):
        if case["sched2"] not in ({"policy": "low", "forced": []}, {"policy": "high", "forced": []}):
            yield dict(case, sched2=s)
