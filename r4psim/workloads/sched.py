"""The shared schedule: tick order, priorities, exactly-once execution, stop and end events.

A case gives every rank a list of events; an event's executions may schedule further events
(also in the executing tick, or in the past), void others, or stop the run.  Every execution is
recorded with the global step order of the simulator, and the history of each rank is checked
against an executable model of the documented rules; the merged history is checked for no rank
running ahead of any other."""
from ..common import Result, Fail, Stopped, run_sim, gen_sched, gen_world, RANKS, replay_cur

NAME = "sched"
TYPES = ["FIRST", "LAST", "RANDOM", "BY_PRIORITY"]


def gen(rng, focus=None):
    n = rng.choice(RANKS) if focus != "rank" else rng.choice([1, 1, 2])
    if n > 8:
        n = 8
    grid = rng.choice([1, 1, 0.5, 0.25, 0.1])
    stop = rng.randrange(1, 9) * grid
    style = rng.choice(["both", "sched", "call"])
    nid = 0
    wt = rng.choice([[1, 1, 1, 1], [1, 1, 3, 4], [0, 0, 1, 2], [3, 3, 1, 1], [0, 0, 1, 1]])
    p_same = rng.choice([0.0, 0.2, 0.5])
    p_void = rng.choice([0.0, 0.1, 0.3])
    prios = rng.choice([[0, 1, 2, 3], [0.5, -1.0, 2.0, 1e9, -3.5], list(range(-10, 10))])
    ranks = []
    for r in range(n):
        evs = []
        cnt = rng.choice([0, 1, 2, 3, 4, 6, 9]) if focus != "rank" else rng.choice([3, 6, 9, 14])
        ids = []
        for _ in range(cnt):
            ids.append(nid)
            nid += 1
        kids = []

        def ev(i, at, depth):
            nonlocal nid
            e = {"id": i, "at": at, "t": rng.choices(TYPES, wt)[0], "p": rng.choice(prios)}
            if rng.random() < 0.35:
                e["iv"] = rng.choice([grid, 2 * grid, 3 * grid, 1.0, 0.7])
            acts = []
            if depth < 3:
                for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                    k = rng.random()
                    if k < p_void and ids:
                        acts.append(["void", rng.choice(ids)])
                    elif k < 0.75:
                        if rng.random() < p_same:
                            off = 0
                        else:
                            off = rng.choice([grid, grid, 2 * grid, 3 * grid, -grid, -1.0, 0.3, stop])
                        j = nid
                        nid += 1
                        ids.append(j)
                        c = ev(j, off, depth + 1)
                        if rng.random() < .3 and "iv" in c and off == 0:
                            del c["iv"]
                        c["once"] = rng.randrange(0, 3)     # on which execution of the parent
                        acts.append(["new", c])
            e["acts"] = acts
            return e
        for i in ids[:cnt]:
            evs.append(ev(i, rng.randrange(0, 8) * grid, 0))
        ends = [nid + k for k in range(rng.choice([0, 0, 1, 2]))]
        nid += len(ends)
        how = {"both": rng.choice(["sched", "call"])}.get(style, style)
        ranks.append({"evs": evs, "ends": ends, "stop": how, "spos": rng.randrange(0, cnt + 1),
                      "st": rng.choice(TYPES), "vend": rng.random() < .15})
    case = {"wl": NAME, "n": n, "stop": stop, "ranks": ranks,
            "coll": [rng.randrange(0, 8) * grid for _ in range(rng.choice([0, 0, 1, 2, 4]))],
            "extra": [[rng.randrange(n), rng.randrange(0, 8) * grid, rng.choice(["rerun"])] for _ in range(0)],
            "seed": rng.randrange(1 << 30), "yield": rng.random() < 0.8}
    if rng.random() < .3:
        case["shuf"] = [rng.randrange(6, 12), rng.choice([0, 0, 2, 3]), grid]
        case["stop"] = max(stop, rng.choice([5, 5, 12]) * grid)
    case["sched"] = gen_sched(rng, n)
    world = gen_world(rng, n)
    if world:
        case["world"] = world
    return case


class RankModel:
    """What one rank may execute next."""

    def __init__(self, rank, stop):
        self.rank = rank
        self.pending = {}       # id -> [at, order, type, priority, interval, spec]
        self.order = 0
        self.tick = -1.0
        self.voided = set()
        self.stopped = False
        self.same = 0

    def schedule(self, e, at):
        if self.tick >= 0 and at < self.tick or at < 0:
            return False
        self.order += 1
        self.pending[e["id"]] = [at, self.order, e["t"], e["p"], e.get("iv"), e]
        if at == self.tick:
            self.same += 1
        return True

    def void(self, i):
        self.pending.pop(i, None)
        self.voided.add(i)

    def check(self, i, tick):
        """Event i is executed at tick: is that allowed, and why not?"""
        p = self.pending.get(i)
        if p is None:
            if i in self.voided:
                return "voided event %d executed" % i
            return "event %d executed at %r though it is not scheduled (again)" % (i, tick)
        if p[0] != tick:
            return "event %d scheduled for %r executed at %r" % (i, p[0], tick)
        if tick < self.tick:
            return "event %d at %r executed after tick %r" % (i, tick, self.tick)
        for j, q in self.pending.items():
            if q[0] < tick:
                return "event %d at %r executed although event %d is pending at %r" % (i, tick, j, q[0])
        same = {j: q for j, q in self.pending.items() if q[0] == tick}
        firsts = sorted((q[1], j) for j, q in same.items() if q[2] == "FIRST")
        mids = {j: q for j, q in same.items() if q[2] in ("RANDOM", "BY_PRIORITY")}
        lasts = sorted((q[1], j) for j, q in same.items() if q[2] == "LAST")
        if firsts:
            if i != firsts[0][1]:
                return "%s event %d executed at %r before FIRST event %d" % (p[2], i, tick, firsts[0][1])
        elif mids:
            if i not in mids:
                return "LAST event %d executed at %r before %r" % (i, tick, sorted(mids))
            if p[2] == "BY_PRIORITY":
                b = min((q[3], j) for j, q in mids.items() if q[2] == "BY_PRIORITY")
                if b[0] < p[3]:
                    return "event %d with priority %r executed at %r before event %d with priority %r" % (i, p[3], tick, b[1], b[0])
        elif lasts and i != lasts[0][1]:
            return "LAST event %d executed at %r before LAST event %d scheduled earlier" % (i, tick, lasts[0][1])
        return None

    def executed(self, i, tick):
        self.tick = tick
        return self.pending.pop(i)

    def repeat(self, i, p):
        """After an execution: a repeating event that was not voided occurs again."""
        if p[4] is not None and i not in self.voided:
            p[0] = p[0] + p[4]
            self.pending[i] = p


def execute(case):
    res = Result()
    n = case["n"]
    glob = []           # (rank, tick) in global order
    done = {}
    coll = [0]

    def program(rank, r4, comm):
        r4.random.init(case["seed"] + rank * 0)
        S = r4.schedule
        runner = S.init_schedule_runner(comm)
        spec = case["ranks"][rank]
        m = RankModel(rank, case["stop"])
        handles, count = {}, {}
        bad = []
        ended = []

        def occurs(i, e):
            def f():
                if case["yield"]:
                    replay_cur().yield_point("evt")
                t = runner.tick()
                why = m.check(i, t)
                if why:
                    bad.append(why)
                    res.fail("C11", "order", "rank %d: %s" % (rank, why))
                    raise Stopped()
                if m.stopped and t > case["stop"]:
                    res.fail("C12", "ran after stop", "rank %d: event %d executed at %r, the run stops at %r" % (rank, i, t, case["stop"]))
                res.evals += 1
                if glob and glob[-1][1] > t:
                    res.fail("C12", "ran ahead", "rank %d executes tick %r after rank %d executed tick %r" % (rank, t, glob[-1][0], glob[-1][1]))
                glob.append((rank, t))
                p = m.executed(i, t)
                k = count.get(i, 0)
                count[i] = k + 1
                if e.get("coll") is not None:
                    got = comm.allreduce(e["coll"] * 1000 + 1)
                    if got != n * (e["coll"] * 1000 + 1):
                        res.fail("C12", "collective event", "rank %d: collective event %d at %r met other ranks' %r" % (rank, e["coll"], t, got))
                    res.probe("collective events")
                if "row" in e:
                    e["row"].setdefault(t, []).append(i)
                for a in e["acts"]:
                    if a[0] == "new":
                        if a[1]["once"] == k and a[1]["id"] not in handles:
                            put(a[1], t + a[1]["at"])
                    elif a[0] == "void" and a[1] in handles:
                        handles[a[1]].void()
                        m.void(a[1])
                        res.probe("voided")
                if e.get("stop"):
                    runner.stop()
                    m.stopped = True
                m.repeat(i, p)
            return f

        def with_args(f, i):
            """The same event, as a method that is passed arguments when it is executed."""
            def g(*args, **kwargs):
                if args != (i, "x") or kwargs != {"k": [i]}:
                    res.fail("C11", "arguments", "rank %d: event %d executed with arguments %r %r" % (rank, i, args, kwargs))
                f()
            res.probe("events with arguments")
            return S.create_arg_evt(g, i, "x", k=[i])

        def put(e, at):
            f = occurs(e["id"], e)
            if e["id"] % 3 == 1:
                f = with_args(f, e["id"])
            pt = getattr(S.PriorityType, e["t"])
            if e.get("via") == "stop":
                h = runner.schedule_stop(at)
                m.order += 1
                return
            if "iv" in e:
                h = runner.schedule_repeating_event(at, e["iv"], f, pt, e["p"])
            elif e["t"] == "RANDOM" and e["id"] % 2:
                h = runner.schedule_event(at, f)
            else:
                h = runner.schedule_event(at, f, priority_type=pt, priority=e["p"])
            handles[e["id"]] = h
            if not m.schedule(e, at):
                res.probe("scheduled in the past")

        rows = {}
        if "shuf" in case:
            kr, kp, iv = case["shuf"]
            for j in range(kr + kp):
                # all occur at the same ticks; each execution is also seen by the rules above
                put({"id": 100000 + j, "at": 0.0, "iv": iv, "t": "RANDOM" if j < kr else "BY_PRIORITY",
                     "p": j, "acts": [], "row": rows}, 0.0)
        nco = 0
        for k, e in enumerate(spec["evs"] + [None]):
            if k == min(spec["spos"], len(spec["evs"])):
                if spec["stop"] == "sched":
                    runner.schedule_stop(case["stop"])
                    m.order += 1
                else:
                    put({"id": -1, "at": case["stop"], "t": spec["st"], "p": 0, "acts": [], "stop": True}, case["stop"])
                for at in case["coll"]:
                    if at <= case["stop"]:
                        put({"id": -100 - nco, "at": at, "t": "FIRST", "p": 0, "acts": [], "coll": nco + 1}, at)
                    nco += 1
            if e is not None:
                put(e, e["at"])
        for i in spec["ends"]:
            def end(i=i):
                ended.append(i)
                if ended.count(i) > 1:
                    res.fail("C12", "end event", "rank %d: end event executed %d times" % (rank, ended.count(i)))
                left = sorted(j for j, q in m.pending.items() if q[0] <= case["stop"])
                if left:
                    res.fail("C11 C12", "not executed", "rank %d: events %r (at <= %r) were not executed before the end" % (rank, left, case["stop"]))
            h = runner.schedule_end_event(end)
            if spec["vend"] and i == spec["ends"][-1]:
                h.void()
        runner.execute()
        res.probe("same-tick events", m.same)
        left = sorted(j for j, q in m.pending.items() if q[0] <= case["stop"])
        if left:
            res.fail("C11 C12", "not executed", "rank %d: events %r (at <= %r) were never executed" % (rank, left, case["stop"]))
        want = [i for i in spec["ends"] if not (spec["vend"] and i == spec["ends"][-1])]
        if sorted(ended) != want:
            res.fail("C12", "end event", "rank %d: end events %r executed, expected %r" % (rank, ended, want))
        if rows:
            orders = [tuple(i for i in o if i < 100000 + kr) for o in rows.values()]
            if len(orders) >= 5:
                res.probe("shuffle runs")
                if len(set(orders)) == 1:
                    res.fail("C11", "no shuffle", "rank %d: %d random events executed in the same order %r at each of %d ticks" % (rank, kr, orders[0], len(orders)))
                if kp > 1 and all(all(i < 100000 + kr for i in o[:kr]) or all(i < 100000 + kr for i in o[kp:]) for o in rows.values()):
                    res.fail("C11", "no shuffle", "rank %d: random events are never shuffled into those with a priority" % rank)
                full = [o for o in rows.values() if len(o) == kr + kp]
                if kp and (kp / (kp + kr)) ** len(full) < 1e-8:
                    # one of the random events is last (and first) of these with this probability each
                    res.probe("shuffle ends")
                    for w, k in (("first", 0), ("last", -1)):
                        if all(o[k] >= 100000 + kr for o in full):
                            res.fail("C11", "no shuffle", "rank %d: in %d ticks no random event was %s among those with a priority" % (rank, len(full), w))
        done[rank] = len(glob)
        return True

    outcome, sim = run_sim(n, program, case["sched"], res, world=case.get("world"))
    if outcome == "done":
        # nobody may have left while another rank still had a tick to execute before the stop
        res.probe("events executed", len(glob))
    ranks = {r for r, _ in glob}
    res.nontrivial = len(glob) > 1 and (len(ranks) > 1 or n == 1)
    return res


def shrink(case):
    n = case["n"]
    for i in range(n):
        if n > 1:
            yield dict(case, n=n - 1, ranks=case["ranks"][:i] + case["ranks"][i + 1:])
    if case["coll"]:
        yield dict(case, coll=case["coll"][1:])
    if "shuf" in case:
        yield {k: v for k, v in case.items() if k != "shuf"}
    for i, r in enumerate(case["ranks"]):
        def w(r2):
            return dict(case, ranks=case["ranks"][:i] + [r2] + case["ranks"][i + 1:])
        for j in range(len(r["evs"])):
            yield w(dict(r, evs=r["evs"][:j] + r["evs"][j + 1:]))
        if r["ends"]:
            yield w(dict(r, ends=[]))
        for j, e in enumerate(r["evs"]):
            def we(e2):
                return w(dict(r, evs=r["evs"][:j] + [e2] + r["evs"][j + 1:]))
            if "iv" in e:
                yield we({k: v for k, v in e.items() if k != "iv"})
            for k in range(len(e["acts"])):
                yield we(dict(e, acts=e["acts"][:k] + e["acts"][k + 1:]))
                if e["acts"][k][0] == "new" and e["acts"][k][1]["acts"]:
                    yield we(dict(e, acts=e["acts"][:k] + [["new", dict(e["acts"][k][1], acts=[])]] + e["acts"][k + 1:]))
    if case["yield"]:
        yield dict(case, **{"yield": False})
