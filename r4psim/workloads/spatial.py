"""Agents in a context with shared grids / continuous spaces: moves, removals, ghosts, requests.

A case is a concrete list of operations.  A reference model (one global dictionary of agents)
replays it and predicts, for every synchronisation point, who owns which agent, where it is,
what its state is and which ranks must hold a ghost of it.  The same operations run on the real
library under the simulator, and everything visible through the public API is compared.
"""
import collections
import math
from ..common import (Result, Fail, Stopped, run_sim, gen_sched, gen_world, agent_class, Restore, dims_create, RANKS, listings)

NAME = "spatial"
EDGE = 1e-9


# ------------------------------------------------------------------ generation
def gen(rng, focus=None):
    n = rng.choice(RANKS)
    nd = rng.choice([1, 2, 2, 2, 3])
    kind = rng.choice(["grid", "grid", "cspace", "both"])
    if kind != "grid" and nd == 1:
        nd = 2
    if nd == 3 and n > 8:
        n = 8
    per = rng.random() < 0.5
    buf = rng.choice([0, 1, 1, 2, 2, 3])
    if focus in ("ghost", "request"):
        buf = max(buf, 1)
    if focus == "request" and rng.random() < .3:
        buf = 0
    procs = dims_create(n, nd)
    huge = rng.random() < .06 and kind == "cspace"      # (a grid is searched cell by cell for its buffer)
    b = []
    for d in range(3):
        if d < nd:
            base = rng.randrange(max(buf, 1), max(buf, 1) + (6 if nd < 3 else 3)) * (10 ** 8 if huge else 1)
            ext = base * procs[d] + (rng.randrange(procs[d]) if rng.random() < .6 else 0)
            mn = 0 if rng.random() < 0.6 else rng.randrange(-20, 20)
            b += [mn, ext]
        else:
            b += [0, 0]
    occ = "S" if rng.random() < 0.2 else "M"
    projs = []
    if kind in ("grid", "both"):
        projs.append({"k": "grid", "name": "g", "b": b, "per": per, "occ": occ, "buf": buf})
    if kind in ("cspace", "both"):
        projs.append({"k": "cspace", "name": "c", "b": b, "per": per,
                      "occ": "M" if kind == "both" else occ,
                      "buf": buf, "thr": rng.choice([1, 2, 3, 5, 100])})
        if kind == "both" and occ == "S":
            projs[0]["occ"] = "M"
    if len(projs) == 2 and rng.random() < .5:
        projs.reverse()
        if buf and rng.random() < .4:
            projs[0]["buf"] = rng.randrange(0, buf + 1)
    if rng.random() < .12 and occ == "M" and not huge:
        projs.insert(rng.randrange(len(projs) + 1), {"k": "grid", "name": "h", "b": b, "per": per, "occ": "M", "buf": rng.choice([buf, buf, 0])})
        kind = kind if kind == "grid" else "both"
    cont = kind != "grid"
    case = {"wl": NAME, "n": n, "projs": projs, "restore": rng.choice(["fresh", "fresh", "cached"]),
            "late": rng.random() < 0.1, "salt": rng.randrange(1 << 20), "box": rng.random() < .3}
    few = rng.choice([2, 3]) if rng.random() < .35 else 1000

    def value():
        """The state of an agent: often one it has had before."""
        return rng.randrange(few)

    def coord(d, near=None):
        mn, ext = b[2 * d], b[2 * d + 1]
        if d >= nd:
            return 0
        r = rng.random()
        if near is not None and r < 0.45:
            v = near[d] + rng.choice([-2, -1, -1, 0, 0, 1, 1, 2])
        elif r < 0.65:      # close to a partition boundary or the border
            p = procs[d]
            k = rng.randrange(0, p + 1)
            v = mn + (ext * k) // p + rng.choice([-buf - 1, -buf, -1, 0, 0, buf - 1, buf, buf + 1])
        elif r < 0.75:      # beyond the border
            v = rng.choice([mn - rng.randrange(1, 2 * ext + 2), mn + ext + rng.randrange(0, 2 * ext + 2)])
        else:
            v = mn + rng.randrange(ext)
        if cont:
            q = rng.random()
            if q < 0.35:
                v = float(v)
            elif q < 0.8:
                v = v + rng.randrange(16) / 16.0
            elif q < 0.97 or kind == "both":
                v = v + rng.random()
            elif q < 0.985:
                v = mn + rng.choice([-1e-18, -1e-17, 1e-12, -1e-12])
            else:               # just within, or just beyond, the upper border
                v = mn + ext + rng.choice([-1e-8, -9e-9, -1e-9, -1e-12, 0., 1e-12])
        return v

    hot = [[coord(d) for d in range(3)] for _ in range(rng.randrange(1, 5))]

    def point(near=None):
        if rng.random() < 0.25:
            return list(rng.choice(hot))
        return [coord(d, near) for d in range(3)]

    nag = rng.randrange(1, 14) if rng.random() < .85 else rng.randrange(10, 40)
    alive, loc, nextid = [], {}, 0
    share, used = rng.random() < .4, []
    ntypes = rng.randrange(1, 4)
    steps = []

    def new_agent():
        nonlocal nextid
        uid = [nextid, rng.randrange(ntypes), rng.randrange(n)]
        if share and nextid and rng.random() < .7:
            # ids are unique only among the agents of a type created on a rank
            while uid in used or uid[0] == nextid and rng.random() < .9:
                uid = [rng.randrange(nextid + 1), rng.randrange(ntypes), rng.choice([uid[2], rng.randrange(n)])]
        used.append(uid)
        nextid = max(nextid, uid[0] + 1)
        p = point()
        if rng.random() < 0.9:
            # start near home so that not everything migrates at once; the run decides ownership
            pass
        alive.append(uid)
        loc[tuple(uid)] = p
        return ["add", uid, value(), p]

    steps.append({"ops": [new_agent() for _ in range(nag)], "coll": "sync"})
    w_rm = rng.choice([0.02, 0.08, 0.25]) if focus != "remove" else rng.choice([0.1, 0.3])
    w_set = rng.choice([0.1, 0.4])
    w_nrm = rng.choice([0, 0, 0.06])
    w_add = rng.choice([0.0, 0.05, 0.15])
    w_q = rng.choice([0.0, 0.2]) if focus != "query" else 0.5
    w_req = {"request": 0.7, "remove": 0.3}.get(focus, rng.choice([0.0, 0.0, 0.3]))
    for _ in range(rng.randrange(1, 7) if rng.random() < .93 else rng.randrange(8, 15)):
        ops = []
        for _ in range(rng.choice([0, 1, 2, 3, 6, 10, 20])):
            r = rng.random()
            if r < w_add or not alive:
                ops.append(new_agent())
                continue
            u = rng.choice(alive)
            r = rng.random()
            if r < w_rm:
                ops.append(["rm", u])
                alive.remove(u)
            elif r > 1 - w_nrm:     # out of a space, but not out of the context
                ops.append(["nrm", u, rng.randrange(4)])
            elif r < w_rm + w_set:
                ops.append(["set", u, value()])
            elif r < w_rm + w_set + w_q:
                if rng.random() < .4:
                    # the agents around an agent are iterated over, while some of them leave
                    ops.append(["iq", u, rng.randrange(4), rng.randrange(4), rng.randrange(2),
                                [[rng.choice(["rm", "move", "move"]), rng.randrange(6), point(loc[tuple(u)])] for _ in range(rng.randrange(1, 4))]])
                else:
                    ops.append(["q", rng.randrange(n), point(), [rng.randrange(1, 6) for _ in range(3)]])
            else:
                p = point(loc[tuple(u)])
                loc[tuple(u)] = p
                ops.append(["move", u, p])
        if focus == "remove" and len(alive) > 2 and rng.random() < .25:
            for u in rng.sample(alive, rng.randrange(2, min(len(alive), 6))):
                ops.append(["rm", u])
                alive.remove(u)
        coll = "sync"
        r = rng.random()
        reqs = None
        if r < w_req and alive:
            coll = "req"
            reqs = []
            for _ in range(rng.randrange(1, 6)):
                reqs.append([rng.randrange(n), rng.choice(alive)])
        elif r < w_req + 0.04:
            coll = "nog"
        st = {"ops": ops, "coll": coll}
        if reqs:
            st["reqs"] = reqs
        steps.append(st)
    steps.append({"ops": [], "coll": "sync"})
    if len(projs) == 2 and not case["late"] and rng.random() < .25:
        # one of the spaces is added to the context while the run is under way
        case["lateat"] = [rng.randrange(2), rng.randrange(1, len(steps))]
    case["steps"] = steps
    case["sched"] = gen_sched(rng, n)
    world = gen_world(rng, n)
    if world:
        case["world"] = world
    return case


# ------------------------------------------------------------------ reference model
def wrap1(v, mn, ext, per, cont):
    if per:
        if mn <= v < mn + ext:
            return v
        nc = math.fmod(v - mn, ext)
        r = (mn + ext) + nc if nc < 0 else mn + nc
        if r >= mn + ext:       # rounding of a tiny negative remainder: same place as the minimum
            r = float(mn)
        return r if cont else int(r)
    if cont:
        if mn <= v < mn + ext:
            return v
        top = mn + ext - 0.00000001
        if top == mn + ext:     # the offset is rounded away when the bounds are large
            top = math.nextafter(mn + ext, mn)
        return max(float(mn), min(top, v))
    return max(mn, min(mn + ext - 1, v))


class Model:
    def __init__(self, case, bounds):
        """bounds[proj index][rank] = (xmin, xext, ymin, yext, zmin, zext) as the library reports."""
        self.case = case
        self.n = case["n"]
        self.projs = case["projs"]
        self.bounds = bounds
        self.agents = {}        # uid -> dict(owner, v, loc=[per proj])
        self.req = {}           # rank -> set of uids requested there
        self.ghosts = [dict() for _ in range(self.n)]     # rank -> uid -> [loc per proj or None]
        self.out = {}           # uid -> proj -> the rank on which it was taken out of the projection
        self.view_known = True
        self.gv = [dict() for _ in range(self.n)]         # rank -> uid -> state its ghost shows

    def local_pt(self, pi, p):
        P = self.projs[pi]
        b = P["b"]
        nd = 1 + (b[3] > 0) + (b[5] > 0)
        cont = P["k"] == "cspace"
        out = []
        for d in range(3):
            if d >= nd:
                out.append(0.0 if cont else 0)
                continue
            v = p[d] if cont else math.floor(p[d])
            out.append(wrap1(v, b[2 * d], b[2 * d + 1], P["per"], cont))
        return tuple(out)

    def inside(self, pi, r, pt, pad=0, closed=0.0):
        """Half-open membership of pt in rank r's local bounds grown by pad (periodic images
        count when the projection is periodic).  closed>0 widens, closed<0 narrows the edges."""
        P = self.projs[pi]
        b, lb = P["b"], self.bounds[pi][r]
        for d in range(3):
            if b[2 * d + 1] == 0:
                continue
            lo, hi = lb[2 * d] - pad, lb[2 * d] + lb[2 * d + 1] + pad
            ok = False
            for sh in ((0,) if not (P["per"] and pad) else (-b[2 * d + 1], 0, b[2 * d + 1])):
                v = pt[d] + sh
                if lo - closed <= v < hi + closed:
                    ok = True
            if not ok:
                return False
        return True

    def owner_of(self, pi, pt):
        for r in range(self.n):
            if self.inside(pi, r, pt):
                return r
        return None

    def occupied_view(self, pi, r, pt, but):
        for u, a in self.agents.items():
            if u != but and a["owner"] == r and a["loc"][pi] == pt:
                return True
        for u, g in self.ghosts[r].items():
            if u != but and g[pi] == pt:
                return True
        return False

    def global_occ(self, pi, pt, but):
        return any(u != but and a["loc"][pi] == pt for u, a in self.agents.items())


def plan(case, bounds):
    """Walk the case through the model: executable steps with expectations."""
    m = Model(case, bounds)
    np_ = len(case["projs"])
    single = any(P["occ"] == "S" for P in case["projs"])
    out = []
    used = [set() for _ in range(np_)]
    seen = set()
    lp, ls = case.get("lateat") or (None, 0)
    if lp is not None and lp >= np_:
        lp = None

    def locate(si, p):
        return [None if pi == lp and si < ls else m.local_pt(pi, p) for pi in range(np_)]

    for si, st in enumerate(case["steps"]):
        per_rank = [[] for _ in range(m.n)]
        late = []
        if lp is not None and si == ls:
            late = [[] for _ in range(m.n)]
            for u, a in m.agents.items():
                a["loc"][lp] = m.local_pt(lp, a["p"])
                used[lp].add(a["loc"][lp])
                late[a["owner"]].append((u, a["p"], a["loc"][lp]))
        claimed = [dict() for _ in range(np_)]
        start_occ = [dict() for _ in range(np_)]
        for u, a in m.agents.items():
            for pi in range(np_):
                if a["loc"][pi] is not None:
                    start_occ[pi][a["loc"][pi]] = u
        nadds = 0

        def place(u, r, pts):
            """Single occupancy: 'ok', 'reject' or 'skip' for a move of u on rank r."""
            verdict = "ok"
            for pi in range(np_):
                if case["projs"][pi]["occ"] != "S":
                    continue
                pt = pts[pi]
                cur = m.agents[u]["loc"][pi] if u in m.agents else None
                if pt == cur:
                    continue
                if not m.view_known:
                    return "skip"
                if m.occupied_view(pi, r, pt, u):
                    verdict = "reject"
                    continue
                if start_occ[pi].get(pt, u) != u and not (m.inside(pi, r, pt) and m.agents.get(start_occ[pi][pt], {}).get("owner") == r):
                    return "skip"
                if claimed[pi].get(pt, (u, r))[0] != u and claimed[pi][pt][1] != r:
                    return "skip"
                if m.global_occ(pi, pt, u):
                    return "skip"
            return verdict

        todo = collections.deque(st["ops"])
        while todo:
            op = todo.popleft()
            k = op[0]
            if k == "add":
                u = tuple(op[1])
                if u in seen or u[2] >= m.n:
                    continue
                pts = locate(si, op[3])
                r = u[2]
                if single:
                    # an agent starts somewhere free inside its own rank
                    if not m.view_known or place(u, r, pts) != "ok" or not all(m.inside(pi, r, pts[pi]) for pi in range(np_)):
                        continue
                    if any(pts[pi] in start_occ[pi] or pts[pi] in claimed[pi] for pi in range(np_)):
                        continue
                seen.add(u)
                m.agents[u] = {"owner": r, "v": op[2], "loc": pts, "seq": len(seen), "p": op[3]}
                for pi in range(np_):
                    claimed[pi][pts[pi]] = (u, r)
                    used[pi].add(pts[pi])
                nadds += 1
                per_rank[r].append(("add", u, op[2], op[3], pts))
            elif k == "move":
                u = tuple(op[1])
                if u not in m.agents:
                    continue
                a = m.agents[u]
                r = a["owner"]
                pts = locate(si, op[2])
                v = place(u, r, pts) if single else "ok"
                if v == "skip":
                    continue
                m.out.pop(u, None)
                if v == "reject":
                    per_rank[r].append(("move", u, op[2], [None if case["projs"][pi]["occ"] == "S" else pts[pi] for pi in range(np_)], [x for x in a["loc"]]))
                    continue
                old = list(a["loc"])
                a["loc"] = pts
                a["p"] = op[2]
                for pi in range(np_):
                    claimed[pi][pts[pi]] = (u, r)
                    if old[pi] is not None:
                        claimed[pi].setdefault(old[pi], (u, r))
                    used[pi].add(pts[pi])
                per_rank[r].append(("move", u, op[2], pts, old))
            elif k == "set":
                u = tuple(op[1])
                if u in m.agents:
                    m.agents[u]["v"] = op[2]
                    per_rank[m.agents[u]["owner"]].append(("set", u, op[2]))
            elif k == "rm":
                u = tuple(op[1])
                if u in m.agents:
                    a = m.agents.pop(u)
                    per_rank[a["owner"]].append(("rm", u))
            elif k == "nrm":
                u = tuple(op[1])
                if u in m.agents and not (case["late"] and si == 0):
                    a = m.agents[u]
                    for pi in range(np_):
                        if (op[2] == 3 or pi == op[2] % np_) and a["loc"][pi] is not None:
                            a["loc"] = a["loc"][:pi] + [None] + a["loc"][pi + 1:]
                            m.out.setdefault(u, {})[pi] = a["owner"]
                            per_rank[a["owner"]].append(("nrm", u, pi))
            elif k == "q":
                r = op[1] % m.n
                if not m.view_known:
                    continue
                exp = []
                for pi in range(np_):
                    if pi == lp and si < ls:
                        exp.append(None)
                        continue
                    pt = m.local_pt(pi, op[2])
                    lo = [int(math.floor(x)) - (op[1] + d) % 2 for d, x in enumerate(pt)]    # (the box api takes integers)
                    at, within, maybe = nearby(m, case["projs"][pi], pi, r, pt, [(lo[d], lo[d] + op[3][d]) for d in range(3)])
                    exp.append((pt, sorted(at), lo, op[3], sorted(within), sorted(maybe)))
                per_rank[r].append(("q", exp))
            elif k == "iq":
                u = tuple(op[1])
                pi = op[2] % np_
                if u not in m.agents or not m.view_known or pi == lp and si < ls or case["late"] and si == 0:
                    continue
                r, pt = m.agents[u]["owner"], m.agents[u]["loc"][pi]
                if pt is None or not m.inside(pi, r, pt):
                    continue
                lo = [int(math.floor(x)) - 1 for x in pt]
                at, within, maybe = nearby(m, case["projs"][pi], pi, r, pt, [(x, x + 3) for x in lo])
                box = bool(op[4]) and case["projs"][pi]["k"] == "cspace"
                pool = [v for v in (sorted(within) if box else sorted(at)) if v in m.agents and m.agents[v]["owner"] == r]
                if not pool:
                    continue
                per_rank[r].append(("iq", pi, pt, lo if box else None, op[3], sorted(within if box else at), sorted(maybe if box else [])))
                todo.extendleft(reversed([[i[0], pool[i[1] % len(pool)]] + i[2:] for i in op[5]] + [["iqend", r]]))
            elif k == "iqend":
                per_rank[op[1]].append(("iqend",))
        step = {"ops": per_rank, "coll": st["coll"], "late": late}
        if st["coll"] in ("sync", "nog"):
            for u, a in m.agents.items():
                o = None
                for pi in range(np_):
                    if a["loc"][pi] is not None:
                        o2 = m.owner_of(pi, a["loc"][pi])
                        if o is None:
                            o = o2
                        elif o != o2:
                            raise AssertionError("model: projections disagree about the owner of %r %r" % (u, a))
                if o is not None:
                    if o != a["owner"]:     # (it is added to the projections of the rank it comes to)
                        m.out[u] = dict.fromkeys(m.out.get(u, ()), -1)
                    a["owner"] = o
            if st["coll"] == "sync":
                m.view_known = True
                for r in range(m.n):
                    m.req[r] = {u for u in m.req.get(r, ()) if u in m.agents}
                    g = {}
                    for u, a in m.agents.items():
                        if a["owner"] == r:
                            m.req[r].discard(u)
                            continue
                        locs = [None] * np_
                        for pi in range(np_):
                            bf = case["projs"][pi]["buf"]
                            if bf and a["loc"][pi] is not None and m.inside(pi, r, a["loc"][pi], bf):
                                locs[pi] = a["loc"][pi]
                        if any(x is not None for x in locs) or u in m.req[r]:
                            g[u] = locs
                    m.ghosts[r] = g
                    m.gv[r] = {u: m.agents[u]["v"] for u in g}
            else:
                m.view_known = False
                for u, a in m.agents.items():       # an agent that arrives is no longer a ghost there
                    m.req.setdefault(a["owner"], set()).discard(u)
        else:
            reqs = [[] for _ in range(m.n)]
            for r, u in st.get("reqs", ()):
                u = tuple(u)
                r %= m.n
                if u in m.agents and m.agents[u]["owner"] != r and m.view_known and \
                        not any(x[0] == u for x in reqs[r]):
                    reqs[r].append((u, m.agents[u]["owner"]))
            reqv = [dict() for _ in range(m.n)]
            for r in range(m.n):
                for u, _ in reqs[r]:
                    if u not in m.req.get(r, ()):       # else: already requested, as of then or the last synchronisation
                        m.gv[r][u] = m.agents[u]["v"]
                    reqv[r][u] = m.gv[r][u]
                    m.req.setdefault(r, set()).add(u)
                    if u not in m.ghosts[r]:
                        m.ghosts[r][u] = [None] * np_
            step["reqs"] = reqs
            step["reqv"] = reqv
        # expectations
        exp = {"local": [dict() for _ in range(m.n)], "ghost": None, "dead": set(seen) - set(m.agents),
               "out": {u: dict(o) for u, o in m.out.items()}}
        for u, a in m.agents.items():
            exp["local"][a["owner"]][u] = (a["v"], list(a["loc"]))
        if st["coll"] == "sync":
            gg, amb = [], []
            for r in range(m.n):
                g = {}
                am = [set() for _ in range(np_)]
                for u, locs in m.ghosts[r].items():
                    g[u] = (m.agents[u]["v"], m.agents[u]["owner"], list(locs), u in m.req.get(r, ()))
                for u, a in m.agents.items():
                    if a["owner"] == r:
                        continue
                    for pi in range(np_):
                        bf = case["projs"][pi]["buf"]
                        if bf and case["projs"][pi]["k"] == "cspace" and a["loc"][pi] is not None:
                            edge = max(EDGE, *(4 * math.ulp(abs(x)) for x in case["projs"][pi]["b"]))
                            if m.inside(pi, r, a["loc"][pi], bf, edge) != m.inside(pi, r, a["loc"][pi], bf, -edge):
                                am[pi].add(u)
                gg.append(g)
                amb.append(am)
            exp["ghost"] = gg
            exp["amb"] = amb
            exp["used"] = [set(x) - {None} for x in used]
            exp["all"] = {u: a["owner"] for u, a in m.agents.items()}
            # an agent on the very edge of a buffer may or may not be a ghost: forget what cannot be known
            for r in range(m.n):
                if any(amb[r]):
                    m.view_known = m.view_known and not any(amb[r])
        step["exp"] = exp
        out.append(step)
    return out, m


# ------------------------------------------------------------------ execution
def dim_of(b):
    return 1 + (b[3] > 0) + (b[5] > 0)


def call(prop, what, fn, *a):
    """A library call that must succeed."""
    try:
        return fn(*a)
    except (Fail, AssertionError):
        raise
    except Exception as e:
        if type(e).__name__ in ("SimProblem",):
            raise
        raise Fail("*", "exception %s" % type(e).__name__, "%s raised %s: %s" % (what, type(e).__name__, e))


def execute(case, want=None):
    res = Result()
    n = case["n"]
    shared = {"bounds": {}, "plan": None}

    import numpy as np

    def program(rank, r4, comm):
        A = agent_class(r4, case["salt"])
        restore = Restore(A, case["restore"])
        ctx = r4.context.SharedContext(comm)
        projs, pts = [], []
        BB = r4.geometry.BoundingBox
        S = r4.space
        for P in case["projs"]:
            bt = S.BorderType.Periodic if P["per"] else S.BorderType.Sticky
            ot = S.OccupancyType.Single if P["occ"] == "S" else S.OccupancyType.Multiple
            if P["k"] == "grid":
                projs.append(S.SharedGrid(P["name"], BB(*P["b"]), bt, ot, P["buf"], comm))
                pts.append(S.DiscretePoint)
            else:
                projs.append(S.SharedCSpace(P["name"], BB(*P["b"]), bt, ot, P["buf"], comm, P["thr"]))
                pts.append(S.ContinuousPoint)
        shared["bounds"][rank] = [tuple(int(x) for x in (lb.xmin, lb.xextent, lb.ymin, lb.yextent, lb.zmin, lb.zextent))
                                  for lb in (p.get_local_bounds() for p in projs)]
        comm.barrier()
        if shared["plan"] is None:
            bs = [[shared["bounds"][r][pi] for r in range(n)] for pi in range(len(projs))]
            check_partition(case, bs)
            shared["plan"], shared["model"] = plan(case, bs)
        active = set(range(len(projs)))
        lp = (case.get("lateat") or [None])[0]
        if lp is not None and lp < len(projs):
            active.discard(lp)
        if not case["late"]:
            for pi, p in enumerate(projs):
                if pi in active:
                    ctx.add_projection(p)
        arr = [dict() for _ in projs]       # agent -> when it came to its location, per space
        clock = [0]
        for pi, p in enumerate(projs):      # a random place on this rank is on this rank
            for _ in range(3):
                pt = as_t_(p.get_random_local_pt(np.random.default_rng(case["salt"] + rank)))
                if not inside_local(shared["bounds"][rank][pi], pt, case["projs"][pi]["b"]):
                    res.fail("C19 C03", "random point", "rank %d: random local point %r is outside the local bounds %r" % (
                        rank, pt, shared["bounds"][rank][pi]))
        objs = {}

        def mk(pi, p):
            if case["projs"][pi]["k"] == "grid":
                return pts[pi](*[int(math.floor(x)) for x in p])
            return pts[pi](*[float(x) for x in p])

        def as_t(pi, pt):
            if pt is None:
                return None
            c = pt.coordinates
            return tuple(c.tolist())

        def get(u):
            a = ctx.agent(u)
            if a is None:
                raise Fail("C01 C03", "agent lost", "agent %r is not local to rank %d, its owner" % (u, rank))
            return a

        def do_move(u, a, p, expect, old, only=None):
            for pi, proj in enumerate(projs):
                if pi not in active or only is not None and pi != only:
                    continue
                if a not in proj:
                    call("C18", "add", proj.add, a)
                was = as_t(pi, proj.get_location(a))
                q = call("C03", "move", proj.move, a, mk(pi, p))
                got = as_t(pi, q)
                res.evals += 1
                if got != (None if expect[pi] is None else tuple(expect[pi])):
                    raise Fail("C18" if expect[pi] is None or got is None else "C03", "move result",
                               "moving %r to %r in %s returned %r, expected %r" % (u, p, case["projs"][pi]["name"], got, expect[pi]))
                now = as_t(pi, call("C03", "get_location", proj.get_location, a))
                want_loc = expect[pi] if expect[pi] is not None else (old[pi] if old else None)
                if now != want_loc:
                    raise Fail("C03 C18", "location", "after moving %r to %r its location is %r, expected %r" % (u, p, now, want_loc))
                if expect[pi] is not None:
                    if was != tuple(expect[pi]):
                        clock[0] += 1
                        arr[pi][u] = clock[0]
                    at = [x.uid for x in proj.get_agents(mk(pi, expect[pi]))]
                    if at.count(u) != 1:
                        raise Fail("C18 C03", "query", "%r appears %d times at its location %r" % (u, at.count(u), expect[pi]))

        for si, st in enumerate(shared["plan"]):
            if st["late"]:
                active.add(lp)
                call("C20", "add_projection", ctx.add_projection, projs[lp])
                res.probe("projections added late")
                for u, p, l in st["late"][rank]:
                    expect = [None] * len(projs)
                    expect[lp] = l
                    do_move(u, get(u), p, expect, None, lp)
            for op in st["ops"][rank]:
                k = op[0]
                if k == "add":
                    _, u, v, p, exp = op
                    a = A(u)
                    a.put(v, case.get("box"))
                    restore.made(a)
                    call("C01", "add", ctx.add, a)
                    if case["late"] and si == 0:
                        objs[u] = (a, p, exp)
                    else:
                        do_move(u, a, p, exp, None)
                elif k == "move":
                    _, u, p, exp, old = op
                    if u in objs:
                        objs[u] = (objs[u][0], p, exp)
                        continue
                    do_move(u, get(u), p, exp, old)
                elif k == "set":
                    a = get(op[1])
                    a.put(op[2], case.get("box"))
                elif k == "rm":
                    a = get(op[1])
                    objs.pop(op[1], None)
                    call("C05", "remove", ctx.remove, a)
                    if ctx.agent(op[1]) is not None:
                        res.fail("C05 C01", "removed agent present", "%r still local after removal" % (op[1],))
                    for pi, proj in enumerate(projs):
                        arr[pi].pop(op[1], None)
                        if (not case["late"] or si > 0) and pi in active:
                            if a in proj or proj.get_location(a) is not None:
                                res.fail("C20 C05", "removed agent in projection", "%r still in %s after removal" % (op[1], case["projs"][pi]["name"]))
                elif k == "nrm":
                    a, pi = get(op[1]), op[2]
                    call("C18", "space.remove", projs[pi].remove, a)
                    arr[pi].pop(op[1], None)
                    res.probe("removed from a space only")
                    if a in projs[pi] or projs[pi].get_location(a) is not None:
                        res.fail("C20 C18", "removed agent in projection", "%r still in %s after its removal from it" % (op[1], case["projs"][pi]["name"]))
                elif k == "iq":
                    _, pi, pt, lo, first, want, maybe = op
                    if lo is None:
                        itr = call("C18", "get_agents", projs[pi].get_agents, mk(pi, pt))
                    else:
                        nd = dim_of(case["projs"][pi]["b"])
                        itr = call("C18", "get_agents_within", projs[pi].get_agents_within, r4.geometry.BoundingBox(
                            *[x for d in range(3) for x in ((lo[d], 3) if d < nd else (0, 0))]))
                    itr = iter(itr)
                    drawn = []
                    while len(drawn) < first:
                        x = next(itr, None)
                        if x is None:
                            break
                        drawn.append(x.uid)
                elif k == "iqend":
                    a = None
                    while len(drawn) <= len(want) + len(maybe):
                        x = next(itr, None)
                        if x is None:
                            break
                        drawn.append(getattr(x, "uid", None))
                    res.evals += 1
                    res.probe("iterated while changing")
                    if [u for u in want if u not in drawn] or [u for u in drawn if u not in want and u not in maybe] or len(set(drawn)) != len(drawn):
                        res.fail("C18", "iteration", "%s: the agents %s %r, iterated over while some of them leave, are %r, expected %r" % (
                            case["projs"][pi]["name"], "at" if lo is None else "within", pt if lo is None else lo, drawn, want))
                    itr = None
                elif k == "q":
                    if case["late"] and si == 0:
                        continue
                    for pi, q in enumerate(op[1]):
                        if q is None:
                            continue
                        pt, at, org, ext, within, maybe = q
                        in_order(res, case["projs"][pi]["name"], projs[pi], mk(pi, pt), pt, arr[pi], rank)
                        query(res, case, projs, pi, pt, at, org, ext, within, maybe, mk, r4, rank)
            if case["late"] and si == 0:
                for p in projs:
                    call("C20", "add_projection", ctx.add_projection, p)
                for u, (a, p, exp) in objs.items():
                    do_move(u, a, p, exp, None)
                objs.clear()
            before = {a.uid: a for a in ctx.agents()}
            if st["coll"] == "sync":
                ctx.synchronize(restore)
            elif st["coll"] == "nog":
                ctx.synchronize(restore, sync_ghosts=False)
                res.probe("sync without ghosts")
            else:
                got = ctx.request_agents([(u, o) for u, o in st["reqs"][rank]], restore)
                wantu = sorted(u for u, _ in st["reqs"][rank])
                if sorted(a.uid for a in got) != wantu:
                    raise Fail("C06", "request", "requested %r, received %r" % (wantu, sorted(a.uid for a in got)))
                for a in got:
                    res.probe("requested ghost")
                    if a.seen != st["reqv"][rank][a.uid]:
                        raise Fail("C06", "requested state", "%r received with state %r, owner has %r" % (a.uid, a.seen, st["reqv"][rank][a.uid]))
                    if ctx.ghost_agent(a.uid) is not a:
                        raise Fail("C06", "request", "%r is not this rank's ghost after request" % (a.uid,))
            clock[0] += 1
            if st["coll"] == "sync":
                # who stayed here stays where it is in the order of arrival, the others come after
                for pi in range(len(projs)):
                    stay = {a.uid for a in ctx.agents() if before.get(a.uid) is a}
                    arr[pi] = {u: arr[pi][u] for u in stay if u in arr[pi] or isinstance(arr[pi], ArrivalOrder)}
            else:
                for pi in range(len(projs)):
                    for a in ctx.agents():
                        if before.get(a.uid) is not a:
                            arr[pi][a.uid] = clock[0]
            for pi in range(len(projs)):
                arr[pi] = ArrivalOrder(arr[pi], getattr(arr[pi], "default", 0) if st["coll"] != "sync" else clock[0])
            clock[0] += 1
            before = None
            nf = len(res.fails)
            observe(res, case, ctx, projs, mk, as_t, st, rank, si, active, arr)
            if len(res.fails) > nf:
                raise Stopped()
        return True

    outcome, sim = run_sim(n, program, case["sched"], res, world=case.get("world"))
    if outcome == "done" and shared.get("plan"):
        fin = shared["plan"]
        res.probe("cross-rank moves", sum(1 for s in fin for r in range(n) for o in s["ops"][r] if o[0] == "move"))
        res.probe("ghosts expected", sum(len(g) for s in fin if s["exp"]["ghost"] for g in s["exp"]["ghost"]))
        res.probe("removals", sum(1 for s in fin for r in range(n) for o in s["ops"][r] if o[0] == "rm"))
        mv = 0
        prev = {}
        for s in fin:
            cur = {u: r for r in range(n) for u in s["exp"]["local"][r]}
            mv += sum(1 for u, r in cur.items() if prev.get(u, r) != r)
            prev = cur
        res.probe("agents that changed rank", mv)
        res.nontrivial = n > 1 and (mv > 0 or res.probes.get("ghosts expected", 0) > 0)
    elif outcome == "done":
        res.nontrivial = False
    return res


def check_partition(case, bs):
    for pi, P in enumerate(case["projs"]):
        b = P["b"]
        tot = 0
        for r, lb in enumerate(bs[pi]):
            vol = 1
            for d in range(3):
                if b[2 * d + 1] == 0:
                    if lb[2 * d + 1] != 0:
                        raise Fail("C19", "partition", "unused dimension has extent: %r" % (lb,))
                    continue
                if lb[2 * d] < b[2 * d] or lb[2 * d] + lb[2 * d + 1] > b[2 * d] + b[2 * d + 1]:
                    raise Fail("C19", "partition", "rank %d's area %r exceeds the global bounds %r" % (r, lb, b))
                vol *= lb[2 * d + 1]
            tot += vol
            for q in range(r):
                o = bs[pi][q]
                if all(b[2 * d + 1] == 0 or max(o[2 * d], lb[2 * d]) < min(o[2 * d] + o[2 * d + 1], lb[2 * d] + lb[2 * d + 1]) for d in range(3)):
                    raise Fail("C19", "partition", "ranks %d and %d overlap: %r %r" % (q, r, o, lb))
        g = 1
        for d in range(3):
            if b[2 * d + 1]:
                g *= b[2 * d + 1]
        if tot != g:
            raise Fail("C19", "partition", "local areas cover %d of %d cells" % (tot, g))


def nearby(m, P, pi, r, pt, box):
    """The agents in rank r's view of a space at a point, inside a box, and on the edges of the box."""
    at, within, maybe = [], [], []
    rows = [(u, a["loc"][pi]) for u, a in m.agents.items() if a["owner"] == r]
    rows += [(u, g[pi]) for u, g in m.ghosts[r].items() if u not in m.agents or m.agents[u]["owner"] != r]
    for u, l in rows:
        if l is None:
            continue
        if l == pt:
            at.append(u)
        if P["k"] == "cspace":
            nd = 2 + (P["b"][5] > 0)
            if all(box[d][0] < l[d] < box[d][1] for d in range(nd)):
                within.append(u)
            elif all(box[d][0] <= l[d] <= box[d][1] for d in range(nd)):
                maybe.append(u)
    return at, within, maybe


def query(res, case, projs, pi, pt, at, org, ext, within, maybe, mk, r4, rank):
    P = case["projs"][pi]
    proj = projs[pi]
    first = org[0] % 2 < 1          # either of the queries is the first after a move
    if first:
        one = proj.get_agent(mk(pi, pt))
    got = sorted(a.uid for a in call("C18", "get_agents", proj.get_agents, mk(pi, pt)))
    res.evals += 1
    if got != at:
        res.fail("C18", "query", "%s: agents at %r are %r, expected %r" % (P["name"], pt, got, at))
        return
    if not first:
        one = proj.get_agent(mk(pi, pt))
    if (one is None) != (not at) or (one is not None and one.uid not in at):
        res.fail("C18", "query", "%s: get_agent at %r gives %r, expected one of %r" % (P["name"], pt, one and one.uid, at))
    if P["k"] == "cspace":
        nd = dim_of(P["b"])
        lo = org
        bb = r4.geometry.BoundingBox(*[x for d in range(3) for x in ((lo[d], ext[d]) if d < nd else (0, 0))])
        g = sorted(a.uid for a in call("C18", "get_agents_within", proj.get_agents_within, bb))
        res.probe("box queries")
        if [u for u in within if u not in g] or [u for u in g if u not in within and u not in maybe] or len(set(g)) != len(g):
            res.fail("C18", "box query", "%s: agents within %r+%r are %r, expected %r (edge: %r)" % (P["name"], lo, ext[:nd], g, within, maybe))


class ArrivalOrder(dict):
    """When agents came to their location; those not listed came with the last synchronisation."""

    def __init__(self, d, default):
        super().__init__(d)
        self.default = default

    def __missing__(self, u):
        return self.default


def in_order(res, name, proj, pt, c, arr, rank):
    one = proj.get_agent(pt)
    lst = [a.uid for a in proj.get_agents(pt)]
    if not lst:
        return
    res.evals += 1
    if one is None or one.uid != lst[0]:
        res.fail("C18", "first", "rank %d: %s at %r: get_agent gives %r, the agents there are %r" % (rank, name, c, one and one.uid, lst))
    if len(lst) > 1 and isinstance(arr, ArrivalOrder):
        k = [arr[u] for u in lst]
        res.probe("arrival orders checked")
        if k != sorted(k):
            res.fail("C18", "order", "rank %d: %s at %r: the agents %r are not in the order in which they came there %r" % (rank, name, c, lst, k))


def as_t_(pt):
    return tuple(pt.coordinates.tolist())


def inside_local(lb, pt, b):
    for d in range(3):
        if b[2 * d + 1] and not lb[2 * d] <= pt[d] < lb[2 * d] + lb[2 * d + 1]:
            return False
        if not b[2 * d + 1] and pt[d] != 0:
            return False
    return True


def observe(res, case, ctx, projs, mk, as_t, st, rank, si, active, arr):
    exp = st["exp"]
    local = exp["local"][rank]
    tag = "step %d rank %d: " % (si, rank)
    have = {}
    for a in ctx.agents():
        if a.uid in have:
            res.fail("C01", "duplicate", tag + "%r listed twice" % (a.uid,))
        have[a.uid] = a
    res.evals += len(local) + 1
    miss = sorted(set(local) - set(have))
    extra = sorted(set(have) - set(local))
    gone = [u for u in extra if u in exp["dead"]]
    if gone:
        res.fail("C05 C01", "removed agent present", tag + "removed agents %r are local" % (gone,))
    if miss or extra and not gone:
        res.fail("C01 C03", "ownership", tag + "missing local agents %r, unexpected local agents %r" % (miss, extra))
    listings(res, ctx, local, tag, si + rank)
    for u, (v, locs) in local.items():
        if u not in have:
            continue
        a = have[u]
        if ctx.agent(u) is not a:
            res.fail("C01", "lookup", tag + "agent(%r) is not the local agent" % (u,))
        if ctx.ghost_agent(u) is not None:
            res.fail("C01 C04 C06", "both local and ghost", tag + "%r is local and also a ghost here" % (u,))
        if a.local_rank != rank:
            res.fail("C01 C02", "local_rank", tag + "%r has local_rank %d" % (u, a.local_rank))
        if a.seen != v:
            res.fail("C02", "local state", tag + "%r has state %r, expected %r" % (u, a.state, v))
        for pi, proj in enumerate(projs):
            if pi not in active:
                continue
            out = exp["out"].get(u, {}).get(pi)
            if out is not None and out != rank:
                continue        # taken out of it before it came here
            if (a in proj) != (out is None):
                res.fail("C20", "in projection", tag + "%r is%s in %s" % (u, " not" if out is None else "", case["projs"][pi]["name"]))
                continue
            l = as_t(pi, proj.get_location(a))
            if l != locs[pi]:
                res.fail("C03", "location", tag + "%r is at %r in %s, expected %r" % (u, l, case["projs"][pi]["name"], locs[pi]))
    if exp["ghost"] is None:
        return
    ghosts = exp["ghost"][rank]
    amb = exp["amb"][rank]
    ambu = set().union(*amb) if amb else set()
    for u in sorted(exp["dead"]):
        if ctx.ghost_agent(u) is not None:
            res.fail("C05 C04 C06", "removed agent present", tag + "removed agent %r is still a ghost" % (u,))
    for u, o in sorted(exp["all"].items()):
        if o == rank:
            continue
        g = ctx.ghost_agent(u)
        e = ghosts.get(u)
        if e is None:
            if g is not None and u not in ambu:
                res.fail("C04", "stale ghost", tag + "%r is a ghost here but is neither in the buffer nor requested" % (u,))
            continue
        v, own, locs, req = e
        if g is None:
            if u in ambu and not req:
                continue
            kinds = ("C06 C04" if any(x is not None for x in locs) else "C06") if req else "C04"
            res.fail(kinds, "missing ghost", tag + "%r (owner %d, at %r) is not a ghost here" % (u, own, locs))
            continue
        res.evals += 1
        res.probe("ghost checks")
        if g.seen != v:
            res.fail("C02 C06" if req else "C02 C04", "ghost state", tag + "ghost %r has state %r, owner has %r" % (u, g.state, v))
        if g.local_rank != own:
            res.fail("C02 C06" if req else "C02", "ghost rank", tag + "ghost %r has local_rank %d, owner is %d" % (u, g.local_rank, own))
        for pi, proj in enumerate(projs):
            if pi not in active:
                continue
            if req and g not in proj and pi not in exp["out"].get(u, ()):
                res.fail("C06 C20", "not in projection", tag + "requested ghost %r is not in %s" % (u, case["projs"][pi]["name"]))
            if u in amb[pi]:
                continue
            l = as_t(pi, proj.get_location(g))
            if l != locs[pi]:
                res.fail("C04 C06" if req else "C04", "ghost location", tag + "ghost %r is at %r in %s, owner has it at %r" % (u, l, case["projs"][pi]["name"], locs[pi]))
    # nothing else is to be seen anywhere
    for pi, proj in enumerate(projs):
        if pi not in active:
            continue
        P = case["projs"][pi]
        want = {}
        for u, (v, locs) in local.items():
            if locs[pi] is not None:
                want.setdefault(locs[pi], []).append(u)
        for u, e in ghosts.items():
            if e[2][pi] is not None:
                want.setdefault(e[2][pi], []).append(u)
        cells = set(exp["used"][pi]) | set(want)
        if P["k"] == "grid" and len(cells) < 400:
            b = P["b"]
            if b[1] * max(b[3], 1) * max(b[5], 1) <= 150:
                cells |= {(x, y, z) for x in range(b[0], b[0] + b[1]) for y in range(b[2], b[2] + max(b[3], 1))
                          for z in range(b[4], b[4] + max(b[5], 1))}
        for c in sorted(cells):
            in_order(res, P["name"], proj, mk(pi, c), c, arr[pi], rank)
            got = sorted(a.uid for a in proj.get_agents(mk(pi, c)))
            w = sorted(want.get(c, ()))
            res.evals += 1
            if got != w:
                d = set(got) ^ set(w)
                if d and d <= amb[pi] and len(set(got)) == len(got):
                    continue
                dead = [u for u in got if u in exp["dead"]]
                foreign = any(u not in local for u in d) or (not d)
                res.fail("C05 C18" if dead else ("C04 C18" if foreign else "C18 C20"), "cell contents",
                           tag + "%s at %r holds %r, expected %r" % (P["name"], c, got, w))
            if P["k"] == "grid" and proj.get_num_agents(mk(pi, c)) != len(got):
                res.fail("C18", "count", tag + "get_num_agents at %r disagrees with get_agents" % (c,))
    for pi, p in enumerate(projs):
        if pi in active and ctx.get_projection(p.name) is not p:
            res.fail("C20", "projection lookup", tag + "get_projection(%r)" % p.name)


# ------------------------------------------------------------------ shrinking
def shrink(case):
    """Simpler cases, most drastic first."""
    steps = case["steps"]
    for i in range(len(steps)):
        if len(steps) > 1:
            c = dict(case)
            c["steps"] = steps[:i] + steps[i + 1:]
            yield c
            if i + 1 < len(steps):
                c = dict(case)
                mg = dict(steps[i + 1])
                mg["ops"] = steps[i]["ops"] + steps[i + 1]["ops"]
                c["steps"] = steps[:i] + [mg] + steps[i + 2:]
                yield c
    us = sorted({tuple(o[1]) for s in steps for o in s["ops"] if o[0] == "add"})
    for u in us:
        c = dict(case)
        c["steps"] = [dict(s, ops=[o for o in s["ops"] if o[0] == "q" or tuple(o[1]) != u]) for s in steps]
        yield c
    for i, s in enumerate(steps):
        ops = s["ops"]
        if len(ops) > 3:
            h = len(ops) // 2
            for part in (ops[:h], ops[h:]):
                c = dict(case)
                c["steps"] = steps[:i] + [dict(s, ops=part)] + steps[i + 1:]
                yield c
        for j in range(len(ops)):
            c = dict(case)
            c["steps"] = steps[:i] + [dict(s, ops=ops[:j] + ops[j + 1:])] + steps[i + 1:]
            yield c
        for j in range(len(s.get("reqs", ()))):
            c = dict(case)
            c["steps"] = steps[:i] + [dict(s, reqs=s["reqs"][:j] + s["reqs"][j + 1:])] + steps[i + 1:]
            yield c
        if s["coll"] != "sync":
            c = dict(case)
            s2 = {"ops": ops, "coll": "sync"}
            c["steps"] = steps[:i] + [s2] + steps[i + 1:]
            yield c
    if len(case["projs"]) > 1:
        for i in range(len(case["projs"])):
            c = dict(case, lateat=None)
            c["projs"] = [case["projs"][i]]
            yield c
    if case["restore"] != "fresh":
        yield dict(case, restore="fresh")
    if case["late"]:
        yield dict(case, late=False)
    if case.get("lateat"):
        yield dict(case, lateat=None)
        if case["lateat"][1] > 1:
            yield dict(case, lateat=[case["lateat"][0], case["lateat"][1] - 1])
    if case["n"] > 1:
        for m in range(1, case["n"]):
            yield dict(case, n=m)
