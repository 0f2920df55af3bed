"""Agents linked by shared networks: edges added, changed and removed on either rank, agents that
are removed, requested, walk off their rank or are moved by hand.

The reference model is one global graph per network.  After every full synchronisation each edge
has to be on exactly the ranks of its two ends, with the same attributes, between the very agents
and ghosts that the context knows.
"""
import math
from ..common import Result, Fail, Stopped, run_sim, gen_sched, gen_world, agent_class, Restore, dims_create, RANKS, listings
from . import spatial

NAME = "network"


# ------------------------------------------------------------------ generation
def edges_of(edges, u):
    return [e for e in edges if u in e[1:]]


def gen(rng, focus=None):
    n = min(rng.choice(RANKS), 8)
    nets = [{"d": rng.random() < .5, "name": "net%d" % i} for i in range(rng.choice([1, 1, 1, 2]))]
    grid = None
    use_grid = {"move": 0.6, "edit": 0.1, "gone": 0.2}.get(focus, 0.4)
    if rng.random() < use_grid:
        nd = rng.choice([1, 2])
        procs = dims_create(n, nd)
        buf = rng.choice([0, 0, 1, 2])
        b = []
        for d in range(3):
            if d < nd:
                b += [0, rng.randrange(max(buf, 1) + 1, max(buf, 1) + 4) * procs[d]]
            else:
                b += [0, 0]
        grid = {"k": "grid", "name": "g", "b": b, "per": rng.random() < .5, "occ": "M", "buf": buf}
    case = {"wl": NAME, "n": n, "nets": nets, "grid": grid, "salt": rng.randrange(1 << 20),
            "restore": rng.choice(["fresh", "fresh", "cached"]), "gfirst": rng.random() < .5,
            "box": rng.random() < .3, "lose": rng.random() < .3}
    few = rng.choice([2, 3]) if rng.random() < .35 else 1000
    ids = []
    nextid = 0
    share = rng.random() < .4
    bursts = rng.random() < {"gone": 1, "move": 0}.get(focus, .15)

    def value():
        """The state of an agent: often one it has had before."""
        return rng.randrange(few)

    def pt():
        if grid is None:
            return None
        b = grid["b"]
        return [b[2 * d] + rng.randrange(b[2 * d + 1]) + (rng.choice([-b[2 * d + 1], 0, b[2 * d + 1]]) if rng.random() < .1 else 0)
                if b[2 * d + 1] else 0 for d in range(3)]

    def add():
        nonlocal nextid
        u = [nextid, rng.randrange(2), rng.randrange(n)]
        if share and nextid and rng.random() < .7:
            # ids are unique only among the agents of a type created on a rank
            while u in ids or u[0] == nextid and rng.random() < .9:
                u = [rng.randrange(nextid + 1), rng.randrange(2), rng.choice([u[2], rng.randrange(n)])]
        nextid = max(nextid, u[0] + 1)
        ids.append(u)
        return ["add", u, value(), pt() if rng.random() < .6 else None]

    def attrs():
        return {rng.choice("wxyz"): rng.choice([1, 2.5, "s", None, rng.randrange(100)]) for _ in range(rng.choice([0, 1, 1, 2]))}

    edges = []
    asked = []
    steps = []
    nag = rng.randrange(2, 9) if rng.random() < .8 else rng.randrange(8, 25)
    reqs = []
    ops = [add() for _ in range(nag)]
    steps.append({"ops": ops, "coll": "sync"})
    dens = rng.choice([1, 2, 4])

    def req():
        rq = [[rng.randrange(n), rng.choice(ids)] for _ in range(rng.choice([2, 5, 10, 20]))]
        asked.extend(x for x in rq if x[1][2] != x[0])
        return rq
    if rng.random() < .85:
        steps.append({"ops": [], "coll": "req", "reqs": req()})

    def one(w):
        r = rng.random() * sum(w.values())
        for k, x in w.items():
            r -= x
            if r < 0:
                return k
        return k

    w = {"edge": 4, "upd": 2, "rem": 2, "clear": .1, "set": 1, "rm": .3, "move": 2 if grid else 0, "add": .4,
         "nrm": rng.choice([0, 0, .5]), "nadd": .3}
    if focus in ("edit", "gone"):
        w.update(upd=3, rem=4, rm=.6)
    if focus == "move":
        w.update(rem=.7, rm=.1, clear=.02)
    for _ in range(rng.randrange(2, 8) if rng.random() < .93 else rng.randrange(8, 15)):
        ops = []
        for _ in range(rng.choice([0, 1, 2, 4, 8]) * dens):
            k = one(w)
            if k == "add":
                ops.append(add())
            elif k == "edge":
                if edges and rng.random() < .15:
                    ni, u, v = rng.choice(edges)
                    if rng.random() < .3:
                        u, v = v, u
                else:
                    ni = rng.randrange(len(nets))
                    u, v = rng.choice(ids), rng.choice(ids)
                    if asked and rng.random() < .6:     # between an agent of a rank and one the rank has requested
                        r, v = rng.choice(asked)
                        u = rng.choice([i for i in ids if i[2] == r] or [u])
                        if rng.random() < .5:
                            u, v = v, u
                    if u == v and rng.random() < .8:
                        continue
                edges.append((ni, u, v))
                ops.append(["edge", ni, u, v, rng.randrange(2), attrs()])
                if rng.random() < .1:       # both ends create the same edge
                    ops.append(["edge", ni, u, v, 1 - ops[-1][4], ops[-1][5]])
            elif k in ("upd", "rem"):
                if not edges:
                    continue
                ni, u, v = rng.choice(edges[-12:] if rng.random() < .7 else edges)
                if rng.random() < .2:
                    u, v = v, u
                ops.append([k, ni, u, v, rng.randrange(2)] + ([attrs()] if k == "upd" else []))
            elif k == "clear":
                ops.append(["clear", rng.randrange(len(nets)), rng.randrange(n)])
            elif k == "set":
                ops.append(["set", rng.choice(ids), value()])
            elif k == "rm":
                ops.append(["rm", rng.choice(ids)])
            elif k == "nrm":
                # out of a network (or the grid), but not out of the context
                ops.append(["nrm", "grid" if grid and rng.random() < .3 else rng.randrange(len(nets)), rng.choice(ids)])
            elif k == "nadd":
                ops.append(["nadd", rng.randrange(len(nets)), [rng.choice(ids) for _ in range(rng.choice([1, 1, 3]))]])
            elif k == "move":
                ops.append(["move", rng.choice(ids), pt()])
        if bursts and rng.random() < .2:
            # several agents are removed at once: some linked to others, some no longer linked
            some = rng.sample(ids, min(len(ids), rng.randrange(2, 6)))
            if edges and rng.random() < .7:
                # among them one that had edges and one that is a ghost elsewhere, of the same rank
                _, u, v = rng.choice(edges)
                if u in [x[1] for x in asked]:
                    u, v = v, u
                steps[-1]["ops"] += [["rem", *e, rng.randrange(2)] for e in edges_of(edges, u)]
                some = [u] + [x[1] for x in asked if x[1][2] == u[2] and x[1] != u][-2:] + [v]
            ops += [["rm", u] for u in some]
        st = {"ops": ops, "coll": "sync"}
        r = rng.random()
        if r < (.5 if focus == "move" else .25):
            st["coll"] = "movea"
            st["moves"] = [[rng.choice(ids), rng.randrange(n)] for _ in range(rng.choice([0, 1, 1, 2, 4, 8]))]
        elif r < (.6 if focus == "move" else .45):
            st["coll"] = "req"
            st["reqs"] = req()
        elif r < .65 and grid and rng.random() < .1:
            st["coll"] = "nog"
        steps.append(st)
    steps.append({"ops": [], "coll": "sync"})
    if rng.random() < .2:
        # a projection that is added to the context while the run is under way
        k = rng.choice(["grid"] + list(range(len(nets)))) if grid else rng.randrange(len(nets))
        case["lateat"] = [k, rng.randrange(1, len(steps))]
    case["steps"] = steps
    case["sched"] = gen_sched(rng, n)
    world = gen_world(rng, n)
    if world:
        case["world"] = world
    return case


# ------------------------------------------------------------------ reference model
def plan(case, bounds):
    n = case["n"]
    grid = case["grid"]
    sm = spatial.Model({"n": n, "projs": [grid] if grid else []}, bounds)
    nets = case["nets"]
    agents, dead = {}, set()
    edges = [dict() for _ in nets]
    touched = [dict() for _ in nets]
    req = [set() for _ in range(n)]
    avail = [set() for _ in range(n)]
    known = True
    out = []
    # agents that are (False) or may be (None) no nodes of a network their rank has them in
    absent = [dict() for _ in nets]

    def key(ni, u, v):
        return (u, v) if nets[ni]["d"] or u <= v else (v, u)

    def local_or_ghost(r, u):
        return agents[u]["owner"] == r or u in avail[r]

    def side_rank(ni, u, v, side):
        """The rank that performs an operation on (u, v), or None if it cannot."""
        if u not in agents or v not in agents:
            return None
        r = agents[(u, v)[side]]["owner"]
        if not (local_or_ghost(r, u) and local_or_ghost(r, v)):
            return None
        return r

    lp, ls = case.get("lateat") or (None, 0)
    for si, st in enumerate(case["steps"]):
        per = [[] for _ in range(n)]
        nogrid = not grid or lp == "grid" and si < ls
        nonet = lp if lp != "grid" and lp is not None and si < ls else len(nets)
        # where agents were and who they are when the interval began
        for op in st["ops"]:
            k = op[0]
            if k == "add":
                u = tuple(op[1])
                if u in agents or u in dead or u[2] >= n:
                    continue
                loc = sm.local_pt(0, op[3]) if not nogrid and op[3] is not None else None
                agents[u] = {"owner": u[2], "v": op[2], "loc": loc}
                per[u[2]].append(("add", u, op[2], loc))
            elif k == "edge":
                _, ni, u, v, side, at = op
                u, v = tuple(u), tuple(v)
                if ni >= len(nets) or ni == nonet:
                    continue
                r = side_rank(ni, u, v, side)
                if r is None or (not known and agents[u]["owner"] != agents[v]["owner"]):
                    continue
                kk = key(ni, u, v)
                t = touched[ni].get(kk)
                if t is not None and t[0] != r and agents[u]["owner"] != agents[v]["owner"]:
                    # the other end has changed it since they last agreed: only an identical creation is compatible
                    if t[1] != "new" or t[2] != at:
                        continue
                    touched[ni][kk] = ("both", "both", None)
                elif t is None:
                    touched[ni][kk] = (r, "new" if kk not in edges[ni] else "chg", dict(at))
                else:
                    touched[ni][kk] = (r, "chg", None)
                edges[ni].setdefault(kk, {}).update(at)
                for x in (u, v):
                    if x in absent[ni]:
                        if agents[x]["owner"] == r:
                            del absent[ni][x]
                        else:       # if the edge is gone again when they synchronise it is not added
                            absent[ni][x] = None
                per[r].append(("edge", ni, u, v, at, dict(edges[ni][kk])))
            elif k in ("upd", "rem"):
                ni, u, v, side = op[1], tuple(op[2]), tuple(op[3]), op[4]
                if ni >= len(nets) or ni == nonet:
                    continue
                kk = key(ni, u, v)
                if kk not in edges[ni]:
                    continue
                r = agents[(u, v)[side]]["owner"]
                cross = agents[u]["owner"] != agents[v]["owner"]
                t = touched[ni].get(kk)
                if t is not None and t[0] != r and cross:
                    if t[0] == "both":
                        continue
                    r = t[0]        # the end that has touched it already does this too
                if not known and cross:
                    continue
                touched[ni][kk] = (r, "chg", None)
                if k == "upd":
                    edges[ni][kk].update(op[5])
                    per[r].append(("upd", ni, u, v, op[5], dict(edges[ni][kk])))
                else:
                    del edges[ni][kk]
                    per[r].append(("rem", ni, u, v))
            elif k == "clear":
                ni, r = op[1], op[2] % n
                if ni >= len(nets) or ni == nonet or not known:
                    continue
                mine = [kk for kk in edges[ni] if r in (agents[kk[0]]["owner"], agents[kk[1]]["owner"])]
                # edges only the other end knows of so far, or has changed
                if any(t[0] != r and r in (agents[kk[0]]["owner"], agents[kk[1]]["owner"]) for kk, t in touched[ni].items()):
                    continue
                for kk in mine:
                    touched[ni][kk] = (r, "chg", None)
                    del edges[ni][kk]
                per[r].append(("clear", ni))
            elif k == "nrm":
                ni, u = op[1], tuple(op[2])
                if u not in agents:
                    continue
                r = agents[u]["owner"]
                if ni == "grid":
                    if not nogrid:
                        agents[u]["loc"] = None
                        per[r].append(("nrm", ni, u))
                    continue
                if ni >= len(nets) or ni == nonet or u in absent[ni]:
                    continue
                mine = [kk for kk in edges[ni] if u in kk]
                cross = any(agents[x]["owner"] != r for kk in mine for x in kk)
                if cross and not known or any(u in kk and t[0] != r for kk, t in touched[ni].items()):
                    continue
                for kk in mine:
                    touched[ni][kk] = (r, "chg", None)
                    del edges[ni][kk]
                absent[ni][u] = False
                per[r].append(("nrm", ni, u))
            elif k == "nadd":
                ni, us = op[1], [tuple(u) for u in op[2] if tuple(u) in agents]
                if ni >= len(nets) or ni == nonet or not us:
                    continue
                r = agents[us[0]]["owner"]
                us = [u for u in us if agents[u]["owner"] == r]
                for u in us:
                    absent[ni].pop(u, None)
                per[r].append(("nadd", ni, us))
            elif k == "set":
                u = tuple(op[1])
                if u in agents:
                    agents[u]["v"] = op[2]
                    per[agents[u]["owner"]].append(("set", u, op[2]))
            elif k == "rm":
                u = tuple(op[1])
                if u in agents:
                    a = agents.pop(u)
                    dead.add(u)
                    per[a["owner"]].append(("rm", u))
                    for ni in range(len(nets)):
                        for kk in [x for x in edges[ni] if u in x]:
                            del edges[ni][kk]
                        for kk in [x for x in touched[ni] if u in x]:
                            del touched[ni][kk]
            elif k == "move":
                u = tuple(op[1])
                if not nogrid and u in agents and op[2] is not None:
                    a = agents[u]
                    a["loc"] = sm.local_pt(0, op[2])
                    per[a["owner"]].append(("move", u, op[2], a["loc"]))
        step = {"ops": per, "coll": st["coll"], "late": lp is not None and si == ls}
        before = {u: a["owner"] for u, a in agents.items()}
        if st["coll"] == "movea":
            mv = [[] for _ in range(n)]
            got = set()
            for u, d in st["moves"]:
                u = tuple(u)
                d %= n
                # (an agent located in a space belongs to the rank its location is on)
                if u in agents and u not in got and (agents[u]["loc"] is None or case.get("lose")):
                    got.add(u)
                    mv[agents[u]["owner"]].append((u, d))
            for r in range(n):
                for u, d in mv[r]:
                    if d != r:      # (an agent that is there already stays where it is)
                        agents[u]["owner"] = d
                        agents[u]["loc"] = None
            step["moves"] = mv
        if st["coll"] == "req":
            rq = [[] for _ in range(n)]
            for r, u in st["reqs"]:
                u = tuple(u)
                r %= n
                if u in agents and agents[u]["owner"] != r and known:
                    # (requesting the same agent twice is allowed; it is returned once)
                    if u not in [x[0] for x in rq[r]]:
                        rq[r].append((u, agents[u]["owner"]))
            step["reqs"] = rq
            for r in range(n):
                for u, _ in rq[r]:
                    req[r].add(u)
                    avail[r].add(u)
        else:
            if grid:
                for u, a in agents.items():
                    if a["loc"] is not None:
                        a["owner"] = sm.owner_of(0, a["loc"])
            for r in range(n):
                req[r] = {u for u in req[r] if u in agents and agents[u]["owner"] != r}
            avail = [set(req[r]) for r in range(n)]
            if st["coll"] == "nog":
                known = False
            else:
                known = True
                touched = [dict() for _ in nets]
        for ab in absent:
            for u in list(ab):
                if u not in agents:
                    del ab[u]
                elif agents[u]["owner"] != before[u]:
                    ab[u] = None
        exp = {"local": [dict() for _ in range(n)], "edges": None, "dead": set(dead), "absent": [dict(ab) for ab in absent],
               "owner": {u: a["owner"] for u, a in agents.items()}, "v": {u: a["v"] for u, a in agents.items()}}
        for u, a in agents.items():
            exp["local"][a["owner"]][u] = a["v"]
        if st["coll"] in ("sync", "movea"):
            ee = [[dict() for _ in range(n)] for _ in nets]
            why = [dict() for _ in range(n)]
            for r in range(n):
                for u in req[r]:
                    why[r].setdefault(u, set()).add("req")
                if grid and grid["buf"]:
                    for u, a in agents.items():
                        if a["owner"] != r and a["loc"] is not None and sm.inside(0, r, a["loc"], grid["buf"]):
                            why[r].setdefault(u, set()).add("buf")
            for ni in range(len(nets)):
                for kk, at in edges[ni].items():
                    a, b = agents[kk[0]]["owner"], agents[kk[1]]["owner"]
                    ee[ni][a][kk] = dict(at)
                    ee[ni][b][kk] = dict(at)
                    if a != b:
                        why[a].setdefault(kk[1], set()).add("edge")
                        why[b].setdefault(kk[0], set()).add("edge")
            exp["edges"] = ee
            exp["why"] = why
            avail = [set(why[r]) for r in range(n)]
            exp["loc"] = {u: a["loc"] for u, a in agents.items()}
        step["exp"] = exp
        out.append(step)
    return out


# ------------------------------------------------------------------ execution
def execute(case):
    res = Result()
    n = case["n"]
    grid = case["grid"]
    shared = {"bounds": {}, "plan": None}

    def program(rank, r4, comm):
        A = agent_class(r4, case["salt"])
        restore = Restore(A, case["restore"])
        ctx = r4.context.SharedContext(comm)
        S = r4.space
        g = None
        if grid:
            g = S.SharedGrid(grid["name"], r4.geometry.BoundingBox(*grid["b"]),
                             S.BorderType.Periodic if grid["per"] else S.BorderType.Sticky, S.OccupancyType.Multiple,
                             grid["buf"], comm)
            lb = g.get_local_bounds()
            shared["bounds"][rank] = tuple(int(x) for x in (lb.xmin, lb.xextent, lb.ymin, lb.yextent, lb.zmin, lb.zextent))
        comm.barrier()
        if shared["plan"] is None:
            shared["plan"] = plan(case, [[shared["bounds"][r] for r in range(n)]] if grid else [])
        nets = [(r4.network.DirectedSharedNetwork if N["d"] else r4.network.UndirectedSharedNetwork)(N["name"], comm)
                for N in case["nets"]]
        lp = (case.get("lateat") or [None])[0]
        late = g if lp == "grid" else nets[lp] if lp is not None and lp < len(nets) else None
        for x in ([g] if g is not None and case["gfirst"] else []) + nets + ([g] if g is not None and not case["gfirst"] else []):
            if x is not late:
                ctx.add_projection(x)
        active = [x for x in nets if x is not late]

        def get(u):
            a = ctx.agent(u)
            if a is None:
                raise Fail("C08 C01", "agent lost", "agent %r is not local to rank %d, its owner" % (u, rank))
            return a

        def node(u, si):
            a = ctx.agent(u)
            if a is None:
                a = ctx.ghost_agent(u)
            if a is None:
                raise Fail("C06 C07", "missing ghost", "step %d: %r is neither local to nor a ghost on rank %d" % (si, u, rank))
            return a

        for si, st in enumerate(shared["plan"]):
            if st["late"] and late is not None:
                ctx.add_projection(late)
                active = nets
                res.probe("projections added late")
            for op in st["ops"][rank]:
                k = op[0]
                if k == "add":
                    a = A(op[1])
                    a.put(op[2], case.get("box"))
                    restore.made(a)
                    ctx.add(a)
                    if op[3] is not None:
                        g.move(a, S.DiscretePoint(*[int(x) for x in op[3]]))
                elif k == "edge":
                    x = nets[op[1]]
                    u, v = node(op[2], si), node(op[3], si)
                    x.add_edge(u, v, **op[4])
                    edge_is(res, x, u, v, op[5], "step %d rank %d: after add_edge" % (si, rank))
                elif k == "upd":
                    x = nets[op[1]]
                    u, v = node(op[2], si), node(op[3], si)
                    x.update_edge(u, v, **op[4])
                    edge_is(res, x, u, v, op[5], "step %d rank %d: after update_edge" % (si, rank))
                elif k == "rem":
                    x = nets[op[1]]
                    u, v = node(op[2], si), node(op[3], si)
                    x.remove_edge(u, v)
                    if x.contains_edge(u, v):
                        res.fail("C07", "edge", "step %d rank %d: edge %r-%r still there after remove_edge" % (si, rank, op[2], op[3]))
                elif k == "clear":
                    nets[op[1]].clear_edges()
                    if nets[op[1]].edge_count != 0:
                        res.fail("C07", "edge", "step %d rank %d: %d edges after clear_edges" % (si, rank, nets[op[1]].edge_count))
                elif k == "nrm":
                    a = get(op[2])
                    if op[1] == "grid":
                        if g.contains(a):
                            g.remove(a)
                            res.probe("removed from a space only")
                        continue
                    x = nets[op[1]]
                    x.remove(a)
                    res.probe("removed from a network only")
                    if a in x or any(a in e for e in x.graph.edges):
                        res.fail("C07 C20", "removed from network", "step %d rank %d: %r is still a node of %s or has edges there" % (si, rank, op[2], x.name))
                elif k == "nadd":
                    us = [get(u) for u in op[2]]
                    if len(us) == 1:
                        nets[op[1]].add(us[0])
                    else:
                        nets[op[1]].add_nodes(us)
                    for a in us:
                        if a not in nets[op[1]]:
                            res.fail("C20", "not in network", "step %d rank %d: %r is no node of %s after it was added" % (si, rank, a.uid, nets[op[1]].name))
                elif k == "set":
                    get(op[1]).put(op[2], case.get("box"))
                elif k == "rm":
                    ctx.remove(get(op[1]))
                    for x in active:
                        if any(a.uid == op[1] for a in x.graph.nodes):
                            res.fail("C05 C20", "removed agent in network", "step %d rank %d: %r is still a node" % (si, rank, op[1]))
                elif k == "move":
                    if not g.contains(get(op[1])):
                        g.add(get(op[1]))
                    g.move(get(op[1]), S.DiscretePoint(*[int(math.floor(c)) for c in op[2]]))
            if st["coll"] == "sync":
                ctx.synchronize(restore)
            elif st["coll"] == "nog":
                ctx.synchronize(restore, sync_ghosts=False)
            elif st["coll"] == "movea":
                ctx.move_agents([(u, d) for u, d in st["moves"][rank]], restore)
            else:
                got = ctx.request_agents([(u, o) for u, o in st["reqs"][rank]], restore)
                wantu = sorted(u for u, _ in st["reqs"][rank])
                if sorted(a.uid for a in got) != wantu:
                    raise Fail("C06", "request", "requested %r, received %r" % (wantu, sorted(a.uid for a in got)))
                for a in got:
                    for x in active:
                        if a not in x:
                            res.fail("C06 C20", "request", "requested %r is not a node of %s" % (a.uid, x.name))
            nf = len(res.fails)
            observe(res, case, ctx, nets, g, st, rank, si, active)
            if len(res.fails) > nf:
                raise Stopped()
        return True

    outcome, sim = run_sim(n, program, case["sched"], res, world=case.get("world"))
    pl = shared["plan"] or []
    cross = sum(1 for s in pl if s["exp"]["edges"] for ne in s["exp"]["edges"] for r in range(n) for kk in ne[r]
                if s["exp"]["owner"][kk[0]] != s["exp"]["owner"][kk[1]])
    res.probe("cross-rank edges checked", cross)
    mv, prev = 0, {}
    for s in pl:
        cur = s["exp"]["owner"]
        mv += sum(1 for u, r in cur.items() if prev.get(u, r) != r)
        prev = cur
    res.probe("agents that changed rank", mv)
    res.nontrivial = n > 1 and cross > 0
    return res


def edge_is(res, x, u, v, at, where):
    res.evals += 1
    if not x.contains_edge(u, v):
        res.fail("C07", "edge", "%s: edge %r-%r is missing" % (where, u.uid, v.uid))
    elif dict(x.graph.edges[u, v]) != at:
        res.fail("C07", "edge attributes", "%s: edge %r-%r has %r, expected %r" % (where, u.uid, v.uid, dict(x.graph.edges[u, v]), at))


def observe(res, case, ctx, nets, g, st, rank, si, active):
    exp = st["exp"]
    tag = "step %d rank %d: " % (si, rank)
    moved = st["coll"] == "movea" or case["grid"] is not None
    local = exp["local"][rank]
    have = {a.uid: a for a in ctx.agents()}
    res.evals += len(local) + 1
    if set(have) != set(local):
        res.fail("C01 C08" if moved else "C01", "ownership", tag + "missing local agents %r, unexpected %r" % (
            sorted(set(local) - set(have)), sorted(set(have) - set(local))))
        return
    listings(res, ctx, local, tag, si + rank)
    for u, v in local.items():
        if have[u].seen != v:
            res.fail("C02", "local state", tag + "%r has state %r, expected %r" % (u, have[u].state, v))
        if have[u].local_rank != rank:
            res.fail("C02 C01", "local_rank", tag + "%r has local_rank %d" % (u, have[u].local_rank))
        if ctx.ghost_agent(u) is not None:
            res.fail("C01 C06 C07 C08", "both local and ghost", tag + "%r is local and also a ghost here" % (u,))
        for ni, x in enumerate(nets):
            if x in active and (have[u] in x) == (u in exp["absent"][ni]) and exp["absent"][ni].get(u, 0) is not None:
                res.fail("C20 C08", "in network", tag + "%r is%s a node of %s" % (u, " not" if u not in exp["absent"][ni] else "", x.name))
    if exp["edges"] is None:
        return
    why = exp["why"][rank]
    ghosts = {}
    for u in exp["dead"]:
        if ctx.ghost_agent(u) is not None:
            res.fail("C05 C06 C07", "removed agent present", tag + "removed agent %r is still a ghost" % (u,))
    for u, o in sorted(exp["owner"].items()):
        if o == rank:
            continue
        a = ctx.ghost_agent(u)
        if a is None:
            if u in why:
                w = why[u]
                res.fail(" ".join(p for k, p in (("req", "C06"), ("edge", "C07 C08"), ("buf", "C04")) if k in w),
                         "missing ghost", tag + "%r (owner %d, needed for %s) is not a ghost here" % (u, o, sorted(w)))
            continue
        ghosts[u] = a
        if u not in why:
            res.fail("C07 C08", "lingering ghost", tag + "%r is still a ghost here: not requested, not in the buffer, no edges" % (u,))
        res.evals += 1
        w = why.get(u, ())
        ps = "C02" + (" C06" if "req" in w else "") + (" C04" if "buf" in w else "") + (" C07 C08" if "edge" in w else "")
        if a.seen != exp["v"][u]:
            res.fail(ps, "ghost state", tag + "ghost %r has state %r, owner has %r" % (u, a.state, exp["v"][u]))
        if "req" in w:
            for x in [y for ni, y in enumerate(nets) if y in active and u not in exp["absent"][ni]] + ([g] if g is not None and ctx.projections and g in ctx.projections.values() else []):
                if a not in x:
                    res.fail("C06 C20", "not in projection", tag + "requested ghost %r is not in %s" % (u, x.name))
        if a.local_rank != o:
            res.fail(ps, "ghost rank", tag + "ghost %r has local_rank %d, owner is %d" % (u, a.local_rank, o))
    pr = "C07 C08" if moved else "C07"
    for ni, x in enumerate(nets):
        if x not in active:
            continue
        d = case["nets"][ni]["d"]
        want = exp["edges"][ni][rank]
        got = {}
        for u, v, at in x.graph.edges(data=True):
            for a in (u, v):
                ref = ctx.agent(a.uid) if a.uid in local else ctx.ghost_agent(a.uid)
                if ref is not a:
                    res.fail(pr + " C20", "edge end", tag + "%s: the end %r of edge %r-%r is not the agent the context knows" % (x.name, a.uid, u.uid, v.uid))
            k = (u.uid, v.uid) if d or u.uid <= v.uid else (v.uid, u.uid)
            if k in got:
                res.fail(pr, "edge twice", tag + "%s: edge %r is present twice" % (x.name, k))
            got[k] = dict(at)
        miss, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
        res.evals += len(want) + 1
        if miss or extra:
            dead = [k for k in extra if k[0] in exp["dead"] or k[1] in exp["dead"]]
            res.fail("C05 C07" if dead else pr, "edges", tag + "%s: missing edges %r, unexpected edges %r" % (x.name, miss, extra))
        for k in want:
            if k in got and got[k] != want[k]:
                res.fail(pr, "edge attributes", tag + "%s: edge %r has %r, expected %r" % (x.name, k, got[k], want[k]))
        if x.edge_count != len(got):
            res.fail("C07", "edge count", tag + "edge_count %d, %d edges" % (x.edge_count, len(got)))
        nodes = {}
        for a in x:
            if a.uid in nodes:
                res.fail("C20 C08", "node twice", tag + "%s: %r is a node twice" % (x.name, a.uid))
            nodes[a.uid] = a
        if x.node_count != len(nodes):
            res.fail("C20", "node count", tag + "node_count %d, %d nodes" % (x.node_count, len(nodes)))
        for u in nodes:
            if u not in local and u not in ghosts:
                res.fail("C05 C20" if u in exp["dead"] else "C20 C08", "stray node", tag + "%s: node %r is neither local nor a ghost" % (x.name, u))
        for u in local:
            if u not in nodes:
                continue
            e = sum((k[0] == u) + (k[1] == u and (d or k[0] != u)) for k in want)
            if x.num_edges(nodes[u]) != e and not (miss or extra):
                res.fail("C07", "num_edges", tag + "%s: num_edges(%r) is %d, expected %d" % (x.name, u, x.num_edges(nodes[u]), e))
    if g is not None:
        for u in local:
            l = g.get_location(have[u])
            l = None if l is None else tuple(l.coordinates.tolist())
            if l != exp["loc"][u]:
                res.fail("C03 C08", "location", tag + "%r is at %r, expected %r" % (u, l, exp["loc"][u]))


# ------------------------------------------------------------------ shrinking
def shrink(case):
    steps = case["steps"]
    for i in range(len(steps)):
        if len(steps) > 1:
            yield dict(case, steps=steps[:i] + steps[i + 1:])
            if i + 1 < len(steps):
                mg = dict(steps[i + 1])
                mg["ops"] = steps[i]["ops"] + steps[i + 1]["ops"]
                yield dict(case, steps=steps[:i] + [mg] + steps[i + 2:])
    us = sorted({tuple(o[1]) for s in steps for o in s["ops"] if o[0] == "add"})

    def mentions(o, u):
        return any(isinstance(x, (list, tuple)) and tuple(x) == u for x in o[1:4])
    for u in us:
        yield dict(case, steps=[dict(s, ops=[o for o in s["ops"] if not mentions(o, u)]) for s in steps])
    for i, s in enumerate(steps):
        ops = s["ops"]
        if len(ops) > 3:
            h = len(ops) // 2
            for part in (ops[:h], ops[h:]):
                yield dict(case, steps=steps[:i] + [dict(s, ops=part)] + steps[i + 1:])
        for j in range(len(ops)):
            yield dict(case, steps=steps[:i] + [dict(s, ops=ops[:j] + ops[j + 1:])] + steps[i + 1:])
        for f in ("moves", "reqs"):
            for j in range(len(s.get(f, ()))):
                yield dict(case, steps=steps[:i] + [dict(s, **{f: s[f][:j] + s[f][j + 1:]})] + steps[i + 1:])
        if s["coll"] not in ("sync",):
            t = {k: v for k, v in s.items() if k not in ("moves", "reqs")}
            yield dict(case, steps=steps[:i] + [dict(t, coll="sync")] + steps[i + 1:])
    if case.get("lateat"):
        yield dict(case, lateat=None)
        if case["lateat"][1] > 1:
            yield dict(case, lateat=[case["lateat"][0], case["lateat"][1] - 1])
    if len(case["nets"]) > 1:
        yield dict(case, nets=case["nets"][:1], lateat=case.get("lateat") if (case.get("lateat") or [1])[0] in (0, "grid") else None)
    if case["grid"]:
        yield dict(case, grid=None, lateat=case.get("lateat") if (case.get("lateat") or [0])[0] != "grid" else None)
        if case["grid"]["buf"]:
            yield dict(case, grid=dict(case["grid"], buf=0))
    if case["restore"] != "fresh":
        yield dict(case, restore="fresh")
    if case["n"] > 2:
        def q(u):
            return [u[0], u[1], u[2] % m]
        for m in sorted({2, case["n"] - 1}):
            c = dict(case, n=m)
            ns = []
            for s in steps:
                t = dict(s, ops=[[q(x) if isinstance(x, list) and len(x) == 3 and o[0] != "move" else x for x in o[:4]] + o[4:]
                                 if o[0] not in ("move", "add") else [o[0], q(o[1])] + o[2:] for o in s["ops"]])
                if "moves" in s:
                    t["moves"] = [[q(u), d] for u, d in s["moves"]]
                if "reqs" in s:
                    t["reqs"] = [[r, q(u)] for r, u in s["reqs"]]
                ns.append(t)
            c["steps"] = ns
            yield c
