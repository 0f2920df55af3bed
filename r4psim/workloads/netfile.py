"""Network description files: written by write_network (or by hand, following the documented
format) and read by read_network on every rank, through the simulated file layer.

The oracle is the case's own graph: which agents each rank must have, with which attributes,
which edges with which direction and attributes, and which ghosts its own edges need."""
import json
import os
import random as _random
import sys
import types
from ..common import Result, Fail, Stopped, run_sim, gen_sched, gen_world, agent_class, Restore, RANKS, make_rng
from .. import fs

NAME = "netfile"
STR = ["", "a b", "x", "{}", "} {", "q\"uote", "back\\slash", "ünï", "[1, 2]", "EDGES", "1 2", "tab\t", "a  b", "  lead", "trail   ", "two\nlines", "\u2028", "\x85x", "\r"]


def gen_value(rng, depth=0):
    k = rng.random()
    if k < .3:
        return rng.randrange(-50, 1000)
    if k < .5:
        return rng.choice([0.5, -1.25e-9, 3.0, 1e300, 0.1])
    if k < .7:
        return rng.choice(STR)
    if k < .8 or depth > 1:
        return rng.choice([True, False, None])
    if k < .9:
        return [gen_value(rng, depth + 1) for _ in range(rng.randrange(3))]
    return {rng.choice("abc"): gen_value(rng, depth + 1) for _ in range(rng.randrange(3))}


def gen_attrs(rng, p):
    if rng.random() > p:
        return {}
    return {rng.choice(["weight", "age", "energy", "name", "x_1"]): gen_value(rng) for _ in range(rng.randrange(1, 4))}


def gen(rng, focus=None):
    n = rng.choice(RANKS)
    nn = rng.choice([0, 1, 2, 4, 6, 10, 15])
    ids = rng.sample(range(0, 60), nn)
    d = rng.random() < .5
    pa, pe = rng.choice([0, .5, 1]), rng.choice([0, .5, 1])
    hub = rng.choice(ids) if nn and rng.random() < .3 else None
    # a file partitioned for several ranks may also be read by a single process
    nf = rng.choice([1, 2, 4]) if n == 1 else n
    nodes = [[i, rng.choice([0, 0, 1, 2, 5]), rng.randrange(nf), gen_attrs(rng, pa)] for i in ids]
    edges, seen = [], set()
    for _ in range(rng.choice([0, 1, nn, 2 * nn, 3 * nn])):
        if nn < 2:
            break
        u, v = rng.sample(ids, 2)
        if hub is not None and rng.random() < .5 and v != hub:
            u = hub
            if rng.random() < .5:
                u, v = v, u
        k = (u, v) if d else (min(u, v), max(u, v))
        if k in seen:
            continue
        seen.add(k)
        edges.append([u, v, gen_attrs(rng, pe)])
    case = {"wl": NAME, "n": n, "nf": nf, "d": d, "nodes": nodes, "edges": edges,
            "mode": rng.choice(["text", "text", "write", "write", "write", "metis"]), "wseed": rng.randrange(1 << 20),
            "rngarg": rng.choice(["none", "default", "own"]), "method": rng.random() < .5,
            "name": rng.choice(["net", "friend_network", "n1"]),
            "grid": rng.choice([None, None, None, 0, 1]), "restore": rng.choice(["fresh", "cached"]),
            "salt": rng.randrange(1 << 16), "steps": rng.choice([0, 1, 2]), "sseed": rng.randrange(1 << 20),
            "small": rng.random() < .5}
    fl = []
    if case["mode"] != "text" and rng.random() < .3:
        fl.append(["write", rng.randrange(0, 6), rng.choice(["short", "short", "eio", "enospc"]), rng.random()])
    case["faults"] = fl
    if case["mode"] == "text" and rng.random() < .15:
        case["bad"] = [rng.choice(["short", "word", "header"]), rng.random()]
    case["sched"] = gen_sched(rng, n)
    world = gen_world(rng, n)
    if world:
        case["world"] = world
    return case


def parse(text):
    """Independent reader of the documented format."""
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop()
    name, d = lines[0].split(" ")
    nodes, edges, cur = {}, [], "n"
    dec = json.JSONDecoder()
    for ln in lines[1:]:
        if ln == "EDGES":
            cur = "e"
            continue
        k = 3 if cur == "n" else 2
        parts = ln.split(" ", k)
        at = {}
        if len(parts) > k:
            at, end = dec.raw_decode(parts[k])
            if parts[k][end:].strip():
                raise ValueError(ln)
        if cur == "n":
            i, t, r = (int(x) for x in parts[:3])
            if i in nodes:
                raise ValueError("node %d twice" % i)
            nodes[i] = (t, r, at)
        else:
            edges.append((int(parts[0]), int(parts[1]), at))
    return name, int(d), nodes, edges


def execute(case):
    res = Result()
    n, d = case["n"], case["d"]
    simfs = fs.SimFS(case["faults"])
    simfs.small = case["small"]
    path = os.path.join(simfs.dir, "net.txt")
    shared = {"nodes": None}
    ntypes = {i: t for i, t, _, _ in case["nodes"]}
    nattrs = {i: at for i, _, _, at in case["nodes"]}

    def key(u, v):
        return (u, v) if d or u <= v else (v, u)
    want_edges = {key(u, v): at for u, v, at in case["edges"]}

    def corrupt():
        """Breaks one line so that no rank can make sense of it; returns the line's number."""
        with open(path) as f:
            lines = f.read().split("\n")
        kind, x = case["bad"]
        ok = [i for i, ln in enumerate(lines) if ln and ln != "EDGES" and i] or [0]
        i = 0 if kind == "header" else ok[int(x * len(ok))]
        f = lines[i].split(" ")
        k = 1 if i == 0 or i > lines.index("EDGES") else 2     # one field less than needed
        if kind == "word" and i:
            f[int(x * 1000) % k] = "x7"
            lines[i] = " ".join(f)
        else:
            lines[i] = " ".join(f[:k])
        with open(path, "w") as f:
            f.write("\n".join(lines))
        return i + 1

    def write(r4):
        if case["mode"] == "text":
            with open(path, "w") as f:
                f.write("%s %d\n" % (case["name"], 1 if d else 0))
                for i, t, r, at in case["nodes"]:
                    f.write("%d %d %d%s\n" % (i, t, r, " " + json.dumps(at) if at else ""))
                f.write("EDGES\n")
                for u, v, at in case["edges"]:
                    f.write("%d %d%s\n" % (u, v, " " + json.dumps(at) if at else ""))
            if case.get("bad"):
                shared["bad"] = corrupt()
            return
        import networkx as nx
        import numpy as np
        g = nx.DiGraph() if d else nx.Graph()
        for i, t, _, at in case["nodes"]:
            kw = dict(at)
            if t or i % 2:
                kw["agent_type"] = t
            g.add_node(i, **kw)
        for u, v, at in case["edges"]:
            g.add_edge(u, v, **at)
        before = json.dumps([list(g.nodes(data=True)), list(g.edges(data=True))])
        def args():
            kw = {}
            if case["mode"] == "metis":
                kw.update(partition_method="metis", options=("opt", case["wseed"]), recursive=case["method"])
                return kw
            if case["method"]:
                kw["partition_method"] = "random"
            if case["rngarg"] == "default":
                kw["rng"] = "default"
            elif case["rngarg"] == "own":
                kw["rng"] = np.random.default_rng(case["wseed"])
            return kw
        parts = [[] for _ in range(case["nf"])]
        prng = make_rng(case["wseed"])
        for i in prng.sample(list(g.nodes), len(g.nodes)):
            parts[prng.randrange(case["nf"])].append(i)
        metis = []
        mod = types.ModuleType("nxmetis")     # not installed here: a stand-in that returns a chosen partition

        def partition(graph, nparts=2, **kw):
            metis.append((graph is g, nparts, kw))
            return 0, [list(p) for p in parts]
        mod.partition = partition
        had = sys.modules.get("nxmetis")
        sys.modules["nxmetis"] = mod
        try:
            r4.random.init(case["wseed"])
            r4.network.write_network(g, case["name"], path, case["nf"], **args())
            if case["mode"] == "write" and not case["faults"]:
                # the partition depends on the chosen generator only
                r4.random.init(case["wseed"] + (case["rngarg"] == "own"))
                r4.network.write_network(g, case["name"], path + "2", case["nf"], **args())
                with open(path) as f, open(path + "2") as f2:
                    a, b = f.read(), f2.read()
                if a != b:
                    res.fail("C09", "partition repeats", "the same graph written twice with the same generator and seed gives %r and then %r" % (a, b))
        finally:
            if had is None:
                del sys.modules["nxmetis"]
            else:
                sys.modules["nxmetis"] = had
        if case["mode"] == "metis":
            if metis != [(True, case["nf"], {"options": ("opt", case["wseed"]), "recursive": case["method"]})]:
                res.fail("C09", "metis arguments", "the partitioner was called with %r" % (metis,))
            shared["parts"] = {i: r for r, p in enumerate(parts) for i in p}
        if json.dumps([list(g.nodes(data=True)), list(g.edges(data=True))]) != before:
            res.fail("C09", "graph changed", "writing the network changed the graph")

    def program(rank, r4, comm):
        A = agent_class(r4, case["salt"])
        restore = Restore(A, case["restore"])
        ok = True
        if rank == 0:
            try:
                write(r4)
            except OSError as e:
                if not simfs.fired:
                    raise
                ok = False
                res.probe("write error reported")
        ok = comm.bcast(ok, 0)
        if not ok:
            return
        if "bad" in shared:
            try:
                r4.network.read_network(path, r4.context.SharedContext(comm), lambda i, t, r, **kw: A((i, t, r), kw), restore)
            except ValueError as e:
                if shared["bad"] > 1 and str(shared["bad"]) not in str(e):
                    raise Fail("C09", "malformed line", "line %d is malformed, reported as %s" % (shared["bad"], e))
                res.probe("malformed line reported")
                return
            raise Fail("C09", "malformed line", "line %d is malformed, and rank %d read the file" % (shared["bad"], rank))
        with open(path) as f:
            text = f.read()
        try:
            name, dd, nodes, edges = parse(text)
        except Exception as e:
            raise Fail("C09", "file format", "the written file is not in the documented format: %s (faults %r)" % (e, simfs.fired))
        if name != case["name"] or bool(dd) != bool(d):
            raise Fail("C09", "file header", "header says %r %r" % (name, dd))
        if {i: (t, at) for i, (t, r, at) in nodes.items()} != {i: (ntypes[i], nattrs[i]) for i in ntypes}:
            raise Fail("C09", "file nodes", "the file's nodes %r are not the graph's" % (nodes,))
        if any(not 0 <= r < case["nf"] for t, r, at in nodes.values()):
            raise Fail("C09", "file ranks", "a node is assigned to a rank that does not exist: %r" % (nodes,))
        if "parts" in shared and {i: r for i, (t, r, at) in nodes.items()} != shared["parts"]:
            raise Fail("C09", "file ranks", "the partitioner assigned %r, the file says %r" % (shared["parts"], nodes))
        fe = {}
        for u, v, at in edges:
            if key(u, v) in fe:
                raise Fail("C09", "file edges", "edge %r twice in the file" % (key(u, v),))
            fe[key(u, v)] = at
        if fe != want_edges:
            raise Fail("C09", "file edges", "the file's edges %r are not the graph's %r" % (fe, want_edges))
        uid = {i: (i, t, r) for i, (t, r, at) in nodes.items()}
        shared["uid"] = uid
        calls = []

        def create(nid, t, r, **attrs):
            calls.append(nid)
            a = A((nid, t, r), attrs)
            restore.made(a)
            return a

        ctx = r4.context.SharedContext(comm)
        g = None
        if case["grid"] is not None:
            S = r4.space
            g = S.SharedGrid("grid", r4.geometry.BoundingBox(0, 4 * n, 0, 4 * n, 0, 0), S.BorderType.Sticky,
                             S.OccupancyType.Multiple, case["grid"], comm)
            ctx.add_projection(g)
        r4.network.read_network(path, ctx, create, restore)
        mine = sorted(i for i in nodes if n == 1 or nodes[i][1] == rank)
        if sorted(calls) != mine:
            raise Fail("C09", "created agents", "rank %d created %r, its nodes are %r" % (rank, sorted(calls), mine))
        net = ctx.get_projection(case["name"])
        if net.is_directed != bool(d):
            raise Fail("C09", "direction", "network is_directed is %r" % net.is_directed)
        state = {i: at for i, at in nattrs.items()}
        E = {k: at for k, at in want_edges.items()}
        observe("after reading", ctx, net, g, rank, uid, state, E)
        # life goes on: owners change states, ends change and remove edges
        rng = make_rng("netfile-steps", case["sseed"])
        for s in range(case["steps"]):
            for i in sorted(nodes):
                if rng.random() < .4:
                    state[i] = {"s": s, "i": i}
                    if n == 1 or nodes[i][1] == rank:
                        ctx.agent(uid[i]).state = (dict(state[i]),)
            for k in sorted(E):
                q = rng.random()
                end = rng.choice(k)
                if q < .3:
                    E[k] = dict(E[k], w2=s)
                elif q < .5:
                    del E[k]
                else:
                    continue
                if n == 1 or nodes[end][1] == rank:
                    u, v = (ctx.agent(uid[x]) or ctx.ghost_agent(uid[x]) for x in k)
                    if k in E:
                        net.update_edge(u, v, w2=s)
                    else:
                        net.remove_edge(u, v)
            ctx.synchronize(restore)
            observe("after step %d" % s, ctx, net, g, rank, uid, state, E)

    def observe(tag, ctx, net, g, rank, uid, state, E):
        tag = "%s, rank %d: " % (tag, rank)
        nf = len(res.fails)
        own = {uid[i] for i in uid if n == 1 or uid[i][2] == rank}
        have = {a.uid: a for a in ctx.agents()}
        res.evals += len(own) + len(E) + 1
        if set(have) != own:
            res.fail("C09", "agents", tag + "missing %r, unexpected %r" % (sorted(own - set(have)), sorted(set(have) - own)))
        need = set()
        we = {}
        for (u, v), at in E.items():
            a, b = uid[u], uid[v]
            if a in own or b in own:
                we[(a, b)] = at
                need |= {x for x in (a, b) if x not in own}
        # the ghosts requested while reading stay (as any requested ghost does), also when
        # their last edge is removed later
        first = shared.setdefault("first", {}).setdefault(rank, set(need))
        for i in uid:
            u = uid[i]
            gh = ctx.ghost_agent(u)
            if gh is None and u in need:
                res.fail("C09", "missing ghost", tag + "%r is not a ghost here" % (u,))
            if gh is not None and u not in need and u not in first:
                res.fail("C09", "unneeded ghost", tag + "%r is a ghost here, none of the rank's edges needs it" % (u,))
            a = have.get(u) or gh
            if a is not None:
                if a.state != (state[i],):
                    res.fail("C09", "agent attributes", tag + "%r has %r, expected %r" % (u, a.state, (state[i],)))
                if a.local_rank != (0 if n == 1 else u[2]):
                    res.fail("C09", "agent rank", tag + "%r has local_rank %d" % (u, a.local_rank))
        got = {}
        for u, v, at in net.graph.edges(data=True):
            k = (u.uid, v.uid) if d or u.uid[0] <= v.uid[0] else (v.uid, u.uid)
            if k in got:
                res.fail("C09", "edge twice", tag + "%r" % (k,))
            got[k] = dict(at)
            for x in (u, v):
                ref = ctx.agent(x.uid) or ctx.ghost_agent(x.uid)
                if ref is not x:
                    res.fail("C09", "edge end", tag + "the end %r of edge %r is not the agent the context knows" % (x.uid, k))
        if set(got) != set(we):
            res.fail("C09", "edges", tag + "missing edges %r, unexpected edges %r" % (sorted(set(we) - set(got)), sorted(set(got) - set(we))))
        for k in we:
            if k in got and got[k] != we[k]:
                res.fail("C09", "edge attributes", tag + "edge %r has %r, expected %r" % (k, got[k], we[k]))
        nodes = sorted(a.uid for a in net)
        if len(set(nodes)) != len(nodes) or not own | need <= set(nodes) <= own | need | first:
            res.fail("C09", "nodes", tag + "network nodes %r, expected %r" % (nodes, sorted(own | need)))
        if len(res.fails) > nf:
            raise Stopped()

    try:
        with simfs:
            outcome, sim = run_sim(n, program, case["sched"], res, world=case.get("world"))
    finally:
        simfs.remove()
    uid = shared.get("uid") or {}
    cross = sum(1 for u, v in want_edges if u in uid and uid[u][2] != uid[v][2])
    res.probe("cross-rank edges", cross)
    res.nontrivial = n > 1 and cross > 0
    return res


def shrink(case):
    ed, nd = case["edges"], case["nodes"]
    for i in range(len(ed)):
        yield dict(case, edges=ed[:i] + ed[i + 1:])
    for i in range(len(nd)):
        x = nd[i][0]
        yield dict(case, nodes=nd[:i] + nd[i + 1:], edges=[e for e in ed if x not in e[:2]])
    for i in range(len(nd)):
        if nd[i][3]:
            yield dict(case, nodes=nd[:i] + [nd[i][:3] + [{}]] + nd[i + 1:])
    for i in range(len(ed)):
        if ed[i][2]:
            yield dict(case, edges=ed[:i] + [ed[i][:2] + [{}]] + ed[i + 1:])
    if case["steps"]:
        yield dict(case, steps=case["steps"] - 1)
    if case["faults"]:
        yield dict(case, faults=[])
    if case.get("bad"):
        yield {k: v for k, v in case.items() if k != "bad"}
    if case["mode"] != "text":
        yield dict(case, mode="text", faults=[])
    if case["grid"] is not None:
        yield dict(case, grid=None)
    if case["n"] > 2:
        yield dict(case, n=2, nf=2, nodes=[[i, t, r % 2, at] for i, t, r, at in nd])
