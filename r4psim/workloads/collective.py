"""Lopsided jobs: the other workloads' cases, changed so that most ranks have nothing to do.

Agents, requests, events and rows are concentrated on one or two ranks (or taken away
altogether), while all ranks still make the same collective calls.  The cases are executed by
the workload they come from."""
import importlib

NAME = "collective"
INNER = [("spatial", None), ("spatial", "request"), ("spatial", "remove"), ("network", None), ("network", "move"), ("network", "edit"),
         ("logfile", None), ("sched", None), ("ckpt", None), ("repro", None), ("netfile", None)]


def gen(rng, focus=None):
    wl, f = rng.choice(INNER)
    w = importlib.import_module("r4psim.workloads." + wl)
    for _ in range(20):
        c = w.gen(rng, f)
        if c["n"] > 1:
            break
    n = c["n"]
    act = rng.sample(range(n), rng.choice([1, 1, 1, min(2, n)]))
    drop = rng.choice([0, 0, .3, .8])

    def rk(r):
        return act[r % len(act)]

    if wl in ("spatial", "network"):
        ids = {tuple(o[1]): [o[1][0], o[1][1], rk(o[1][2])] for s in c["steps"] for o in s["ops"] if o[0] == "add"}

        def m(x):
            if isinstance(x, list):
                return ids.get(tuple(x), None) if len(x) == 3 and all(type(y) is int for y in x) and tuple(x) in ids else [m(y) for y in x]
            return x
        steps = []
        gone = set()
        for i, s in enumerate(c["steps"]):
            s = dict(s)
            ops = []
            for o in s["ops"]:
                if rng.random() < drop:
                    if o[0] == "add":
                        gone.add(tuple(o[1]))
                    continue
                if o[0] == "add":
                    o = [o[0], ids[tuple(o[1])]] + o[2:]
                    if rng.random() < .5 and isinstance(o[-1], list):
                        # everybody at the same place
                        o[-1] = c["steps"][0]["ops"][0][-1] if c["steps"][0]["ops"] and c["steps"][0]["ops"][0][-1] is not None else o[-1]
                elif o[0] in ("rm", "set", "edge", "upd", "rem", "nrm", "nadd"):
                    o = [o[0]] + [m(x) for x in o[1:]]
                elif o[0] == "move":
                    o = [o[0], m(o[1])] + o[2:]
                elif o[0] == "clear":
                    o = o[:2] + [rk(o[2])]
                ops.append(o)
            s["ops"] = ops
            if s.get("reqs"):
                s["reqs"] = [[rk(r) if rng.random() < .7 else r, m(u)] for r, u in s["reqs"]]
            if s.get("moves"):
                d = rng.randrange(n)
                s["moves"] = [[m(u), d if rng.random() < .7 else e] for u, e in s["moves"]]
            steps.append(s)
        # what refers to an agent that is never made is left out
        bad = {tuple(ids[u]) for u in gone}

        def ok(o):
            return not any(refs(x) for x in o[1:4])

        def refs(x):
            """Whether x is, or has among its elements, an agent that is never made."""
            if not isinstance(x, list):
                return False
            if len(x) == 3 and all(type(y) is int for y in x):
                return tuple(x) in bad
            return any(refs(y) for y in x)
        for s in steps:
            s["ops"] = [o for o in s["ops"] if ok(o) or o[0] == "q"]
            for k in ("reqs", "moves"):
                if k in s:
                    s[k] = [x for x in s[k] if tuple(x[1] if k == "reqs" else x[0]) not in bad]
        c["steps"] = steps
    elif wl == "logfile":
        c["ops"] = [[o[0], o[1], [v if r in act and rng.random() >= drop else 0 for r, v in enumerate(o[2])], o[3]] if o[0] == "row" else o
                    for o in c["ops"]]
    elif wl == "sched":
        for r in range(n):
            if r not in act or rng.random() < drop:
                c["ranks"][r]["evs"] = c["ranks"][r]["evs"][:0]
                c["ranks"][r]["spos"] = 0
    elif wl in ("ckpt", "repro"):
        c["agents"] = [v if r in act else 0 for r, v in enumerate(c["agents"])]
        c["evs"] = [e for e in c["evs"] if e["r"] in act]
        if rng.random() < drop:
            c["agents"] = [0] * n
    elif wl == "netfile":
        c["nodes"] = [[i, t, rk(r), a] for i, t, r, a in c["nodes"]]
    return c


def execute(case):
    return importlib.import_module("r4psim.workloads." + case["wl"]).execute(case)


def shrink(case):
    return importlib.import_module("r4psim.workloads." + case["wl"]).shrink(case)
