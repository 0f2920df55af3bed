"""Process topologies: how ranks divide global bounds among themselves.

Every rank builds a CartesianTopology and the shared spaces and value layers over the same
bounds; what all ranks derive (coordinates, process grid, local bounds, and which part of its
area each rank would send to which neighbour) is compared with the definition of the buffer:
the cells within the buffer size of the neighbour's area."""
import math
from ..common import Result, Fail, run_sim, gen_sched

NAME = "topology"


def gen(rng, focus=None):
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 6, 7, 8, 8, 9, 10, 11, 12])
    nd = rng.choice([1, 2, 2, 3])
    b = []
    k = rng.random()
    for d in range(3):
        if d < nd:
            if k < .15:
                ext = rng.randrange(1, 6)               # possibly fewer cells than ranks
            elif k < .9:
                ext = rng.randrange(3, 30)
            else:
                ext = rng.choice([rng.randrange(30, 200), rng.randrange(200, 5000) if nd == 1 else 31])
            b += [rng.choice([0, 0, rng.randrange(-40, 40)]), ext]
        else:
            b += [0, 0]
    c = {"wl": NAME, "n": n, "nd": nd, "b": b, "per": rng.random() < .5,
         "bufs": sorted({rng.randrange(0, 5) for _ in range(rng.choice([1, 2]))}),
         "occ": "M", "order": rng.randrange(1 << 20)}
    if n > 2 and rng.random() < .2:
        # the job's ranks are divided among several spaces
        c["split"] = [rng.randrange(2) for _ in range(n)]
    c["sched"] = gen_sched(rng, n)
    return c


def execute(case):
    import random as _random
    res = Result()
    n, nd, b, per = case["n"], case["nd"], case["b"], case["per"]
    full = [(b[2 * d], b[2 * d + 1]) for d in range(3)]
    seen = {}

    def tup(bb):
        return tuple(int(x) for x in (bb.xmin, bb.xextent, bb.ymin, bb.yextent, bb.zmin, bb.zextent))

    def program(rank, r4, comm):
        import numpy as np
        sp = r4.space
        split = case.get("split")
        g = comm if not split else comm.Split(split[rank], rank)
        me, size = g.Get_rank(), g.Get_size()
        B = sp.BoundingBox(*b)
        topo = sp.CartesianTopology(g, B, per)
        mine = {"rank": me, "size": size, "coords": tuple(int(x) for x in topo.coordinates),
                "ppd": tuple(int(x) for x in topo.procs_per_dim), "lb": tup(topo.local_bounds),
                "comm": (topo.comm.Get_rank(), topo.comm.Get_size()), "bufs": {}}
        for bf in case["bufs"]:
            mine["bufs"][bf] = [(int(e[0]), tuple(int(x) for x in e[1])) for e in topo.compute_buffer_nghs(bf)]
        # the spaces and value layers divide the same bounds in the same way
        borders = sp.BorderType.Periodic if per else sp.BorderType.Sticky
        others = []
        kinds = ["grid"] + (["cspace"] if nd > 1 else []) + (["layer"] if nd < 3 else [])
        _random.Random(case["order"]).shuffle(kinds)
        for k in kinds:
            if k == "layer" and any(full[d][1] // mine["ppd"][d] < max(case["bufs"][-1], 1) for d in range(nd)):
                continue
            bf = case["bufs"][-1]
            if k == "grid":
                o = sp.SharedGrid("g", B, borders, sp.OccupancyType.Multiple, bf, g)
                lb = tup(o.get_local_bounds())
            elif k == "cspace":
                o = sp.SharedCSpace("c", B, borders, sp.OccupancyType.Multiple, bf, g, 10)
                lb = tup(o.get_local_bounds())
            else:
                o = r4.value_layer.SharedValueLayer(g, B, borders, bf, 0)
                lb = tup(o.local_bounds)
            others.append((k, lb))
            if k != "layer" and all(lb[2 * d + 1] > 0 for d in range(nd)):
                rng = np.random.default_rng(case["order"] + rank)
                for _ in range(6):
                    pt = tuple(o.get_random_local_pt(rng).coordinates.tolist())
                    res.evals += 1
                    for d in range(3):
                        lo, ex = lb[2 * d], lb[2 * d + 1]
                        if d >= nd and pt[d] != 0 or d < nd and not (lo <= pt[d] < lo + ex):
                            raise Fail("C19", "random point", "%s: random local point %r is outside %r" % (k, pt, lb))
        mine["others"] = others
        mine["again"] = tup(topo.local_bounds)
        seen.setdefault(split[rank] if split else 0, {})[me] = mine

    outcome, sim = run_sim(n, program, case["sched"], res)
    if outcome == "done" and not res.fails:
        try:
            for grp in seen.values():
                judge(res, case, grp, full)
        except Fail as f:
            res.fail(f.prop, f.kind, f.detail)
    res.nontrivial = n > 1
    return res


def near(q, x, d, lb, full, per, bf):
    """Is coordinate x within the buffer size of rank q's area, in dimension d?"""
    lo, hi = lb[2 * d], lb[2 * d] + lb[2 * d + 1] - 1
    vs = (x,) if not per else (x - full[d][1], x, x + full[d][1])
    return any(lo - bf <= v <= hi + bf for v in vs)


def judge(res, case, grp, full):
    nd, per = case["nd"], case["per"]
    size = len(grp)
    ppd = grp[0]["ppd"]
    res.evals += 1
    if len(ppd) != nd or math.prod(ppd) != size:
        raise Fail("C19", "process grid", "%r ranks per dimension, for %d ranks and %d dimensions" % (ppd, size, nd))
    coords = {}
    for r, m in sorted(grp.items()):
        res.evals += 4
        if m["ppd"] != ppd:
            raise Fail("C19", "process grid", "rank %d has %r, rank 0 %r" % (r, m["ppd"], ppd))
        if m["comm"] != (r, size):
            raise Fail("C19", "communicator", "rank %d of %d is %r in the topology's communicator" % (r, size, m["comm"]))
        if len(m["coords"]) != nd or any(not 0 <= c < p for c, p in zip(m["coords"], ppd)):
            raise Fail("C19", "coordinates", "rank %d has coordinates %r in a grid of %r" % (r, m["coords"], ppd))
        if m["coords"] in coords:
            raise Fail("C19", "coordinates", "ranks %d and %d are both at %r" % (coords[m["coords"]], r, m["coords"]))
        coords[m["coords"]] = r
        for k, lb in m["others"]:
            if lb != m["lb"]:
                raise Fail("C19", "partition", "rank %d: local bounds %r in the topology, %r in a %s" % (r, m["lb"], lb, k))
        if m["again"] != m["lb"]:
            raise Fail("C19", "partition", "rank %d: local bounds change from %r to %r" % (r, m["lb"], m["again"]))
    # along every dimension the ranks' intervals follow each other, in the order of their coordinates
    for d in range(3):
        iv = {}
        for r, m in sorted(grp.items()):
            v = (m["lb"][2 * d], m["lb"][2 * d + 1])
            res.evals += 1
            if d >= nd:
                if v != (0, 0):
                    raise Fail("C19", "partition", "rank %d: unused dimension %d has bounds %r" % (r, d, v))
                continue
            c = m["coords"][d]
            if iv.setdefault(c, v) != v:
                raise Fail("C19", "partition", "ranks at coordinate %d of dimension %d have bounds %r and %r" % (c, d, iv[c], v))
        at = full[d][0]
        for c in range(ppd[d] if d < nd else 0):
            if iv[c][0] != at or iv[c][1] < 0:
                raise Fail("C19", "partition", "dimension %d: coordinate %d has %r, the one before it ends at %d" % (d, c, iv[c], at))
            at += iv[c][1]
        if d < nd and at != full[d][0] + full[d][1]:
            raise Fail("C19", "partition", "dimension %d is divided up to %d, it ends at %d" % (d, at, full[d][0] + full[d][1]))
    # what each rank sends to whom
    for bf in case["bufs"]:
        if any(m["lb"][2 * d + 1] < max(bf, 1) for m in grp.values() for d in range(nd)):
            continue
        vol = max(math.prod(m["lb"][2 * d + 1] for d in range(nd)) for m in grp.values())
        for r, m in sorted(grp.items()):
            boxes = {}
            for q, box in m["bufs"][bf]:
                if q == r or q not in grp:
                    raise Fail("C19 C04", "neighbour", "rank %d has neighbour %d" % (r, q))
                boxes.setdefault(q, []).append(box)
            if bf == 0 or vol > 4000:
                continue
            for q in sorted(grp):
                if q == r:
                    continue
                lb = grp[q]["lb"]
                axes = []
                for d in range(nd):
                    axes.append([x for x in range(m["lb"][2 * d], m["lb"][2 * d] + m["lb"][2 * d + 1])
                                 if near(q, x, d, lb, full, per, bf)])
                want = set(cells(axes))
                got = set()
                for bx in boxes.get(q, ()):
                    for d in range(nd):
                        if bx[2 * d] < m["lb"][2 * d] or bx[2 * d + 1] > m["lb"][2 * d] + m["lb"][2 * d + 1]:
                            raise Fail("C19 C04", "neighbour", "rank %d would send %r to rank %d, its area is %r" % (r, bx, q, m["lb"]))
                    got |= set(cells([range(bx[2 * d], bx[2 * d + 1]) for d in range(nd)]))
                res.evals += 1
                res.probe("neighbours", 1 if want else 0)
                if got != want:
                    raise Fail("C19 C04", "neighbour", "rank %d %r would send rank %d %r the areas %r; missing %r, unneeded %r (buffer %d)" % (
                        r, m["lb"], q, lb, boxes.get(q), sorted(want - got)[:3], sorted(got - want)[:3], bf))


def cells(axes):
    out = [()]
    for a in axes:
        out = [t + (x,) for t in out for x in a]
    return out


def shrink(case):
    if case.get("split"):
        c = dict(case)
        del c["split"]
        yield c
    for i in range(len(case["bufs"])):
        if len(case["bufs"]) > 1:
            c = dict(case)
            c["bufs"] = case["bufs"][:i] + case["bufs"][i + 1:]
            yield c
    for d in range(case["nd"]):
        for k in (0, 1):
            v = case["b"][2 * d + k]
            for w in ((0,) if k == 0 else (v // 2, v - 1)):
                if w != v and (k == 0 or w > 0):
                    c = dict(case)
                    c["b"] = list(case["b"])
                    c["b"][2 * d + k] = w
                    yield c
    for w in (case["n"] // 2, case["n"] - 1):
        if 0 < w < case["n"] and not case.get("split"):
            c = dict(case)
            c["n"] = w
            yield c
