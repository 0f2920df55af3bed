"""Value layers: writes, synchronizations and swaps of shared layers on several ranks.

The case fixes every rank's writes; a model with one array of cells per layer (and what each
rank wrote into its own copy of buffer cells) predicts every readable cell of every rank after
each operation.  Neighbourhood queries are compared with the same model."""
from ..common import Result, Fail, run_sim, gen_sched, gen_world, RANKS, dims_create, replay_cur, make_rng

NAME = "valuelayer"


def gen(rng, focus=None):
    n = rng.choice(RANKS)
    nd = rng.choice([1, 2, 2, 2])
    per = rng.random() < 0.5
    buf = rng.choice([0, 1, 1, 2, 2, 3])
    procs = dims_create(n, nd)
    b = []
    for d in range(2):
        if d < nd:
            base = rng.randrange(max(buf, 1), max(buf, 1) + rng.choice([1, 3, 5]))
            ext = base * procs[d] + (rng.randrange(procs[d]) if rng.random() < .6 else 0)
            b += [0 if rng.random() < .5 else rng.randrange(-15, 15), ext]
        else:
            b += [0, 0]
    layers = []
    for _ in range(rng.choice([1, 1, 2])):
        dt = rng.choice(["float64", "float64", "float32", "int64", "int32"])
        init = rng.choice([0, 7, "random", 3]) if dt.startswith("f") else rng.choice([0, 7, -3])
        layers.append({"rw": rng.random() < .4, "dt": dt, "init": init})
        if init != "random" and rng.random() < .2:
            layers[-1]["each"] = True        # every rank gives its own initial value
    ops = []
    for _ in range(rng.randrange(2, 12)):
        k = rng.random()
        if k < .5:
            ops.append(["w", rng.randrange(1 << 30), rng.choice([1, 2, 5, 20])])
        elif k < .8:
            ops.append(["sync", rng.random() < .85])
        elif k < .9:
            ops.append(["swap", rng.randrange(len(layers))])
        else:
            ops.append(["fill", rng.randrange(1 << 30)])
    ops.append(["sync", True])
    private = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        k = rng.choice([1, 2, 2, 3])
        q = []
        for d in range(3):
            q += [rng.choice([0, rng.randrange(-9, 9)]), rng.choice([1, 2, 3, 4] if k == 3 else [1, 2, 3, 4, 6])] if d < k else [0, 0]
        private.append({"nd": k, "b": q, "per": rng.random() < .5, "dt": rng.choice(["float64", "float32", "int64", "int32"]),
                        "init": rng.choice([0, 7, -3, "random"]), "w": rng.randrange(1 << 30)})
        if private[-1]["init"] == "random" and private[-1]["dt"].startswith("i"):
            private[-1]["init"] = 4
    c = {"wl": NAME, "n": n, "nd": nd, "b": b, "per": per, "buf": buf, "layers": layers, "ops": ops,
         "d3": rng.random() < .05, "private": private}
    c["sched"] = gen_sched(rng, n)
    world = gen_world(rng, n)
    if world:
        c["world"] = world
    return c


def num(x):
    return x.item() if hasattr(x, "item") else x


class View:
    """What one rank can read of one (plain) layer."""

    def __init__(self):
        self.v = {}


class Private:
    """A layer of a single rank: values written to it must be read from it, at once, and nowhere else."""

    def __init__(self, r4, rank, i, l, res):
        import torch
        sp = r4.space
        self.r4, self.l, self.i, self.res = r4, l, i, res
        self.nd = nd = l["nd"]
        self.full = [(l["b"][2 * d], l["b"][2 * d + 1]) for d in range(nd)]
        self.o = r4.value_layer.ValueLayer(sp.BoundingBox(*l["b"]), sp.BorderType.Periodic if l["per"] else sp.BorderType.Sticky,
                                           l["init"], dtype=getattr(torch, l["dt"]))
        bb = self.o.bounds
        if [bb.xmin, bb.xextent, bb.ymin, bb.yextent, bb.zmin, bb.zextent] != l["b"]:
            raise Fail("C10", "private bounds", "layer %d has bounds %r" % (i, bb))
        if tuple(self.o.grid.shape) != tuple(e for _, e in reversed(self.full)):
            raise Fail("C10", "private grid", "layer %d has a grid of shape %r" % (i, tuple(self.o.grid.shape)))
        import itertools
        self.cells = list(itertools.product(*[range(m, m + e) for m, e in self.full]))
        self.rng = make_rng(l["w"] + rank)
        self.exp = {c: num(self.o.get(self.pt(c))) for c in self.cells}
        if l["init"] != "random" and any(v != l["init"] for v in self.exp.values()):
            raise Fail("C10", "private initial value", "layer %d: %r" % (i, self.exp))

    def pt(self, c):
        return self.r4.space.DiscretePoint(*(list(c) + [0, 0])[:3])

    def home(self, c):
        if self.l["per"]:
            return tuple(m + (x - m) % e for x, (m, e) in zip(c, self.full))
        return tuple(min(max(x, m), m + e - 1) for x, (m, e) in zip(c, self.full))

    def write(self):
        for _ in range(self.rng.randrange(1, 6)):
            c = self.rng.choice(self.cells)
            if self.rng.random() < .3:
                c = tuple(x + self.rng.choice([0, -1, 1, -e, e]) for x, (m, e) in zip(c, self.full))
            v = self.rng.randrange(-99, 99)
            if self.rng.random() < .2:
                h = self.home(c)
                self.o.grid[tuple(x - m for x, (m, e) in reversed(list(zip(h, self.full))))] = v      # through the tensor
            else:
                self.o.set(self.pt(c), v)
            self.exp[self.home(c)] = v

    def check(self, where):
        import numpy as np
        import itertools
        for c in self.cells:
            self.cmp(c, c, self.o.get(self.pt(c)), where)
            for d in range(self.nd):
                m, e = self.full[d]
                for x in (m - 1, m + e, m - 2, m + e + 1):
                    q = c[:d] + (x,) + c[d + 1:]
                    self.cmp(q, self.home(q), self.o.get(self.pt(q)), where)
            want = set()
            for of in itertools.product((-1, 0, 1), repeat=self.nd):
                q = tuple(x + d for x, d in zip(c, of))
                if self.l["per"] or self.home(q) == q:
                    want.add(self.home(q))
            vals, locs = self.o.get_nghs(self.pt(c))
            L = np.asarray(locs).reshape(self.nd, -1)
            got = [tuple(int(x) for x in L[:, i]) for i in range(L.shape[1])]
            small = self.l["per"] and any(e < 3 for _, e in self.full)
            if set(got) != want or (not small and len(got) != len(want)) or len(vals) != len(got):
                raise Fail("C10", "private neighbours", "%s: layer %d %r: neighbours of %r are %r (%d values), expected %r" % (
                    where, self.i, self.l, c, got, len(vals), sorted(want)))
            for q, v in zip(got, vals):
                self.cmp(q, q, v, where + " as neighbour of %r" % (c,))
        self.res.probe("private layer checked")

    def cmp(self, c, h, v, where):
        self.res.evals += 1
        if not same(self.exp[h], num(v), self.l["dt"]):
            raise Fail("C10", "private cell", "%s: private layer %d %r: cell %r reads %r, expected %r" % (where, self.i, self.l, c, num(v), self.exp[h]))


def execute(case):
    import random as _random
    res = Result()
    n, nd, b, per, buf = case["n"], case["nd"], case["b"], case["per"], case["buf"]
    full = [(b[0], b[1]), (b[2], b[3])][:nd]
    board = {}          # (layer, side) -> cell -> value, as last synchronised / reported by the owner
    locals_ = {}
    errs = set()
    st = {"synced": 0, "crossed": 0}

    def wrap(c):
        return tuple(m + (x - m) % e for x, (m, e) in zip(c, full))

    def clamp(c):
        return tuple(min(max(x, m), m + e - 1) for x, (m, e) in zip(c, full))

    def cells_of(lb, grow=0):
        rs = []
        for d in range(nd):
            lo, hi = lb[d][0] - grow, lb[d][0] + lb[d][1] + grow
            if not per:
                lo, hi = max(lo, full[d][0]), min(hi, full[d][0] + full[d][1])
            rs.append(range(lo, hi))
        if nd == 1:
            return [(x,) for x in rs[0]]
        return [(x, y) for x in rs[0] for y in rs[1]]

    def program(rank, r4, comm):
        import numpy as np
        import torch
        sp, vlm = r4.space, r4.value_layer
        B = sp.BoundingBox(b[0], b[1], b[2], b[3], 0, 0)
        borders = sp.BorderType.Periodic if per else sp.BorderType.Sticky
        dpt = sp.DiscretePoint

        def pt(c):
            return dpt(c[0], c[1] if nd > 1 else 0, 0)

        if case["d3"]:
            for cls in (vlm.SharedValueLayer, vlm.ReadWriteValueLayer):
                try:
                    cls(comm, sp.BoundingBox(0, 8, 0, 8, 0, 8), borders, 1, 0)
                    raise Fail("C10", "3D accepted", "a 3D shared value layer did not raise")
                except (ValueError, NotImplementedError):
                    pass
        ctx = r4.context.SharedContext(comm)
        torch.manual_seed(rank + 1)
        objs, plain = [], []
        for li, l in enumerate(case["layers"]):
            cls = vlm.ReadWriteValueLayer if l["rw"] else vlm.SharedValueLayer
            init = l["init"] + rank if l.get("each") else l["init"]
            o = cls(comm, B, borders, buf, init, dtype=getattr(torch, l["dt"]))
            ctx.add_value_layer(o)
            objs.append(o)
            plain.append([o.read_layer, o.write_layer] if l["rw"] else [o])
        lb0 = plain[0][0].local_bounds
        lb = [(int(lb0.xmin), int(lb0.xextent)), (int(lb0.ymin), int(lb0.yextent))][:nd]
        locals_[rank] = lb
        own = cells_of(lb)
        ownset = set(own)
        readable = sorted(set(wrap(c) for c in cells_of(lb, buf)) if per else cells_of(lb, buf))
        bufcells = [c for c in readable if c not in ownset]
        # the owner reports what its cells were initialised to
        view = []
        for li, l in enumerate(case["layers"]):
            sides = []
            for si, p in enumerate(plain[li]):
                bd = board.setdefault((li, si), {})
                for c in own:
                    v = num(p.get(pt(c)))
                    init = l["init"] + rank if l.get("each") else l["init"]
                    if init != "random" and v != init:
                        raise Fail("C10", "initial value", "layer %d cell %r is %r, not %r" % (li, c, v, init))
                    if c in bd:
                        raise Fail("C10", "cell owned twice", "layer %d cell %r" % (li, c))
                    bd[c] = v
                sides.append(p)
            view.append(sides)
        comm.Barrier()
        for k, bd in board.items():
            cnt = 1
            for _, e in full:
                cnt *= e
            if len(bd) != cnt:
                raise Fail("C10", "cells not owned", "%d of %d cells" % (len(bd), cnt))
        # this rank's expectation of every readable cell, by layer and storage
        exp = {k: {c: bd[c] for c in readable} for k, bd in board.items()}
        truth = {k: dict(bd) for k, bd in board.items()}      # every rank keeps the global truth itself
        rsel = [0] * len(objs)         # which storage is read
        comm.Barrier()

        def wside(li):
            return (1 - rsel[li]) if case["layers"][li]["rw"] else 0

        def cmp(li, si, c, v, where):
            e = exp[(li, si)][c]
            res.evals += 1
            if not same(e, num(v), case["layers"][li]["dt"]):
                kind = "own cell" if c in ownset else "buffer cell"
                raise Fail("C10", kind, "%s: layer %d cell %r reads %r, expected %r (rank %d, local %r, %s, buffer %d, procs %d)" % (
                    where, li, c, num(v), e, rank, lb, "periodic" if per else "sticky", buf, n))

        def check(where):
            for li, o in enumerate(objs):
                for c in readable:
                    cmp(li, rsel[li], c, o.get(pt(c)), where)
                if case["layers"][li]["rw"]:
                    for si, p in ((rsel[li], o.read_layer), (1 - rsel[li], o.write_layer)):
                        for c in readable:
                            cmp(li, si, c, p.get(pt(c)), where + " (storage %d)" % si)
                # beyond the global border
                for c in own:
                    for d in range(nd):
                        for dx in (-1, 1, -2, 2):
                            q = list(c)
                            q[d] += dx
                            if full[d][0] <= q[d] < full[d][0] + full[d][1]:
                                continue
                            t = wrap(q) if per else clamp(q)
                            if t in exp[(li, 0)]:
                                cmp(li, rsel[li], t, o.get(pt(q)), where + " via %r" % (tuple(q),))
                                res.probe("beyond border")
                neighbours(li, o, where)

        def tensors(where):
            """The grids themselves, buffers included: models compute with them directly."""
            import itertools
            shape, at = [], []
            for d in range(nd):
                lo = buf if per or lb[d][0] > full[d][0] else 0
                hi = buf if per or lb[d][0] + lb[d][1] < full[d][0] + full[d][1] else 0
                shape.append(lb[d][1] + lo + hi)
                at.append(range(lb[d][0] - lo, lb[d][0] + lb[d][1] + hi))
            for li in range(len(objs)):
                for si, p in enumerate(plain[li]):
                    if tuple(p.grid.shape) != tuple(reversed(shape)):
                        raise Fail("C10", "grid shape", "%s: layer %d (storage %d) has shape %r, expected %r" % (where, li, si, tuple(p.grid.shape), shape))
                    g = p.grid.tolist()
                    for c in itertools.product(*at):
                        v = g
                        for d in reversed(range(nd)):
                            v = v[c[d] - at[d][0]]
                        cmp(li, si, wrap(c) if per else c, v, where + " (grid of storage %d)" % si)

        def neighbours(li, o, where):
            rd = set(readable)
            for c in readable:
                want = set()
                offs = [(dx,) for dx in (-1, 0, 1)] if nd == 1 else [(dx, dy) for dx in (-1, 0, 1) for dy in (-1, 0, 1)]
                ok = True
                for of in offs:
                    q = tuple(x + d for x, d in zip(c, of))
                    if per:
                        q = wrap(q)
                        if q not in rd:
                            ok = False
                            break
                    elif q not in rd:
                        continue
                    want.add(q)
                if not ok:
                    continue
                vals, locs = o.get_nghs(pt(c))
                L = np.asarray(locs).reshape(nd, -1)
                got = [tuple(int(x) for x in L[:, i]) for i in range(L.shape[1])]
                res.evals += 1
                small = per and any(e < 3 for _, e in full)
                if set(got) != want or (not small and len(got) != len(want)):
                    raise Fail("C10", "neighbour locations", "%s: neighbours of %r are %r, expected %r" % (where, c, sorted(got), sorted(want)))
                if len(vals) != len(got):
                    raise Fail("C10", "neighbour values", "%s: %d values for %d neighbours" % (where, len(vals), len(got)))
                for q, v in zip(got, vals):
                    cmp(li, rsel[li], q, v, where + " as neighbour of %r" % (c,))

        private = [Private(r4, rank, i, l, res) for i, l in enumerate(case.get("private", []))]
        for p in private:
            p.check("after creation")
        check("after creation")
        tensors("after creation")
        restore = lambda d: None        # noqa
        for oi, op in enumerate(case["ops"]):
            where = "op %d %s" % (oi, op[0])
            if op[0] in ("w", "sync"):
                for p in private:
                    p.write()
                for p in private:
                    p.check(where)
            if op[0] in ("w", "fill"):
                # every rank derives all ranks' writes, to know the truth
                for r in range(n):
                    rng = _random.Random(op[1] * 31 + r)
                    mine = cells_of(locals_[r])
                    todo = []
                    if op[0] == "fill":
                        todo = [(li, c) for li in range(len(objs)) for c in mine]
                    else:
                        lbr = locals_[r]
                        rd = sorted(set(wrap(c) for c in cells_of(lbr, buf)) if per else cells_of(lbr, buf))
                        for _ in range(op[2]):
                            todo.append((rng.randrange(len(objs)), rng.choice(mine if rng.random() < .85 else rd)))
                    ms = set(mine)
                    for j, (li, c) in enumerate(todo):
                        l = case["layers"][li]
                        v = rng.choice([rng.randrange(-1000, 1000), rng.random() * 50]) if l["dt"] == "float64" else rng.randrange(-1000, 1000)
                        si = wside(li)
                        if c in ms:
                            truth[(li, si)][c] = v
                        if r == rank:
                            tgt = c
                            if per and rng.random() < .2 or not per and c in ms and rng.random() < .2:
                                # address the same cell from beyond the border
                                d = rng.randrange(nd)
                                q = list(c)
                                if per:
                                    q[d] += full[d][1] * rng.choice([-1, 1])
                                elif c[d] == full[d][0]:
                                    q[d] -= rng.randrange(1, 3)
                                elif c[d] == full[d][0] + full[d][1] - 1:
                                    q[d] += rng.randrange(1, 3)
                                tgt = tuple(q)
                            objs[li].set(pt(tgt), v)
                            exp[(li, si)][c] = v
                            if j % 4 == 0:
                                replay_cur().yield_point("set")
                        else:
                            # keep the stream aligned with the writer's
                            if per:
                                if rng.random() < .2:
                                    rng.randrange(nd)
                                    rng.choice([-1, 1])
                            elif c in ms and rng.random() < .2:
                                d = rng.randrange(nd)
                                if c[d] == full[d][0] or c[d] == full[d][0] + full[d][1] - 1:
                                    rng.randrange(1, 3)
            elif op[0] == "swap":
                if case["layers"][op[1]]["rw"]:
                    objs[op[1]].swap_layers()
                    rsel[op[1]] = 1 - rsel[op[1]]
                    res.probe("swap")
            else:
                ctx.synchronize(restore, op[1])
                if op[1]:
                    for k in exp:
                        for c in readable:
                            if exp[k][c] != truth[k][c]:
                                st["crossed"] += 1
                            exp[k][c] = truth[k][c]
                    st["synced"] += 1
            check(where)
            if op[0] == "sync" and op[1]:
                tensors(where)

    outcome, sim = run_sim(n, program, case["sched"], res, world=case.get("world"))
    res.nontrivial = n > 1 and st["crossed"] > 0 and st["synced"] > 0
    if res.nontrivial:
        res.probe("buffer values crossed ranks", st["crossed"])
    return res


def same(e, v, dt):
    if dt == "float32":
        return abs(e - v) <= 1e-6 * max(1.0, abs(e))
    return e == v


def shrink(case):
    if case.get("private"):
        for i in range(len(case["private"])):
            yield dict(case, private=case["private"][:i] + case["private"][i + 1:])
    for i in range(len(case["ops"])):
        c = dict(case)
        c["ops"] = case["ops"][:i] + case["ops"][i + 1:]
        yield c
    for i in range(len(case["layers"])):
        if len(case["layers"]) > 1:
            c = dict(case)
            c["layers"] = case["layers"][:i] + case["layers"][i + 1:]
            c["ops"] = [o for o in case["ops"] if o[0] != "swap" or o[1] < len(c["layers"])]
            yield c
    for i, l in enumerate(case["layers"]):
        if l.get("each"):
            yield dict(case, layers=case["layers"][:i] + [dict(l, each=False)] + case["layers"][i + 1:])
    for i, op in enumerate(case["ops"]):
        if op[0] == "w" and op[2] > 1:
            c = dict(case)
            c["ops"] = list(case["ops"])
            c["ops"][i] = ["w", op[1], op[2] // 2]
            yield c
