"""Fake mpi4py.MPI: the transport seam of the deterministic simulator.

Semantics follow the MPI standard and mpi4py: collectives match by call order per
communicator, lower-case methods move pickled copies, upper-case methods move typed
buffers.  What the standard leaves open is decided by the simulator: who runs when,
whether a rooted collective returns early on non-root ranks, and the order in which
reductions combine contributions.
"""
import pickle
import operator
import numpy as _np

from r4psim import kernel as _k

_PROTO = pickle.HIGHEST_PROTOCOL


class Exception(RuntimeError):      # noqa: mirrors mpi4py.MPI.Exception
    def Get_error_code(self):
        return 16


# --- datatypes and operations ---------------------------------------------------------
class Datatype:
    def __init__(self, name, np_dtype):
        self.name = name
        self.np = _np.dtype(np_dtype)

    def Get_size(self):
        return self.np.itemsize

    @property
    def size(self):
        return self.np.itemsize

    def Get_name(self):
        return self.name

    def tocode(self):
        return self.np.char


BYTE = Datatype("MPI_BYTE", "u1")
CHAR = Datatype("MPI_CHAR", "i1")
SHORT = Datatype("MPI_SHORT", "i2")
INT = INT32_T = INTEGER = Datatype("MPI_INT", "i4")
UNSIGNED = UINT32_T = Datatype("MPI_UNSIGNED", "u4")
LONG = Datatype("MPI_LONG", "i8")
LONG_LONG = INT64_T = Datatype("MPI_LONG_LONG", "i8")
UNSIGNED_LONG = UINT64_T = Datatype("MPI_UNSIGNED_LONG", "u8")
FLOAT = REAL = Datatype("MPI_FLOAT", "f4")
DOUBLE = DOUBLE_PRECISION = Datatype("MPI_DOUBLE", "f8")
C_BOOL = BOOL = Datatype("MPI_C_BOOL", "?")
_typedict = {d.np.char: d for d in (BYTE, CHAR, SHORT, INT, UNSIGNED, LONG, UNSIGNED_LONG, FLOAT, DOUBLE, C_BOOL)}


class Op:
    def __init__(self, name, obj, arr, commute=True):
        self.name = name
        self._obj = obj
        self._arr = arr
        self.is_commutative = commute

    def Is_commutative(self):
        return self.is_commutative

    def __call__(self, a, b):
        return self._obj(a, b)

    @classmethod
    def Create(cls, function, commute=False):
        return cls("user", lambda a, b: function(a, b, None), None, commute)

    def Free(self):
        pass


def _minloc(a, b):
    if a[0] < b[0]:
        return a
    if b[0] < a[0]:
        return b
    return (a[0], min(a[1], b[1]))


def _maxloc(a, b):
    if a[0] > b[0]:
        return a
    if b[0] > a[0]:
        return b
    return (a[0], min(a[1], b[1]))


SUM = Op("MPI_SUM", operator.add, _np.add)
PROD = Op("MPI_PROD", operator.mul, _np.multiply)
MAX = Op("MPI_MAX", lambda a, b: b if b > a else a, _np.maximum)
MIN = Op("MPI_MIN", lambda a, b: b if b < a else a, _np.minimum)
LAND = Op("MPI_LAND", lambda a, b: bool(a) and bool(b), _np.logical_and)
LOR = Op("MPI_LOR", lambda a, b: bool(a) or bool(b), _np.logical_or)
LXOR = Op("MPI_LXOR", lambda a, b: bool(a) != bool(b), _np.logical_xor)
BAND = Op("MPI_BAND", operator.and_, _np.bitwise_and)
BOR = Op("MPI_BOR", operator.or_, _np.bitwise_or)
BXOR = Op("MPI_BXOR", operator.xor, _np.bitwise_xor)
MINLOC = Op("MPI_MINLOC", _minloc, None)
MAXLOC = Op("MPI_MAXLOC", _maxloc, None)

ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
UNDEFINED = -32766
ROOT = -3
SUCCESS = 0
IDENT, CONGRUENT, SIMILAR, UNEQUAL = 0, 1, 2, 3
THREAD_SINGLE, THREAD_FUNNELED, THREAD_SERIALIZED, THREAD_MULTIPLE = 0, 1, 2, 3


class _InPlace(int):
    pass


IN_PLACE = _InPlace(-1)
BOTTOM = None


class Status:
    def __init__(self):
        self.source = -1
        self.tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Info:
    pass


INFO_NULL = Info()


def _copy(o):
    return pickle.dumps(o, _PROTO)


def _load(b):
    return pickle.loads(b)


# --- buffers --------------------------------------------------------------------------
def _as_array(buf, writable):
    if hasattr(buf, "numpy") and hasattr(buf, "is_contiguous"):     # torch tensor
        if not buf.is_contiguous():
            raise BufferError("tensor: strides are not row-contiguous")
        a = buf.detach().numpy()
    elif isinstance(buf, _np.ndarray):
        a = buf
    else:
        a = _np.frombuffer(buf, dtype="u1") if not hasattr(buf, "__array_interface__") else _np.asarray(buf)
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise ValueError("ndarray is not contiguous")
    if writable and not a.flags.writeable:
        raise BufferError("Object is not writable.")
    return a.reshape(-1, order="A") if a.ndim != 1 else a


def _np_of(dt):
    if isinstance(dt, Datatype):
        return dt.np
    return _np.dtype(dt)


def _simple(spec, writable=False):
    """buffer spec -> flat numpy view."""
    if spec is None:
        return _np.empty(0)
    dt = None
    count = None
    buf = spec
    if isinstance(spec, (list, tuple)):
        buf = spec[0]
        for x in spec[1:]:
            if isinstance(x, (Datatype, str)):
                dt = x
            elif x is not None:
                count = x
    a = _as_array(buf, writable)
    if dt is not None and _np_of(dt) != a.dtype:
        a = a.view(_np_of(dt))
    if count is not None:
        if isinstance(count, (tuple, list)):
            count = count[0]
        a = a[:int(count)]
    return a


def _vector(spec, size, writable=False):
    """[buf, counts, displs, type] variants -> (flat view, counts, displs)."""
    buf, counts, displs, dt = spec, None, None, None
    if isinstance(spec, (list, tuple)):
        buf = spec[0]
        rest = list(spec[1:])
        if rest and isinstance(rest[-1], (Datatype, str)):
            dt = rest.pop()
        if rest:
            counts = rest[0]
            if isinstance(counts, (list, tuple)) and len(counts) == 2 and not all(_is_int(c) for c in counts):
                counts, displs = counts
            elif len(rest) > 1:
                displs = rest[1]
    a = _as_array(buf, writable)
    if dt is not None and _np_of(dt) != a.dtype:
        a = a.view(_np_of(dt))
    if counts is None:
        counts = [a.size // size] * size
    elif _is_int(counts):
        counts = [int(counts)] * size
    counts = [int(c) for c in counts]
    if displs is None:
        displs = [0] * size
        for i in range(1, size):
            displs[i] = displs[i - 1] + counts[i - 1]
    displs = [int(d) for d in displs]
    return a, counts, displs


def _is_int(x):
    return isinstance(x, (int, _np.integer)) and not isinstance(x, bool)


def _put(view, start, n, raw, dtype):
    data = _np.frombuffer(raw, dtype=dtype)
    nbytes = data.nbytes
    if nbytes > n * view.dtype.itemsize:
        raise Exception("MPI_ERR_TRUNCATE: message truncated")
    if data.dtype != view.dtype:
        data = _np.frombuffer(raw, dtype=view.dtype)
    if start < 0 or start + data.size > view.size:
        raise Exception("MPI_ERR_BUFFER: receive overruns buffer")
    view[start:start + data.size] = data


# --- communicators --------------------------------------------------------------------
class _Slot:
    __slots__ = ("kind", "root", "arrived", "data", "done", "order", "shared")

    def __init__(self, kind, root):
        self.kind = kind
        self.root = root
        self.arrived = set()
        self.data = {}
        self.done = 0
        self.order = None
        self.shared = None


class _Ctx:
    """State of one communicator shared by its ranks."""

    def __init__(self, sim, group):
        self.sim = sim
        self.id = sim.next_ctx
        sim.next_ctx += 1
        self.group = list(group)        # world ranks
        self.slots = {}
        self.seq = [0] * len(self.group)
        self.handles = {}
        self.objs = {}
        self.mail = {}                  # (src, dst) -> list of (tag, payload)
        self.cart = None                # (dims, periods)
        self.next_dup = 0

    def comm_for(self, rank, cls=None):
        c = self.objs.get(rank)
        if c is None:
            if cls is None:
                cls = Cartcomm if self.cart is not None else Intracomm
            c = object.__new__(cls)
            c._ctx = self
            c._rank = rank
            c._handle = self.sim.next_handle
            self.sim.next_handle += 1
            self.sim.handles[c._handle] = c
            self.objs[rank] = c
        return c


class Request:
    def __init__(self, poll, finish):
        self._poll = poll
        self._finish = finish
        self._done = False
        self._val = None

    def wait(self, status=None):
        if not self._done:
            _k.current().yield_point("wait")
            _k.current().block_until(self._poll, "wait")
            self._val = self._finish()
            self._done = True
        return self._val

    def test(self, status=None):
        if not self._done:
            _k.current().yield_point("test")
            if not self._poll():
                return (False, None)
            self._val = self._finish()
            self._done = True
        return (True, self._val)

    def Wait(self, status=None):
        self.wait()
        return True

    def Test(self, status=None):
        return self.test()[0]

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    @staticmethod
    def Waitall(reqs, statuses=None):
        for r in reqs:
            r.wait()
        return True


class Comm:
    _in_c = False

    def __init__(self, comm=None):
        self._ctx = comm._ctx
        self._rank = comm._rank
        self._handle = comm._handle

    def __eq__(self, other):
        return isinstance(other, Comm) and self._ctx is other._ctx and self._rank == other._rank

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return self._handle

    def __reduce__(self):
        raise TypeError("cannot pickle communicator")

    # basic
    @property
    def rank(self):
        return self._rank

    @property
    def size(self):
        return len(self._ctx.group)

    @property
    def name(self):
        return "sim-comm-%d" % self._ctx.id

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return len(self._ctx.group)

    def Get_name(self):
        return self.name

    def Free(self):
        pass

    def Is_inter(self):
        return False

    def Abort(self, errorcode=0):
        self._ctx.sim.problem("MPI_Abort", "rank %d called Abort(%s)" % (self._rank, errorcode))

    @staticmethod
    def Compare(a, b):
        return IDENT if a == b else (CONGRUENT if a._ctx.group == b._ctx.group else UNEQUAL)

    # the collective engine
    def _coll(self, kind, root, payload, finish, need="all", shared=None):
        ctx, sim, me = self._ctx, self._ctx.sim, self._rank
        in_c = self._in_c
        if not in_c:
            sim.yield_point("c%d.%s" % (ctx.id, kind))
        else:
            sim.note("c%d.%s" % (ctx.id, kind))
        k = ctx.seq[me]
        ctx.seq[me] += 1
        slot = ctx.slots.get(k)
        if slot is None:
            slot = ctx.slots[k] = _Slot(kind, root)
        elif (slot.kind, slot.root) != (kind, root):
            sim.problem("collective mismatch", "collective #%d on communicator %d: rank %d calls %s(root=%s) while "
                        "another rank is in %s(root=%s)" % (k, ctx.id, me, kind, root, slot.kind, slot.root))
        slot.data[me] = payload
        slot.arrived.add(me)
        sim.counts["collective"] += 1
        n = len(ctx.group)
        pred = None
        if need == "all":
            pred = lambda: len(slot.arrived) == n       # noqa
        elif need == "root":        # bcast / scatter: data flows from root
            if me == root:
                pred = None if self._early(sim) else (lambda: len(slot.arrived) == n)
            else:
                pred = (lambda: root in slot.arrived) if self._early(sim) else (lambda: len(slot.arrived) == n)
        elif need == "toroot":      # gather / reduce: data flows to root
            if me != root and self._early(sim):
                pred = None
            else:
                pred = lambda: len(slot.arrived) == n   # noqa
        if pred is not None:
            sim.block_until(pred, "%s on communicator %d" % (kind, ctx.id), in_c)
        if shared is not None and slot.shared is None and len(slot.arrived) == n:
            slot.shared = shared(slot)
        res = finish(slot)
        slot.done += 1
        if slot.done == n:
            ctx.slots.pop(k, None)
        return res

    def _early(self, sim):
        if sim.eager is None or self._in_c:
            return False
        if sim.dec.choose(2) == 1:
            sim.counts["early_return"] += 1
            return True
        return False

    def _order(self, slot):
        n = len(self._ctx.group)
        if slot.order is None:
            order = list(range(n))
            sim = self._ctx.sim
            if sim.reduce_shuffle and n > 1:
                for i in range(n):
                    j = i + sim.dec.choose(n - i)
                    order[i], order[j] = order[j], order[i]
                sim.counts["reduce_reorder"] += 1
            slot.order = order
        return slot.order

    # lower-case (pickled)
    def Barrier(self):
        self._coll("barrier", None, None, lambda s: None)

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        p = _copy(obj) if self._rank == root else None
        if self._rank == root:
            self._coll("bcast", root, p, lambda s: None, "root")
            return obj
        return self._coll("bcast", root, p, lambda s: _load(s.data[root]), "root")

    def gather(self, sendobj, root=0):
        n = self.size

        def fin(s):
            if self._rank != root:
                return None
            return [_load(s.data[i]) for i in range(n)]
        return self._coll("gather", root, _copy(sendobj), fin, "toroot")

    def scatter(self, sendobj=None, root=0):
        n = self.size
        p = None
        if self._rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != n:
                raise ValueError("expecting %d items, got %d" % (n, len(sendobj)))
            p = [_copy(o) for o in sendobj]
        return self._coll("scatter", root, p, lambda s: _load(s.data[root][self._rank]), "root")

    def allgather(self, sendobj):
        n = self.size
        return self._coll("allgather", None, _copy(sendobj), lambda s: [_load(s.data[i]) for i in range(n)])

    def alltoall(self, sendobj):
        n = self.size
        sendobj = list(sendobj)
        if len(sendobj) != n:
            raise ValueError("expecting %d items, got %d" % (n, len(sendobj)))
        p = [_copy(o) for o in sendobj]
        return self._coll("alltoall", None, p, lambda s: [_load(s.data[i][self._rank]) for i in range(n)])

    def _red(self, slot, op, upto=None):
        order = list(range(upto)) if upto is not None else (self._order(slot) if op.is_commutative else list(range(self.size)))
        vals = [_load(slot.data[i]) for i in order]
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def reduce(self, sendobj, op=SUM, root=0):
        return self._coll("reduce:" + op.name, root, _copy(sendobj),
                          lambda s: self._red(s, op) if self._rank == root else None, "toroot")

    def allreduce(self, sendobj, op=SUM):
        return self._coll("allreduce:" + op.name, None, _copy(sendobj), lambda s: self._red(s, op))

    def scan(self, sendobj, op=SUM):
        return self._coll("scan:" + op.name, None, _copy(sendobj), lambda s: self._red(s, op, self._rank + 1))

    def exscan(self, sendobj, op=SUM):
        return self._coll("exscan:" + op.name, None, _copy(sendobj),
                          lambda s: self._red(s, op, self._rank) if self._rank else None)

    # point to point
    def _post(self, dest, tag, payload):
        if dest == PROC_NULL:
            return
        if not 0 <= dest < self.size:
            raise Exception("MPI_ERR_RANK: invalid rank")
        self._ctx.mail.setdefault((self._rank, dest), []).append((tag, payload))
        self._ctx.sim.counts["message"] += 1

    def _find(self, source, tag):
        srcs = range(self.size) if source == ANY_SOURCE else [source]
        found = []
        for s in srcs:
            for i, (t, p) in enumerate(self._ctx.mail.get((s, self._rank), ())):
                if tag == ANY_TAG or t == tag:
                    found.append((s, i))
                    break
        return found

    def _take(self, source, tag, status=None):
        found = self._find(source, tag)
        s, i = found[self._ctx.sim.dec.choose(len(found))]
        t, p = self._ctx.mail[(s, self._rank)].pop(i)
        if status is not None:
            status.source, status.tag = s, t
        return p

    def send(self, obj, dest, tag=0):
        self._ctx.sim.yield_point("send")
        self._post(dest, tag, _copy(obj))

    ssend = bsend = send

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return Request(lambda: True, lambda: None)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        sim = self._ctx.sim
        sim.yield_point("recv")
        sim.block_until(lambda: bool(self._find(source, tag)), "recv from %s" % source)
        return _load(self._take(source, tag, status))

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: bool(self._find(source, tag)), lambda: _load(self._take(source, tag)))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.send(sendobj, dest, sendtag)
        return self.recv(None, source, recvtag, status)

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._ctx.sim.yield_point("iprobe")
        return bool(self._find(source, tag))

    def Send(self, buf, dest, tag=0):
        self._ctx.sim.yield_point("Send")
        self._post(dest, tag, _simple(buf).tobytes())

    def Isend(self, buf, dest, tag=0):
        self.Send(buf, dest, tag)
        return Request(lambda: True, lambda: None)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        sim = self._ctx.sim
        sim.yield_point("Recv")
        sim.block_until(lambda: bool(self._find(source, tag)), "Recv from %s" % source)
        v = _simple(buf, True)
        _put(v, 0, v.size, self._take(source, tag, status), v.dtype)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        def fin():
            v = _simple(buf, True)
            _put(v, 0, v.size, self._take(source, tag), v.dtype)
        return Request(lambda: bool(self._find(source, tag)), fin)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.Send(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag, status)

    # buffers
    def Bcast(self, buf, root=0):
        v = _simple(buf, self._rank != root)
        p = v.tobytes() if self._rank == root else None

        def fin(s):
            if self._rank != root:
                _put(v, 0, v.size, s.data[root], v.dtype)
        self._coll("Bcast", root, p, fin, "root")

    def Allgather(self, sendbuf, recvbuf):
        n = self.size
        r = _simple(recvbuf, True)
        blk = r.size // n
        if sendbuf is IN_PLACE:
            p = r[self._rank * blk:(self._rank + 1) * blk].tobytes()
        else:
            p = _simple(sendbuf).tobytes()

        def fin(s):
            for i in range(n):
                _put(r, i * blk, blk, s.data[i], r.dtype)
        self._coll("Allgather", None, p, fin)

    def Allgatherv(self, sendbuf, recvbuf):
        n = self.size
        r, counts, displs = _vector(recvbuf, n, True)
        p = _simple(sendbuf).tobytes()

        def fin(s):
            for i in range(n):
                _put(r, displs[i], counts[i], s.data[i], r.dtype)
        self._coll("Allgatherv", None, p, fin)

    def Gather(self, sendbuf, recvbuf, root=0):
        n = self.size
        p = _simple(sendbuf).tobytes()

        def fin(s):
            if self._rank == root:
                r = _simple(recvbuf, True)
                blk = r.size // n
                for i in range(n):
                    _put(r, i * blk, blk, s.data[i], r.dtype)
        self._coll("Gather", root, p, fin, "toroot")

    def Gatherv(self, sendbuf, recvbuf, root=0):
        n = self.size
        p = _simple(sendbuf).tobytes()

        def fin(s):
            if self._rank == root:
                r, counts, displs = _vector(recvbuf, n, True)
                for i in range(n):
                    _put(r, displs[i], counts[i], s.data[i], r.dtype)
        self._coll("Gatherv", root, p, fin, "toroot")

    def Scatter(self, sendbuf, recvbuf, root=0):
        n = self.size
        p = None
        if self._rank == root:
            v = _simple(sendbuf)
            blk = v.size // n
            p = [v[i * blk:(i + 1) * blk].tobytes() for i in range(n)]

        def fin(s):
            if recvbuf is not IN_PLACE:
                r = _simple(recvbuf, True)
                _put(r, 0, r.size, s.data[root][self._rank], r.dtype)
        self._coll("Scatter", root, p, fin, "root")

    def Scatterv(self, sendbuf, recvbuf, root=0):
        n = self.size
        p = None
        if self._rank == root:
            v, counts, displs = _vector(sendbuf, n)
            p = [v[displs[i]:displs[i] + counts[i]].tobytes() for i in range(n)]

        def fin(s):
            r = _simple(recvbuf, True)
            _put(r, 0, r.size, s.data[root][self._rank], r.dtype)
        self._coll("Scatterv", root, p, fin, "root")

    def Alltoall(self, sendbuf, recvbuf):
        n = self.size
        r = _simple(recvbuf, True)
        v = r.copy() if sendbuf is IN_PLACE else _simple(sendbuf)
        if v.size % n or r.size % n:
            raise ValueError("message: buffer of %d / %d items for %d processes" % (v.size, r.size, n))
        sb, rb = v.size // n, r.size // n
        p = [v[i * sb:(i + 1) * sb].tobytes() for i in range(n)]

        def fin(s):
            for i in range(n):
                _put(r, i * rb, rb, s.data[i][self._rank], r.dtype)
        self._coll("Alltoall", None, p, fin)

    def Alltoallv(self, sendbuf, recvbuf):
        n = self.size
        v, sc, sd = _vector(sendbuf, n)
        r, rc_, rd = _vector(recvbuf, n, True)
        for i in range(n):
            if sc[i] and (sd[i] < 0 or sd[i] + sc[i] > v.size):
                raise Exception("MPI_ERR_BUFFER: send overruns buffer")
        p = [v[sd[i]:sd[i] + sc[i]].tobytes() for i in range(n)]

        def fin(s):
            for i in range(n):
                _put(r, rd[i], rc_[i], s.data[i][self._rank], r.dtype)
        self._coll("Alltoallv", None, p, fin)

    def _Red(self, slot, op, dtype, upto=None):
        order = list(range(upto)) if upto is not None else (self._order(slot) if op.is_commutative else list(range(self.size)))
        sizes = {len(slot.data[i]) for i in range(self.size)}
        if len(sizes) > 1:
            raise Exception("MPI_ERR_COUNT: ranks passed different counts to a reduction: %s" % sorted(sizes))
        acc = _np.frombuffer(slot.data[order[0]], dtype=dtype).copy()
        for i in order[1:]:
            acc = op._arr(acc, _np.frombuffer(slot.data[i], dtype=dtype)).astype(dtype)
        return acc

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        if sendbuf is IN_PLACE:
            v = _simple(recvbuf)
        else:
            v = _simple(sendbuf)
        dtype = v.dtype

        def fin(s):
            if self._rank == root:
                r = _simple(recvbuf, True)
                acc = self._Red(s, op, dtype)
                _put(r, 0, r.size, acc.tobytes(), dtype)
        self._coll("Reduce:" + op.name, root, v.tobytes(), fin, "toroot")

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        r = _simple(recvbuf, True)
        v = r.copy() if sendbuf is IN_PLACE else _simple(sendbuf)
        dtype = v.dtype
        self._coll("Allreduce:" + op.name, None, v.tobytes(),
                   lambda s: _put(r, 0, r.size, self._Red(s, op, dtype).tobytes(), dtype))

    # communicator management
    def _derive(self, kind, key, make):
        """Collective creation of new contexts; make(slot) -> {rank: (ctx, newrank)}."""
        def fin(s):
            m = s.shared.get(self._rank)
            return None if m is None else m[0].comm_for(m[1])
        return self._coll(kind, None, key, fin, shared=make)

    def Dup(self, info=None):
        def make(s):
            c = _Ctx(self._ctx.sim, self._ctx.group)
            c.cart = self._ctx.cart
            return {i: (c, i) for i in range(len(self._ctx.group))}
        return self._derive("Dup", None, make)

    Clone = Dup
    dup = Dup

    def Split(self, color=0, key=0):
        def make(s):
            out = {}
            by = {}
            for i in range(len(self._ctx.group)):
                c, kk = s.data[i]
                if c is None or c == UNDEFINED:
                    continue
                by.setdefault(c, []).append((kk, i))
            for c, lst in sorted(by.items()):
                lst.sort()
                ctx = _Ctx(self._ctx.sim, [self._ctx.group[i] for _, i in lst])
                for nr, (_, i) in enumerate(lst):
                    out[i] = (ctx, nr)
            return out
        r = self._derive("Split", (color, key), make)
        return COMM_NULL if r is None else r

    def Get_group(self):
        raise NotImplementedError("groups are not simulated")


class Intracomm(Comm):
    def Create_cart(self, dims, periods=None, reorder=False):
        if _is_int(dims):
            dims = [dims]
        dims = tuple(int(d) for d in dims)
        if periods is None or isinstance(periods, bool):
            periods = [bool(periods)] * len(dims)
        periods = tuple(int(bool(p)) for p in periods)

        def make(s):
            n = 1
            for d in dims:
                n *= d
            for i in range(len(self._ctx.group)):
                if s.data[i] != (dims, periods):
                    self._ctx.sim.problem("collective mismatch", "Cart_create arguments differ between ranks")
            if n > len(self._ctx.group):
                raise Exception("MPI_ERR_DIMS: topology larger than communicator")
            c = _Ctx(self._ctx.sim, self._ctx.group[:n])
            c.cart = (dims, periods)
            return {i: (c, i) for i in range(n)}
        r = self._derive("Cart_create", (dims, periods), make)
        return COMM_NULL if r is None else r


class Topocomm(Intracomm):
    pass


class Cartcomm(Topocomm):
    @property
    def dims(self):
        return list(self._ctx.cart[0])

    @property
    def periods(self):
        return list(self._ctx.cart[1])

    @property
    def ndim(self):
        return len(self._ctx.cart[0])

    dim = ndim

    @property
    def coords(self):
        return self.Get_coords(self._rank)

    @property
    def topo(self):
        return (self.dims, self.periods, self.coords)

    def Get_topo(self):
        return self.topo

    def Get_dim(self):
        return len(self._ctx.cart[0])

    def Get_coords(self, rank):
        if not 0 <= rank < self.size:
            raise Exception("MPI_ERR_RANK")
        out = []
        for d in reversed(self._ctx.cart[0]):
            out.append(rank % d)
            rank //= d
        return list(reversed(out))

    def Get_cart_rank(self, coords):
        r = 0
        for c, d, p in zip(coords, *self._ctx.cart):
            if p:
                c %= d
            elif not 0 <= c < d:
                raise Exception("MPI_ERR_ARG: coordinate out of range in non periodic dimension")
            r = r * d + c
        return r

    def Shift(self, direction, disp):
        co = self.Get_coords(self._rank)

        def at(k):
            c = list(co)
            c[direction] += k
            try:
                return self.Get_cart_rank(c)
            except Exception:
                return PROC_NULL
        return (at(-disp), at(disp))


COMM_NULL = object.__new__(Intracomm)
COMM_NULL._ctx = None
COMM_NULL._rank = -1
COMM_NULL._handle = 0


def Compute_dims(nnodes, dims):
    """MPI_Dims_create: balanced, non-increasing factorisation."""
    if _is_int(dims):
        dims = [0] * dims
    dims = list(dims)
    free = [i for i, d in enumerate(dims) if d == 0]
    rem = nnodes
    for d in dims:
        if d:
            if rem % d:
                raise Exception("MPI_ERR_DIMS")
            rem //= d
    if not free:
        if rem != 1:
            raise Exception("MPI_ERR_DIMS")
        return dims
    best = None

    def rec(n, k, cap):
        if k == 1:
            if n <= cap:
                yield (n,)
            return
        for f in range(min(n, cap), 0, -1):
            if n % f == 0:
                for rest in rec(n // f, k - 1, f):
                    yield (f,) + rest
    for c in rec(rem, len(free), rem):
        # "as close to each other as possible"
        if best is None or (c[0] - c[-1], c) < (best[0] - best[-1], best):
            best = c
    for i, f in zip(free, best):
        dims[i] = f
    return dims


# --- module-level names that depend on the current rank -----------------------------------
def __getattr__(name):
    if name == "COMM_WORLD":
        sim = _k.current()
        return sim.world.comm_for(_k.current_rank())
    if name == "COMM_SELF":
        sim = _k.current()
        r = _k.current_rank()
        key = "self%d" % r
        c = sim.__dict__.setdefault("_selfs", {}).get(key)
        if c is None:
            c = sim._selfs[key] = _Ctx(sim, [r])
        return c.comm_for(0)
    raise AttributeError("module 'mpi4py.MPI' has no attribute %r" % name)


def make_world(sim):
    sim.world = _Ctx(sim, range(sim.n))


def Wtime():
    sim = _k.current()
    return sim.now(_k.current_rank())


def Wtick():
    return 1e-6


def Is_initialized():
    return True


def Is_finalized():
    return False


def Init():
    pass


def Init_thread(required=THREAD_MULTIPLE):
    return THREAD_MULTIPLE


def Finalize():
    pass


def Query_thread():
    return THREAD_MULTIPLE


def Get_processor_name():
    return "sim"


def Get_version():
    return (4, 1)


# --- entry points used by the fake C library ----------------------------------------------
class _CView:
    """The same communicator as seen from C: blocking without yielding first, so that no
    crash is injected below C frames."""


def _c(handle):
    return _k.current().handles[handle]


class _in_c:
    def __init__(self, comm):
        self.c = comm

    def __enter__(self):
        self.c._in_c = True
        return self.c

    def __exit__(self, *a):
        self.c._in_c = False


def _c_world(a, b):
    return __getattr__("COMM_WORLD")._handle


def _c_self(a, b):
    return __getattr__("COMM_SELF")._handle


def _c_size(h, b):
    return _c(h).size


def _c_rank(h, b):
    return _c(h).rank


def _c_free(h):
    return None


def _c_wrap(h):
    return _c(h)


def _c_dup(h, b):
    with _in_c(_c(h)) as c:
        return c.Dup()._handle


def _c_split(h, color, key):
    with _in_c(_c(h)) as c:
        return c.Split(color, key)._handle


def _c_compare(a, b):
    return Comm.Compare(_c(a), _c(b))


def _c_dims(n, dims):
    return tuple(Compute_dims(n, list(dims)))


def _c_cart_create(h, dims, periods):
    with _in_c(_c(h)) as c:
        return c.Create_cart(dims, periods)._handle


def _c_cart_coords(h, rank):
    return tuple(_c(h).Get_coords(rank))


def _c_cart_dims(h):
    return tuple(_c(h).dims)


def _c_cart_periods(h):
    return tuple(_c(h).periods)


def _c_cart_rank(h, coords):
    return _c(h).Get_cart_rank(list(coords))


def _c_cart_shift(h, d, disp):
    return tuple(_c(h).Shift(d, disp))


def _c_barrier(h):
    with _in_c(_c(h)) as c:
        c.Barrier()


def _c_bcast(h, root, data):
    with _in_c(_c(h)) as c:
        r = c._coll("C.bcast", root, data, lambda s: s.data[root], "root")
        return r


def _c_allgather(h, data):
    with _in_c(_c(h)) as c:
        n = c.size
        return c._coll("C.allgather", None, data, lambda s: b"".join(s.data[i] for i in range(n)))


def _c_gather(h, root, data):
    with _in_c(_c(h)) as c:
        n = c.size
        return c._coll("C.gather", root, data,
                       lambda s: b"".join(s.data[i] for i in range(n)) if c.rank == root else b"", "toroot")


def _c_alltoall(h, data):
    with _in_c(_c(h)) as c:
        n = c.size
        blk = len(data) // n
        me = c.rank
        return c._coll("C.alltoall", None, data,
                       lambda s: b"".join(s.data[i][me * blk:(me + 1) * blk] for i in range(n)))


_CDT = {1: "u1", 2: "i1", 3: "i4", 4: "i8", 5: "i8", 6: "f4", 7: "f8", 8: "u4", 9: "u8", 10: "i2", 11: "u8"}
_COP = {1: MAX, 2: MIN, 3: SUM, 4: PROD, 5: LAND, 6: LOR}


def _c_allreduce(h, dt, op, data):
    with _in_c(_c(h)) as c:
        dtype = _np.dtype(_CDT[dt])
        return c._coll("C.allreduce", None, data, lambda s: c._Red(s, _COP[op], dtype).tobytes())
