"""Deterministic simulator kernel.

All MPI ranks of one simulated job live in this process.  Each rank is a thread, but only
one thread ever runs: it is parked at every communication / file operation and released by
the scheduler, whose every choice comes from one seeded PRNG (or from a recorded list of
choices when replaying).  The kernel owns: who runs next, simulated time, when rooted
collectives return, kills (crash of the whole job), and deadlock detection.
"""
import random
import sys
import threading
import hashlib
import collections

CUR = None          # the running Sim
_tls_rank = -1      # current rank (only one thread runs at a time)


def current():
    return CUR


def current_rank():
    return _tls_rank


class SimKilled(BaseException):
    """Raised inside a rank when the simulated job is being torn down (crash / abort)."""


class SimProblem(Exception):
    """An observable misbehaviour found by the transport itself."""

    def __init__(self, kind, detail):
        super().__init__(kind + ": " + detail)
        self.kind = kind
        self.detail = detail


class Decisions:
    """The single source of choices of one run.

    `forced` (a list) is consumed first; afterwards choices come from the PRNG when there
    is one, otherwise from the default policy (0)."""

    def __init__(self, seed=None, forced=None):
        self.rng = random.Random(seed) if seed is not None else None
        self.forced = list(forced) if forced is not None else None
        self.i = 0
        self.log = []

    def choose(self, n, weights=None):
        if n <= 1:
            return 0
        if self.forced is not None and self.i < len(self.forced):
            c = self.forced[self.i] % n
        elif self.rng is not None:
            if weights is None:
                c = self.rng.randrange(n)
            else:
                c = self.rng.choices(range(n), weights)[0]
        else:
            c = 0
        self.i += 1
        self.log.append(c)
        return c


class Rank:
    __slots__ = ("idx", "lock", "thread", "state", "pred", "what", "exc", "result", "mods",
                 "rngs", "clock_off", "ops", "killed", "leak", "handles", "prio", "stall_until")

    def __init__(self, idx):
        self.idx = idx
        self.lock = threading.Lock()
        self.lock.acquire()
        self.thread = None
        self.state = "new"      # new, ready, blocked, done
        self.pred = None
        self.what = ""
        self.exc = None
        self.result = None
        self.mods = None
        self.rngs = None
        self.clock_off = 0.0
        self.ops = 0
        self.killed = False
        self.leak = False
        self.prio = 0
        self.stall_until = 0


class Sim:
    """One simulated execution of an N-rank job."""

    def __init__(self, n, decisions, policy="random", max_steps=200000, kill_at=None,
                 eager=None, clock_off=None, reduce_shuffle=False, stall=None,
                 on_switch=None):
        self.n = n
        self.dec = decisions
        self.policy = policy
        self.max_steps = max_steps
        self.kill_at = kill_at            # (rank, op index): the job is killed there
        self.eager = eager                # None: rooted collectives synchronise; float: prob of early return
        self.reduce_shuffle = reduce_shuffle
        self.stall = stall or {}          # rank -> (from step, length): stalled (slow) rank
        self.on_switch = on_switch
        self.ranks = [Rank(i) for i in range(n)]
        for i, off in enumerate(clock_off or []):
            if i < n:
                self.ranks[i].clock_off = off
        self.main = threading.Lock()
        self.main.acquire()
        self.steps = 0
        self.drain_from = None
        self.time = 1.0e9
        self.tick_dt = 1e-4
        self.problems = []
        self.trace = hashlib.sha256()
        self.events = 0
        self.killed = False
        self.tearing = False
        self.outcome = None
        self.counts = collections.Counter()
        self.handles = {}
        self.next_handle = 1
        self.next_ctx = 1
        self.world = None
        self.running = None

    # ---- called from rank threads -------------------------------------------------
    def now(self, rank):
        return self.time + (self.ranks[rank].clock_off if rank >= 0 else 0.0)

    def note(self, what):
        """Record an event of the schedule (identity of the interleaving)."""
        self.events += 1
        self.trace.update(("%d:%s;" % (_tls_rank, what)).encode())

    def _park(self, r):
        """Give up the processor: pick who runs next and hand over directly."""
        nxt = self._next()
        if nxt is r:
            return
        if nxt is None:
            self.main.release()
        else:
            self._hand(nxt)
        r.lock.acquire()
        if r.killed:
            raise SimKilled()

    def yield_point(self, what="yield"):
        """A point at which the scheduler may switch ranks or crash the job."""
        rk = _tls_rank
        if rk < 0 or threading.current_thread() is not self.ranks[rk].thread:
            return
        r = self.ranks[rk]
        if r.killed:
            raise SimKilled()
        r.ops += 1
        self.note(what)
        if self.kill_at is not None and self.kill_at[0] == rk and r.ops >= self.kill_at[1] and not self.killed:
            self.killed = True
            self.counts["crash"] += 1
            raise SimKilled()
        r.state = "ready"
        self._park(r)
        if self.killed:
            raise SimKilled()

    def block_until(self, pred, what, in_c=False):
        rk = _tls_rank
        r = self.ranks[rk]
        if r.killed:
            raise SimKilled()
        if pred():
            return
        r.state = "blocked"
        r.pred = pred
        r.what = what
        r.leak = in_c
        self._park(r)
        r.leak = False

    def problem(self, kind, detail):
        self.problems.append((kind, detail))
        raise SimProblem(kind, detail)

    # ---- scheduler -----------------------------------------------------------------
    def _body(self, r, fn):
        r.lock.acquire()
        try:
            if r.killed:
                return
            r.result = fn(r.idx)
        except SimKilled:
            r.killed = True
        except BaseException as e:      # noqa
            r.exc = e
        finally:
            r.state = "done"
            nxt = None if self.tearing else self._next()
            if nxt is None:
                self.main.release()
            else:
                self._hand(nxt)

    def _hand(self, r):
        global _tls_rank
        prev = self.running
        if self.on_switch is not None and prev is not r:
            self.on_switch(prev, r)
        self.running = r
        _tls_rank = r.idx
        r.lock.release()

    def _next(self):
        """The next rank to run, or None when the run is over (self.outcome says why)."""
        if self.tearing:
            return None
        ready = []
        alive = False
        exc = False
        for r in self.ranks:
            st = r.state
            if st == "done":
                if r.exc is not None:
                    exc = True
                continue
            alive = True
            if st == "ready":
                ready.append(r)
            elif r.pred is not None and r.pred():
                r.state = "ready"
                ready.append(r)
        if self.killed:
            self.outcome = "killed"
        elif self.problems:
            self.outcome = "problem"
        elif exc and not self._drain(ready):
            self.outcome = "exception"
        elif not alive:
            self.outcome = "done"
        elif not ready:
            self.outcome = "deadlock"
        else:
            self.steps += 1
            if self.steps > self.max_steps:
                self.outcome = "livelock"
            else:
                self.time += self.tick_dt
                return self._pick(ready)
        return None

    def _drain(self, ready):
        """After an exception on one rank the others run on until they need it, so that
        each can still report what it sees; library exceptions then are not counted."""
        if self.drain_from is None:
            self.drain_from = self.steps
        return bool(ready) and self.steps - self.drain_from < 3000

    def _pick(self, ready):
        if len(ready) == 1:
            return ready[0]
        st = self.stall
        if st:
            cand = [r for r in ready if not (r.idx in st and st[r.idx][0] <= self.steps < st[r.idx][0] + st[r.idx][1])]
            if cand and len(cand) < len(ready):
                self.counts["stall"] += 1
                ready = cand
        p = self.policy
        if p == "random":
            return ready[self.dec.choose(len(ready))]
        if p == "low":
            return ready[0]
        if p == "high":
            return ready[-1]
        if p == "sticky":       # keep running the same rank with high probability
            if self.running in ready and self.dec.choose(8) != 0:
                return self.running
            return ready[self.dec.choose(len(ready))]
        if p == "prio":         # PCT-like: random priorities with occasional change points
            if self.dec.choose(16) == 1:
                ready[self.dec.choose(len(ready))].prio = -self.steps
            return max(ready, key=lambda r: (r.prio, -r.idx))
        return ready[0]

    def run(self, fn):
        """Run fn(rank) on every rank until all finish, deadlock, crash or a problem."""
        global CUR, _tls_rank
        CUR = self
        if self.policy == "prio":
            order = list(range(self.n))
            for i in range(self.n):
                j = i + self.dec.choose(self.n - i)
                order[i], order[j] = order[j], order[i]
                self.ranks[i].prio = order[i]
        for r in self.ranks:
            r.thread = threading.Thread(target=self._body, args=(r, fn), daemon=True)
            r.state = "ready"
            r.thread.start()
        first = self._next()
        if first is not None:
            self._hand(first)
            self.main.acquire()
        _tls_rank = -1
        outcome = self.outcome
        if outcome == "deadlock":
            self.problems.append(("deadlock", "; ".join(
                "rank %d %s" % (r.idx, "finished" if r.state == "done" else "waits in " + r.what) for r in self.ranks)))
        elif outcome == "livelock":
            self.problems.append(("no progress", "more than %d scheduler steps" % self.max_steps))
        elif outcome == "exception":
            # exceptions of individual ranks: in real MPI the job aborts
            pass
        self._teardown()
        CUR = None
        _tls_rank = -1
        return outcome

    def _teardown(self):
        global _tls_rank
        self.tearing = True
        for r in self.ranks:
            if r.state in ("ready", "blocked"):
                if r.leak:
                    continue        # parked below C frames: cannot be unwound, stays parked
                r.killed = True
                self._hand(r)
                self.main.acquire()
                _tls_rank = -1
        for r in self.ranks:
            if r.state == "done":
                r.thread.join()

    def digest(self):
        return self.trace.hexdigest()[:16]
