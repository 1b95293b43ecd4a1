"""Deterministic scheduler: choice source, simulated threads, simulated time.

Simulated threads are real threads parked on a baton: exactly one runs at any
time, and at every scheduling point the Decider says who runs next.  One
integer (the decider's seed) plus the scenario therefore fixes the execution,
and the recorded list of choices replays it.
"""
import random
import sys
import threading
from collections import Counter

import numpy as np

REPO_PREFIX = "/repo/stochopy/"  # set by loader


class SimAbort(BaseException):
    """Unwinds simulated threads when a run is being torn down."""


class SimLimit(BaseException):
    """A run exceeded its evaluation or step budget."""


class Decider:
    """Source of every scheduling, timing and fault choice of a run."""

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.choices = []

    def choose(self, n):
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            v = v % n
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.choices.append(v)
        return v

    def coin(self, num, den):
        """True with probability num/den; choice 0 means False."""
        return self.choose(den) >= den - num

    def pick(self, seq):
        return seq[self.choose(len(seq))]


class SimThread:
    __slots__ = (
        "id", "name", "proc", "baton", "done", "pred", "wake", "what", "fn", "sim",
        "os", "exc", "lines_left", "daemon", "traced", "fault_armed", "started",
        "block_fault", "killed", "task_seq", "rank", "user", "mods",
    )

    def __init__(self, sim, id, name, proc, fn, daemon):
        self.sim, self.id, self.name, self.proc, self.fn = sim, id, name, proc, fn
        self.baton = threading.Lock()
        self.baton.acquire()
        self.done = False
        self.pred = None
        self.wake = None
        self.what = "start"
        self.exc = None
        self.lines_left = None
        self.daemon = daemon
        self.traced = False
        self.fault_armed = None
        self.started = False
        self.os = None
        self.block_fault = None     # [blocking points left, exception, name]
        self.killed = False         # unwind at the next scheduling point
        self.task_seq = 0           # when the pool task it runs was picked up
        self.rank = None
        self.user = None
        self.mods = None

    def ready(self):
        if self.done:
            return False
        if self.pred is not None:
            return bool(self.pred())
        if self.wake is not None:
            return self.wake <= self.sim.now
        return True


_local = threading.local()


def current():
    """The SimThread executing now, or None outside the simulation."""
    return getattr(_local, "t", None)


class _OSPool:
    """Reuses OS threads between runs (creation is the dominant cost)."""

    def __init__(self):
        self.idle = []

    def run(self, fn):
        if self.idle:
            w = self.idle.pop()
        else:
            w = _OSWorker(self)
        w.fn = fn
        w.go.release()


class _OSWorker:
    def __init__(self, pool):
        self.pool = pool
        self.go = threading.Lock()
        self.go.acquire()
        self.fn = None
        t = threading.Thread(target=self.loop, daemon=True)
        t.start()

    def loop(self):
        while True:
            self.go.acquire()
            fn, self.fn = self.fn, None
            fn()
            self.pool.idle.append(self)


_ospool = _OSPool()


class Sim:
    def __init__(self, decider, trace=False, preempt=0, share_rng=False, max_steps=400000):
        self.d = decider
        self.now = 0.0
        self.epoch = 1.7e9          # what the wall clock shows at the start
        self.seq = 0
        self.threads = []
        self.cur = None
        self.aborting = False
        self.deadlock = None
        self.finished = threading.Event()
        self.stats = Counter()
        self.trace = trace          # line tracing of library code in traced threads
        self.preempt = preempt      # mean number of library lines between preemptions (0: never)
        self.share_rng = share_rng
        self.proc_rng = {}
        self.pools = []             # simulated pools ever started
        self.locks = []
        self.cpu_count = 4
        self.sched_hash = 0
        self.steps = 0
        self.max_steps = max_steps
        self.leaked = []
        self.activity = 0           # bumped whenever a pool delivered something
        self.loky_of = {}           # caller -> its reusable process executor
        self.mpi = None
        self.log = []               # schedule-visible events, for determinism checks

    # -- bookkeeping -------------------------------------------------------
    def tick(self):
        self.seq += 1
        return self.seq

    def note(self, *ev):
        self.log.append(ev)
        self.sched_hash = hash((self.sched_hash, len(ev), *[e for e in ev if isinstance(e, (int, float))])) & 0xFFFFFFFFFFFF

    # -- random generator of simulated processes ---------------------------
    def set_proc_rng(self, proc, seed):
        self.proc_rng[proc] = np.random.RandomState(seed).get_state(legacy=False)

    def _swap_rng(self, old, new):
        if self.share_rng or old == new:
            return
        if old is not None:
            self.proc_rng[old] = np.random.get_state(legacy=False)
        st = self.proc_rng.get(new)
        if st is None:
            # not known yet: derive from the name only
            h = sum((i + 1) * b for i, b in enumerate(str(new).encode())) & 0x7FFFFFFF
            st = np.random.RandomState(h).get_state(legacy=False)
        np.random.set_state(st)

    # -- threads -----------------------------------------------------------
    def spawn(self, fn, name, proc, daemon=False, traced=False):
        t = SimThread(self, len(self.threads), name, proc, fn, daemon)
        t.traced = traced and self.trace
        self.threads.append(t)
        self.stats["threads"] += 1
        _ospool.run(lambda: self._bootstrap(t))
        return t

    def _bootstrap(self, t):
        t.baton.acquire()
        _local.t = t
        t.started = True
        try:
            if not self.aborting and not t.killed:
                if t.traced:
                    self._arm_preempt(t)
                    sys.settrace(_tracer)
                try:
                    t.fn()
                finally:
                    sys.settrace(None)
        except SimAbort:
            pass
        except BaseException as e:  # a simulated thread must not die silently
            t.exc = e
        t.done = True
        _local.t = None
        t.fn = None
        self._next_after_done(t)

    def _arm_preempt(self, t):
        if self.preempt:
            t.lines_left = 1 + self.d.choose(2 * self.preempt)
        else:
            t.lines_left = None

    def _candidates(self, cur):
        c = []
        if cur is not None and cur.ready():
            c.append(cur)
        for t in self.threads:
            if t is not cur and t.ready():
                c.append(t)
        return c

    def _pick(self, cur):
        """The thread to run next; advances simulated time when nobody can run."""
        self.steps += 1
        if self.steps > self.max_steps and not self.aborting:
            self.deadlock = ("step-limit", [(t.name, t.what) for t in self.threads if not t.done])
            self.aborting = True
        if self.aborting:
            for t in self.threads:
                if not t.done:
                    return t
            return None
        while True:
            c = self._candidates(cur)
            if c:
                k = self.d.choose(len(c))
                nxt = c[k]
                self.stats["sched_points"] += 1
                if nxt is not cur:
                    self.stats["switches"] += 1
                self.note(nxt.id, k, len(c))
                return nxt
            wakes = [t.wake for t in self.threads if not t.done and t.pred is None and t.wake is not None]
            if wakes:
                self.now = max(self.now, min(wakes))
                continue
            alive = [t for t in self.threads if not t.done]
            if not alive:
                return None
            if all(t.daemon for t in alive):
                # only pool threads are left, waiting for work that will not come
                self.leaked = [(t.name, t.what) for t in alive]
            else:
                self.deadlock = ("deadlock", [(t.name, t.what) for t in alive if not t.daemon])
            self.aborting = True
            return alive[0]

    def _next_after_done(self, t):
        nxt = self._pick(None)
        if nxt is None:
            self.finished.set()
            return
        self._swap_rng(t.proc, nxt.proc)
        self.cur = nxt
        nxt.baton.release()

    def point(self, what="point"):
        """A scheduling point: the decider may run somebody else here."""
        t = current()
        if t is None or t.sim is not self:
            return
        if self.aborting:
            raise SimAbort()
        t.what = what
        nxt = self._pick(t)
        self._switch(t, nxt)

    def _switch(self, t, nxt):
        if nxt is t:
            t.pred = None
            t.wake = None
            if self.aborting or t.killed:
                raise SimAbort()
            return
        self._swap_rng(t.proc, nxt.proc)
        self.cur = nxt
        nxt.baton.release()
        t.baton.acquire()
        t.pred = None
        t.wake = None
        if self.aborting or t.killed:
            raise SimAbort()

    def block(self, pred, what):
        t = current()
        if self.aborting:
            raise SimAbort()
        bf = t.block_fault
        if bf is not None:
            bf[0] -= 1
            if bf[0] <= 0:
                t.block_fault = None
                self.stats["fault_block_" + bf[2]] += 1
                raise bf[1]
        t.pred = pred
        t.what = what
        nxt = self._pick(t)
        self._switch(t, nxt)

    def sleep(self, dt, what="sleep"):
        t = current()
        if t is None or t.sim is not self:
            return
        if self.aborting:
            raise SimAbort()
        t.wake = self.now + max(0.0, dt)
        t.what = what
        nxt = self._pick(t)
        self._switch(t, nxt)

    def run(self, timeout=120.0):
        """Run all spawned threads to completion. Returns False on a real-time hang."""
        saved = np.random.get_state(legacy=False)
        nxt = self._pick(None)
        if nxt is None:
            return True
        self._swap_rng(None, nxt.proc)
        self.cur = nxt
        nxt.baton.release()
        ok = self.finished.wait(timeout)
        np.random.set_state(saved)
        return ok


def _tracer(frame, event, arg):
    if frame.f_code.co_filename.startswith(REPO_PREFIX):
        return _line_tracer
    return None


def _line_tracer(frame, event, arg):
    if event != "line":
        return _line_tracer
    # The frame that opens and closes the pool is left alone by line faults:
    # Python itself cannot protect the instants just before __enter__ returns
    # and just before __exit__ is called.
    t = getattr(_local, "t", None)
    if t is None:
        return _line_tracer
    sim = t.sim
    sim.stats["traced_lines"] += 1
    fa = t.fault_armed
    if fa is not None and "Parallel" not in frame.f_code.co_names:
        fa[0] -= 1
        if fa[0] <= 0:
            t.fault_armed = None
            sim.stats["fault_line_" + fa[2]] += 1
            raise fa[1]
    if t.lines_left is not None:
        t.lines_left -= 1
        if t.lines_left <= 0:
            sim._arm_preempt(t)
            sim.stats["preemptions"] += 1
            sim.point("line")
    return _line_tracer


class SimRLock:
    """Re-entrant lock whose waiters are parked by the simulator."""

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        t = current()
        if t is None:
            self.count += 1
            return True
        if self.owner is not None and self.owner is not t:
            if not blocking:
                return False
            if not t.sim.aborting:
                t.sim.stats["lock_waits"] += 1
                t.sim.block(lambda: self.owner is None, "lock")
        self.owner = t
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            self.count = 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
