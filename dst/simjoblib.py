"""Simulated worker pools behind the real joblib.Parallel.

joblib's dispatching, batching, retrieval and abort code runs unmodified; the
thread pool and the loky executor underneath it are replaced by pools whose
workers are simulated threads.  Loky workers are simulated processes: batches,
results and exceptions cross a real pickle, and every worker has its own numpy
random generator.
"""
import pickle
import types
from collections import deque

import joblib.parallel as jp
import joblib._parallel_backends as jb
from joblib.externals.loky.backend import reduction as cloudpickle
from joblib.externals.loky.process_executor import TerminatedWorkerError

from .core import SimAbort, SimRLock, current


class WorkerCrash(BaseException):
    """Raised by an objective to make its simulated worker process die."""


class SimThreadPool:
    def __init__(self, n, sim):
        self.n, self.sim = n, sim
        self.tasks, self.out = deque(), deque()
        self.workers = 0
        self.idle = 0
        self.closed = self.terminated = False
        self.handler = False
        self.id = len(sim.pools)
        self.proc = current().proc
        self.owner = current()
        sim.pools.append(self)
        sim.stats["thread_pools"] += 1

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        if self.closed or self.terminated:
            raise ValueError("Pool not running")
        self.tasks.append((func, args, kwds, callback, error_callback))
        sim = self.sim
        if len(self.tasks) > self.idle and self.workers < self.n:
            self.workers += 1
            self.idle += 1
            t = sim.spawn(self._work, "w%d.%d" % (self.id, self.workers), self.proc, daemon=True,
                          traced=True)
            t.user = self.owner.user
        if not self.handler:
            self.handler = True
            t = sim.spawn(self._handle, "h%d" % self.id, self.proc, daemon=True)
            t.user = self.owner.user
        return object()

    def _work(self):
        sim = self.sim
        me = current()
        while True:
            if not self.tasks and not self.terminated and not self.closed:
                sim.block(lambda: self.tasks or self.terminated or self.closed, "task")
            if not self.tasks or self.terminated:
                self.idle -= 1
                return
            func, args, kwds, cb, ecb = self.tasks.popleft()
            self.idle -= 1
            me.task_seq = sim.tick()
            try:
                ok, res = True, func(*args, **kwds)
            except SimAbort:
                raise
            except Exception as e:
                ok, res = False, e
            self.idle += 1
            if self.terminated:
                sim.stats["results_after_terminate"] += 1
            self.out.append((cb if ok else ecb, res))
            sim.point("task-done")

    def _handle(self):
        sim = self.sim
        while True:
            if not self.out:
                sim.block(lambda: self.out or self.terminated, "result")
            if self.terminated:
                return
            cb, res = self.out.popleft()
            if cb is not None:
                cb(res)
            sim.activity += 1
            sim.point("handled")

    def close(self):
        self.closed = True

    def terminate(self):
        if not self.terminated:
            self.terminated = True
            self.tasks.clear()
            self.sim.activity += 1

    def join(self):
        pass


class SimFuture:
    def __init__(self):
        self.cbs, self.done_, self.exc, self.val = [], False, None, None

    def add_done_callback(self, cb):
        if self.done_:
            cb(self)
        else:
            self.cbs.append(cb)

    def done(self):
        return self.done_

    def cancel(self):
        return False

    def result(self, timeout=None):
        if not self.done_:
            t = current()
            t.sim.block(lambda: self.done_, "future")
        if self.exc is not None:
            raise self.exc
        return self.val

    def _set(self, val, exc):
        if self.done_:
            return
        self.done_, self.val, self.exc = True, val, exc
        for cb in self.cbs:
            try:
                cb(self)
            except SimAbort:
                raise
            except BaseException:       # loky logs what callbacks raise and carries on
                current().sim.stats["loky_callback_exceptions"] += 1


class SimExecutor:
    """A loky-like executor: worker processes outlive Parallel objects."""

    def __init__(self, n, sim):
        self.n, self.sim = n, sim
        self.tasks, self.out = deque(), deque()
        self.pending = []
        self.workers, self.wthreads = 0, []
        self.idle = 0
        self.broken = self.dead = False
        self.id = len(sim.pools)
        self.owner = current()
        self.manager = False
        self.contexts = set()
        self.closed = True   # loky workers are meant to survive; contexts are tracked instead
        sim.pools.append(self)
        sim.stats["process_pools"] += 1

    @property
    def terminated(self):
        return not self.contexts

    # joblib calls these on the executor's temp folder manager
    @property
    def _temp_folder_manager(self):
        return self

    def set_current_context(self, cid):
        pass

    def _clean_temporary_resources(self, context_id=None, force=False, allow_non_empty=False):
        self.contexts.discard(context_id)

    def submit(self, func):
        if self.broken:
            raise TerminatedWorkerError("a worker process died")
        sim = self.sim
        f = SimFuture()
        early = sim.d.choose(2)
        payload = cloudpickle.dumps(func) if early else None
        self.tasks.append([f, func, payload])
        self.pending.append(f)
        if len(self.tasks) > self.idle and self.workers < self.n:
            self.workers += 1
            self.idle += 1
            name = "p%d.%d" % (self.id, self.workers)
            t = sim.spawn(self._work, name, ("proc", name), daemon=True, traced=True)
            t.user = self.owner.user
            self.wthreads.append(t)
        if not self.manager:
            self.manager = True
            t = sim.spawn(self._manage, "m%d" % self.id, self.owner.proc, daemon=True)
            t.user = self.owner.user
        return f

    def _work(self):
        sim = self.sim
        me = current()
        while True:
            if not self.tasks and not self.dead:
                sim.block(lambda: self.tasks or self.dead, "task")
            if self.dead:
                return
            f, func, payload = self.tasks.popleft()
            self.idle -= 1
            me.task_seq = sim.tick()
            if payload is None:
                # the feeder thread only got to pickling the batch now
                payload = cloudpickle.dumps(func)
                sim.stats["late_pickles"] += 1
            try:
                call = pickle.loads(payload)
                val, exc = cloudpickle.dumps(call()), None
            except SimAbort:
                raise
            except WorkerCrash:
                sim.stats["worker_crashes"] += 1
                self._die()
                return
            except BaseException as e:
                val, exc = None, cloudpickle.dumps(e)
            self.idle += 1
            self.out.append((f, val, exc))
            sim.point("task-done")

    def _die(self):
        self.broken = True
        for f in self.pending:
            self.out.append((f, None, cloudpickle.dumps(TerminatedWorkerError("a worker process died"))))
        self.pending = []
        self.tasks.clear()
        self._kill()

    def _kill(self):
        self.dead = True
        me = current()
        for t in self.wthreads:
            if t is not me:
                t.killed = True
                if not t.done:
                    t.pred = None
                    t.wake = None

    def _manage(self):
        sim = self.sim
        while True:
            if not self.out:
                sim.block(lambda: self.out or (self.dead and not self.broken), "result")
            if not self.out:
                return
            f, val, exc = self.out.popleft()
            if f in self.pending:
                self.pending.remove(f)
            if exc is not None:
                f._set(None, pickle.loads(exc))
            else:
                f._set(pickle.loads(val), None)
            sim.activity += 1
            sim.point("handled")

    def terminate(self, kill_workers=False):
        self.broken = True
        self.tasks.clear()
        self.pending = []
        self.contexts.clear()
        self._kill()
        self.sim.activity += 1
        if getattr(self.sim, "loky", None) is self:
            self.sim.loky = None


def _eff(n_jobs, sim):
    if n_jobs == 0:
        raise ValueError("n_jobs == 0 in Parallel has no meaning")
    if n_jobs is None:
        return 1
    if n_jobs < 0:
        return max(sim.cpu_count + 1 + n_jobs, 1)
    return n_jobs


class SimThreadingBackend(jb.ThreadingBackend):
    def effective_n_jobs(self, n_jobs):
        t = current()
        return super().effective_n_jobs(n_jobs) if t is None else _eff(n_jobs, t.sim)

    def _get_pool(self):
        t = current()
        if t is None:
            return super()._get_pool()
        if self._pool is None:
            self._pool = SimThreadPool(self._n_jobs, t.sim)
        return self._pool


class SimLokyBackend(jb.LokyBackend):
    def effective_n_jobs(self, n_jobs):
        t = current()
        return super().effective_n_jobs(n_jobs) if t is None else _eff(n_jobs, t.sim)

    def configure(self, n_jobs=1, parallel=None, **kw):
        t = current()
        if t is None:
            return super().configure(n_jobs=n_jobs, parallel=parallel, **kw)
        n_jobs = self.effective_n_jobs(n_jobs)
        if n_jobs == 1:
            raise jb.FallbackToBackend(jb.SequentialBackend(nesting_level=self.nesting_level))
        sim = t.sim
        ex = sim.loky_of.get(t.user)
        if ex is None or ex.broken or ex.n != n_jobs:
            if ex is not None and not ex.broken:
                ex.terminate()
            ex = sim.loky_of[t.user] = SimExecutor(n_jobs, sim)
        ex.contexts.add(parallel._id)
        self._workers = ex
        self.parallel = parallel
        return n_jobs


class _Time(types.SimpleNamespace):
    def __init__(self):
        import time
        self.real = time

    def time(self):
        t = current()
        return self.real.time() if t is None else t.sim.now

    def sleep(self, dt):
        t = current()
        if t is None:
            return self.real.sleep(dt)
        # Retrieval polls every 10 ms; only activity of the pool can end the wait.
        sim = t.sim
        seen = sim.activity
        sim.block(lambda: sim.activity != seen, "poll")

    def __getattr__(self, n):
        return getattr(self.real, n)


class _Threading:
    def __init__(self):
        import threading
        self.real = threading

    def RLock(self):
        return SimRLock() if current() is not None else self.real.RLock()

    def __getattr__(self, n):
        return getattr(self.real, n)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    jp.BACKENDS["threading"] = SimThreadingBackend
    jp.BACKENDS["loky"] = SimLokyBackend
    jp.BACKENDS["multiprocessing"] = SimLokyBackend
    for name in ("ThreadingBackend", "LokyBackend"):
        cls = {"ThreadingBackend": SimThreadingBackend, "LokyBackend": SimLokyBackend}[name]
        if hasattr(jp, name):
            setattr(jp, name, cls)
    jp.time = _Time()
    jp.threading = _Threading()
