"""What the library gets when it imports numpy, threading or time.

Memory: numpy.empty() hands out whatever the allocator had, and some numpy loops round differently when the result
happens to lie right behind a strided operand.  Both differ from process to process, so the simulator decides them.
Entropy: generators made or seeded without a seed take it from the simulator instead of the operating system.
Locks: threads wait in the simulator.  Clocks: simulated time.
Outside a simulated run all of them behave as usual.
"""
import random as pyrandom
import threading
import time
import types

import numpy as np

from .core import SimRLock, current

UFUNCS = ("log", "exp", "log2", "log10", "log1p", "exp2", "expm1", "sqrt", "cbrt", "sin", "cos", "tan", "arcsin",
          "arccos", "arctan", "sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh")
GARBAGE = (0.0, 0.0, float("nan"), float("inf"), -1.0, 1.0, 0.5, -3.75, 1e300, -1e300, 5e-324, 6.9e-310, 123456.789)


def _mem():
    t = current()
    if t is None:
        return None, None
    return t.sim, getattr(t.sim, "mem", None)


def _spoil(a):
    sim, r = _mem()
    if r is None or not isinstance(a, np.ndarray) or a.size == 0:
        return a
    sim.stats["fault_uninitialised_memory"] += 1
    if a.dtype.kind == "f":
        u = r.random()
        if u < 0.6:
            a.fill(GARBAGE[r.randrange(len(GARBAGE))])
        else:
            f = a.reshape(-1)
            g = [GARBAGE[r.randrange(len(GARBAGE))] if r.random() < 0.3 else r.uniform(-2.0, 2.0) for _ in range(min(7, f.size))]
            f[:] = np.resize(np.array(g), f.size)
    elif a.dtype.kind in "iu":
        a.fill(r.randrange(100))
    elif a.dtype.kind == "b":
        a.fill(r.random() < 0.5)
    return a


def _empty(*a, **k):
    return _spoil(np.empty(*a, **k))


def _empty_like(*a, **k):
    return _spoil(np.empty_like(*a, **k))


class _wrap:
    """A ufunc whose result may be placed behind its operand."""

    def __init__(self, f):
        self.__dict__["f"] = f

    def __getattr__(self, name):
        return getattr(self.f, name)

    def __call__(self, *a, **k):
        f = self.f
        if len(a) != 1 or k:
            return f(*a, **k)
        x, = a
        if isinstance(x, np.ndarray) and x.ndim == 1 and x.dtype == np.float64 and len(x) > 1 and x.strides[0] > 8 \
                and x.strides[0] % 8 == 0:
            sim, r = _mem()
            if r is not None and r.random() < 0.5:
                sim.stats["fault_memory_placement"] += 1
                s, n = x.strides[0] // 8, len(x)
                buf = np.zeros((n - 1) * s + 1 + n)
                d = buf[:(n - 1) * s + 1:s]
                d[:] = x
                return f(d, out=buf[(n - 1) * s + 1:]).copy()
        return f(x)


class _Proxy(types.ModuleType):
    pass


def _proxy(real, **over):
    p = _Proxy(real.__name__)
    p.__dict__.update(vars(real))
    p.__dict__.update(over)
    p.__getattr__ = lambda name: getattr(real, name)
    return p


# -- entropy ---------------------------------------------------------------
def _entropy(seed):
    if seed is not None:
        return seed
    sim, r = _mem()
    if r is None:
        return None
    sim.stats["entropy_taken"] += 1
    return pyrandom.Random(r.random()).getrandbits(32)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.random.RandomState)


class _RandomState(np.random.RandomState, metaclass=_Meta):
    def __init__(self, seed=None):
        super().__init__(_entropy(seed))


def _default_rng(seed=None):
    return np.random.default_rng(_entropy(seed))


def _seed(seed=None):
    return np.random.seed(_entropy(seed))


# -- locks -----------------------------------------------------------------
class SimLock:
    """Not re-entrant: a thread that asks for it twice waits for ever."""

    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        t = current()
        if self.held:
            if not blocking or t is None:
                return False
            if timeout is not None and timeout >= 0:
                end = t.sim.now + timeout
                while self.held and t.sim.now < end:
                    t.sim.sleep(min(0.01, end - t.sim.now) or 0.01, "lock")
                if self.held:
                    return False
            else:
                t.sim.stats["lock_waits"] += 1
                t.sim.block(lambda: not self.held, "lock")
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


# -- clocks ----------------------------------------------------------------
def _clock(real):
    def f():
        t = current()
        return real() if t is None else t.sim.epoch + t.sim.now
    return f


def _sleep(s):
    t = current()
    if t is None:
        return time.sleep(s)
    t.sim.sleep(s, "sleep")


_the = None


def modules():
    """(real module, what the library sees) pairs."""
    global _the
    if _the is None:
        rnd = _proxy(np.random, RandomState=_RandomState, default_rng=_default_rng, seed=_seed)
        num = _proxy(np, empty=_empty, empty_like=_empty_like, random=rnd,
                     **{n: _wrap(getattr(np, n)) for n in UFUNCS})
        thr = _proxy(threading, Lock=SimLock, RLock=SimRLock)
        tim = _proxy(time, time=_clock(time.time), monotonic=_clock(time.monotonic),
                     perf_counter=_clock(time.perf_counter), sleep=_sleep,
                     time_ns=lambda: int(_clock(time.time)() * 1e9),
                     monotonic_ns=lambda: int(_clock(time.monotonic)() * 1e9),
                     perf_counter_ns=lambda: int(_clock(time.perf_counter)() * 1e9))
        _the = [(np.random, rnd), (np, num), (threading, thr), (time, tim)]
    return _the
