"""Recording objectives and callbacks; all values, durations and faults are chosen here."""
import copy
import hashlib
import math

import numpy as np

from .core import SimLimit, current
from .simjoblib import WorkerCrash


class BoomError(Exception):
    """The failure injected into objectives and callbacks."""

    def __init__(self, tag):
        super().__init__(tag)
        self.tag = tag


class BoomBase(BaseException):
    """A failure that is not an Exception (like SystemExit)."""

    def __init__(self, tag):
        super().__init__(tag)
        self.tag = tag


def hash01(x, salt=0):
    """Deterministic pseudo-random number in [0, 1) of a point."""
    h = hashlib.blake2b(np.ascontiguousarray(x, dtype=float).tobytes(), digest_size=8,
                        salt=int(salt).to_bytes(8, "little")).digest()
    return int.from_bytes(h, "little") / 2.0**64


EXCS = {
    "raise": BoomError, "raisebase": BoomBase, "interrupt": KeyboardInterrupt, "memory": MemoryError,
    "stopiter": StopIteration, "exit": SystemExit, "OSError": OSError, "ValueError": ValueError,
    "RuntimeError": RuntimeError, "TypeError": TypeError, "FloatingPointError": FloatingPointError,
    "ZeroDivisionError": ZeroDivisionError, "KeyError": KeyError, "AttributeError": AttributeError,
    "AssertionError": AssertionError, "TimeoutError": TimeoutError, "IndexError": IndexError,
    "ImportError": ImportError, "LinAlgError": np.linalg.LinAlgError, "ConnectionError": ConnectionError,
    "BrokenPipeError": BrokenPipeError, "EOFError": EOFError, "OverflowError": OverflowError,
    "NotImplementedError": NotImplementedError, "RecursionError": RecursionError, "Warning": RuntimeWarning,
}
COMMON = ("OSError", "ValueError", "RuntimeError", "TypeError", "FloatingPointError", "ZeroDivisionError", "KeyError",
          "AttributeError", "AssertionError", "TimeoutError", "IndexError", "ImportError", "LinAlgError", "ConnectionError",
          "BrokenPipeError", "EOFError", "OverflowError", "NotImplementedError", "RecursionError", "Warning", "exit")


class Formula:
    """A deterministic objective in coordinates normalised by the bounds.

    Spec keys: kind, c (centre), w (weights), a, b (value = a*v + b), ret
    (type of the returned number), pre (scale of the argument), mono (monotone
    transformation), salt.
    """

    def __init__(self, spec, bounds):
        self.s = spec
        b = np.array(bounds, dtype=float)
        self.mid = 0.5 * (b[:, 0] + b[:, 1])
        half = 0.5 * (b[:, 1] - b[:, 0])
        self.half = np.where(half > 0.0, half, 1.0)
        self.inv = 1.0 / self.half
        self.c = np.array(spec.get("c", [0.0] * len(b)))
        self.w = np.array(spec.get("w", [1.0] * len(b)))
        self.pre = spec.get("pre", 1.0)

    def z(self, x):
        return (np.asarray(x, dtype=float) * self.pre - self.mid) * self.inv

    def raw(self, x):
        s = self.s
        k = s["kind"]
        z = self.z(x)
        if k == "quad":
            v = float((self.w * (z - self.c) ** 2).sum())
        elif k == "rquad":          # quadratic with rotated axes
            v = float((self.w * (self.turn() @ (z - self.c)) ** 2).sum())
        elif k == "rosen":
            y = 2.0 * z
            v = float((100.0 * (y[1:] - y[:-1] ** 2) ** 2).sum() + ((1.0 - y) ** 2).sum())
        elif k == "rastrigin":
            y = 5.12 * (z - self.c)
            v = float((y**2 - 10.0 * np.cos(2.0 * math.pi * y) + 10.0).sum())
        elif k == "stybl":
            y = 5.0 * z
            v = float(0.5 * (y**4 - 16.0 * y**2 + 5.0 * y).sum())
        elif k == "plateau":
            v = float(np.floor(4.0 * (self.w * (z - self.c) ** 2).sum())) / 4.0
        elif k == "steps":
            v = float(np.floor(3.0 * np.abs(z - self.c)).sum())
        elif k == "const":
            v = 1.0
        elif k == "linear":
            v = float((self.w * z).sum())
        elif k == "hash":
            v = hash01(z, s.get("salt", 0))
        elif k == "abs":
            v = float((self.w * np.abs(z - self.c)).sum())
        elif k == "mixed":          # steep in the first coordinate, noisy in the others
            v = float(self.w[0] * 100.0 * z[0]) + hash01(z[1:], s.get("salt", 0)) * 10.0
        elif k == "gauss":          # -log density of independent normals, for samplers
            v = float(0.5 * (((z - self.c) / self.w) ** 2).sum())
        elif k == "gauss2":         # -log density of a correlated normal
            y = self.white(x)
            v = float(0.5 * (y**2).sum())
        else:
            raise ValueError(k)
        return v

    def turn(self):
        if not hasattr(self, "_q"):
            n = len(self.w)
            self._q = np.linalg.qr(np.random.RandomState(self.s.get("salt", 0)).randn(n, n))[0]
        return self._q

    def white(self, x):
        """gauss2: coordinates that are independent standard normals."""
        y = ((self.z(x) - self.c) / self.w).copy()
        rho = self.s["rho"]
        y[..., 1] = (y[..., 1] - rho * y[..., 0]) / math.sqrt(1.0 - rho * rho)
        return y

    def value(self, x):
        s = self.s
        v = s.get("a", 1.0) * self.raw(x) + s.get("b", 0.0)
        if s.get("q32"):            # coarse values, so that the maps below stay strictly increasing
            v = float(np.float32(v))
        if s.get("mono"):
            v = mono(s["mono"], v)
        return v

    def ret(self, v):
        r = self.s.get("ret", "float")
        if r == "float":
            return v
        if r == "np64":
            return np.float64(v)
        if r == "np32":
            return np.float32(v)
        if r == "int":
            return int(v) if math.isfinite(v) else v
        if r == "mixint":           # an int whenever the value is integral
            return int(v) if math.isfinite(v) and v == int(v) and abs(v) < 1e15 else v
        if r == "0d":
            return np.array(v)
        raise ValueError(r)

    def gradient(self, x):
        """Analytic gradient (user coordinates) of quad, gauss and linear kinds."""
        s = self.s
        z = self.z(x)
        k = s["kind"]
        if k == "quad":
            g = 2.0 * self.w * (z - self.c)
        elif k == "gauss":
            g = (z - self.c) / self.w**2
        elif k == "linear":
            g = self.w.copy()
        elif k == "rastrigin":
            y = 5.12 * (z - self.c)
            g = 5.12 * (2.0 * y + 20.0 * math.pi * np.sin(2.0 * math.pi * y))
        elif k == "stybl":
            y = 5.0 * z
            g = 5.0 * 0.5 * (4.0 * y**3 - 32.0 * y + 5.0)
        elif k == "gauss2":
            y = self.white(x)
            rho = s["rho"]
            q = math.sqrt(1.0 - rho * rho)
            g = y / self.w
            g[0] = (y[0] - y[1] * rho / q) / self.w[0]
            g[1] = y[1] / q / self.w[1]
        elif k == "abs":
            g = self.w * np.sign(z - self.c)
        else:
            g = np.zeros(len(z))
        return s.get("a", 1.0) * g * self.inv * self.pre


def mono(m, v):
    """Strictly increasing maps; the caller verifies that they are on the values met."""
    k = m[0]
    if k == "scale":                # by a power of two: exact
        return v * m[1]
    if k == "shift":
        return v + m[1]
    if k == "cube":
        return v * v * v
    if k == "sqrt":
        return math.copysign(math.sqrt(abs(v)), v)
    if k == "log":
        return math.copysign(math.log1p(abs(v)), v)
    if k == "atan":
        return math.atan(v / m[1])
    if k == "ordinal":              # position among the single-precision numbers
        n = int(np.array(v, dtype=np.float32).view(np.int32))
        return float(n if n >= 0 else -(n + 2**31))
    raise ValueError(m)


class Eval:
    __slots__ = ("n", "x", "val", "ret", "start", "end", "t0", "t1", "rank", "proc", "tid", "user",
                 "args_ok", "shape_ok", "task_seq", "changed", "fault", "kind", "x_after_done", "worker")

    def __init__(self):
        for a in self.__slots__:
            setattr(self, a, None)


_registry = {}


def _lookup(token):
    return _registry[token]


class Objective:
    """The callable given to the library.  Every call is recorded.

    faults: list of {"at": n | None, "where": hash threshold | None, "do": kind}.
      at     strike at the n-th evaluation started (0-based), counting all workers
      where  strike at points x with hash01(x) < where (schedule independent)
      do     nan | inf | ninf | raise | raisebase | interrupt | memory | crash | stopiter
    """

    def __init__(self, spec, bounds, args=(), faults=(), durations=None, cap=None, name="f", grad=False):
        self.formula = Formula(spec, bounds)
        self.spec, self.args, self.faults = spec, tuple(args), list(faults)
        self.durations = durations or {"mode": "zero"}
        self.cap = cap
        self.evals = []
        self.jacs = 0
        self.jac_points = []
        self.started = 0
        self.inflight = 0
        self.max_inflight = 0
        self.name = name
        self.ndim = len(bounds)
        self.token = (name, id(self))
        self.fired = []
        _registry[self.token] = self
        self.armed = True

    def __reduce__(self):
        return (_lookup, (self.token,))

    def drop(self):
        _registry.pop(self.token, None)

    def _check_args(self, args):
        if len(args) != len(self.args):
            return False
        for a, b in zip(args, self.args):
            if type(a) is not type(b):
                return False
            if isinstance(b, np.ndarray):
                if a.shape != b.shape or not np.array_equal(a, b):
                    return False
            elif a != b:
                return False
        return True

    def __call__(self, x, *args, **kw):
        t = current()
        sim = t.sim
        e = Eval()
        e.n = self.started
        self.started += 1
        e.task_seq = t.task_seq
        e.rank, e.proc, e.tid, e.user, e.worker = t.rank, t.proc, t.id, t.user, t.name
        e.args_ok = self._check_args(args) and not kw
        e.shape_ok = (isinstance(x, np.ndarray) and x.ndim == 1 and x.shape[0] == self.ndim
                      and x.dtype == np.float64)
        e.x = np.array(x, dtype=float, copy=True).reshape(-1)
        e.start, e.t0 = sim.tick(), sim.now
        self.evals.append(e)
        self.inflight += 1
        self.max_inflight = max(self.max_inflight, self.inflight)
        try:
            if self.cap is not None and self.started > self.cap:
                sim.stats["eval_cap"] += 1
                raise SimLimit("evaluation budget of %d exceeded" % self.cap)
            fault = self._fault(e)
            self._dwell(sim, t, e)
            if self.hook is not None:
                self.hook(e.n)
            e.changed = not np.array_equal(e.x, np.asarray(x, dtype=float).reshape(-1), equal_nan=True)
            v = self.formula.value(e.x) + self._argsum()
            if self.spec.get("drift"):
                v += self.spec["drift"] * e.n
            if fault is not None:
                sim.stats["fault_" + fault["do"]] += 1
                e.fault = fault["do"]
                self.fired.append((e.n, fault["do"]))
                v = self._strike(fault, e, v)
            r = self.formula.ret(v)
            e.val = float(r)
            return r
        finally:
            self.inflight -= 1
            e.end, e.t1 = sim.tick(), sim.now

    def _argsum(self):
        s = 0.0
        for a in self.args:
            if isinstance(a, float):
                s += a
        return s

    def _fault(self, e):
        if not self.armed:
            return None
        for f in self.faults:
            if f.get("at") is not None and f["at"] == e.n:
                return f
            if f.get("from") is not None and e.n >= f["from"] and e.n < f.get("to", 1 << 60):
                return f
            if f.get("where") is not None and hash01(self.formula.z(e.x), f.get("salt", 1)) < f["where"] \
                    and f.get("skip", 0) <= e.n < f.get("to", 1 << 60):
                return f
        return None

    def _strike(self, f, e, v):
        do = f["do"]
        if do == "nan":
            return float("nan")
        if do == "inf":
            return float("inf")
        if do == "ninf":
            return float("-inf")
        tag = "%s#%d" % (self.name, e.n)
        if do in EXCS:
            raise EXCS[do](tag)
        if do == "crash":
            raise WorkerCrash(tag)
        raise ValueError(do)

    def _dwell(self, sim, t, e):
        d = self.durations
        m = d["mode"]
        if m == "zero":
            sim.point("eval")
        elif m == "equal":
            sim.sleep(d["d"], "eval")
        elif m == "random":
            sim.sleep(d["d"] * sim.d.pick((0.0, 0.125, 0.5, 1.0, 1.0, 2.0, 16.0)), "eval")
        elif m == "slowworker":
            # one worker or rank is much slower than the others
            slow = (t.rank if t.rank is not None else t.id) % d["k"] == d["r"]
            sim.sleep(d["d"] * (50.0 if slow else 1.0), "eval")
        elif m == "straggler":
            # one evaluation in k takes very long
            sim.sleep(d["d"] * (200.0 if e.n % d["k"] == d["r"] else 1.0), "eval")
        else:
            raise ValueError(m)

    def jac(self, x, *args):
        self.jacs += 1
        self.jac_points.append(np.array(x, dtype=float))
        if not self._check_args(args):
            self.jac_args_bad = True
        if self.cap is not None and self.jacs > 50 * self.cap:
            raise SimLimit("gradient budget exceeded")
        return self.formula.gradient(x)

    jac_args_bad = False
    hook = None             # something else the user's function does

    def real_value(self, x):
        return self.formula.value(x) + self._argsum()


class CallbackRec:
    """Callback that copies all it is given, and can fail."""

    hook = None

    def __init__(self, faults=(), objective=None, lite=False, name="cb", ret=None):
        self.ret = ret              # what it returns is of no consequence
        self.lite = lite            # do not copy the (long) record arrays
        self.calls = []
        self.faults = list(faults)
        self.obj = objective
        self.name = name
        self.fired = []

    def __call__(self, X, state):
        t = current()
        sim = t.sim
        n = len(self.calls)
        rec = {
            "n": n, "X": np.array(X, copy=True), "X_ref": X, "state_ref": state,
            "state": {k: copy.deepcopy(v) for k, v in state.items() if not (self.lite and k in ("xall", "funall"))},
            "type": type(state).__name__, "seq": sim.tick(), "t": sim.now, "rank": t.rank, "tid": t.id,
            "nev": self.obj.started if self.obj is not None else None,
            "njac": self.obj.jacs if self.obj is not None else None,
        }
        self.calls.append(rec)
        sim.point("callback")
        if self.hook is not None:
            self.hook(n)
        for f in self.faults:
            if f["at"] == n:
                sim.stats["fault_cb_" + f["do"]] += 1
                self.fired.append((n, f["do"]))
                tag = "%s#%d" % (self.name, n)
                raise EXCS[f["do"]](tag)
        return self.ret
