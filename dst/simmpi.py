"""Simulated MPI: a fake ``mpi4py`` whose ranks are simulated processes.

Collectives are matched by their position in each rank's call sequence; any
disagreement (kind, root, size, operation) is a protocol error.  Messages take
a chosen time; broadcasts and small sends may be eager (the sender goes on
before anybody received).  If a rank dies of an exception the job is aborted,
as mpiexec does.
"""
import pickle
import sys
import types

import numpy as np

from .core import current


class MPIError(RuntimeError):
    """A call a real MPI library would reject or corrupt memory on."""


class JobAborted(BaseException):
    """Another rank of the MPI job died."""


class Datatype:
    def __init__(self, name, np_dtype):
        self.name, self.np = name, np.dtype(np_dtype)

    def Get_size(self):
        return self.np.itemsize


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)


DOUBLE = Datatype("MPI_DOUBLE", "f8")
FLOAT = Datatype("MPI_FLOAT", "f4")
INT = Datatype("MPI_INT", "i4")
LONG = Datatype("MPI_LONG", "i8")
INT64_T = Datatype("MPI_INT64_T", "i8")
BYTE = Datatype("MPI_BYTE", "u1")
BOOL = Datatype("MPI_C_BOOL", "?")
_auto = {"d": DOUBLE, "f": FLOAT, "i": INT, "l": LONG, "q": LONG, "B": BYTE, "?": BOOL}
SUM = Op("MPI_SUM", lambda a, b: a + b)
PROD = Op("MPI_PROD", lambda a, b: a * b)
MAX = Op("MPI_MAX", np.maximum)
MIN = Op("MPI_MIN", np.minimum)
LOR = Op("MPI_LOR", np.logical_or)
LAND = Op("MPI_LAND", np.logical_and)
_pyop = {"MPI_MAX": max, "MPI_MIN": min}


class _InPlace:
    pass


IN_PLACE = _InPlace()


class _Buf:
    """A memory region handed to MPI: (array memory, count, type)."""

    def __init__(self, spec, writable):
        dt = None
        count = None
        if isinstance(spec, (list, tuple)):
            arr = spec[0]
            for e in spec[1:]:
                if isinstance(e, Datatype):
                    dt = e
                elif isinstance(e, str):
                    dt = _auto[e]
                elif e is not None:
                    count = int(e) if np.ndim(e) == 0 else int(e[0])
        else:
            arr = spec
        if not isinstance(arr, np.ndarray):
            raise TypeError("expected a buffer, got %r" % type(arr))
        if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
            raise ValueError("ndarray is not contiguous")
        if writable and not arr.flags.writeable:
            raise ValueError("buffer source array is read-only")
        if dt is None:
            dt = _auto[arr.dtype.char]
        self.arr, self.dt = arr, dt
        # memory order, as MPI sees it
        flat = arr.reshape(-1, order="C") if arr.flags.c_contiguous else arr.T.reshape(-1)
        self.flat = flat.view(np.uint8) if arr.size else np.empty(0, np.uint8)
        self.nbytes = arr.nbytes if count is None else count * dt.np.itemsize
        if self.nbytes > arr.nbytes:
            raise MPIError("buffer smaller than count")

    def get(self):
        return bytes(self.flat[: self.nbytes])

    def values(self):
        return np.frombuffer(self.get(), dtype=self.dt.np).copy()

    def put(self, b):
        if len(b) > self.nbytes:
            raise MPIError("message truncated: %d bytes into %d" % (len(b), self.nbytes))
        self.flat[: len(b)] = np.frombuffer(b, np.uint8)


class _Coll:
    """One collective operation, filled in by the ranks as they arrive."""

    def __init__(self, kind, sig, size):
        self.kind, self.sig = kind, sig
        self.data = {}
        self.arrived = set()
        self.done = set()
        self.result = None
        self.times = {}
        self.eager = None
        self.size = size


class World:
    """State of one simulated MPI job."""

    def __init__(self, sim, size, latency):
        self.sim, self.size, self.latency = sim, size, latency
        self.pos = [0] * size
        self.colls = []
        self.p2p = []
        self.error = None
        self.dead = False
        self.finished = set()
        self.calls = [[] for _ in range(size)]

    def abort(self, err):
        if self.error is None:
            self.error = err
        self.dead = True

    def _delay(self):
        lat = self.latency
        if not lat:
            return 0.0
        return self.sim.d.pick(lat)

    def _wait(self, pred, what):
        sim = self.sim
        if not pred() and not self.dead:
            sim.block(lambda: pred() or self.dead, what)
        if self.dead:
            raise JobAborted()

    def _arrive(self, r, t):
        """Wait until simulated time t (message in flight)."""
        if t > self.sim.now:
            self.sim.stats["mpi_delays"] += 1
            self.sim.sleep(t - self.sim.now, "message")
        if self.dead:
            raise JobAborted()

    def enter(self, kind, sig, contribution, root=None):
        """Register this rank's next collective; returns (collective, rank)."""
        me = current()
        r = me.rank
        sim = self.sim
        sim.point("mpi-" + kind)
        if self.dead:
            raise JobAborted()
        k = self.pos[r]
        self.pos[r] += 1
        self.calls[r].append(kind)
        if k == len(self.colls):
            c = _Coll(kind, sig, self.size)
            self.colls.append(c)
        c = self.colls[k]
        if c.kind != kind or c.sig != sig:
            err = "collective mismatch at call %d: rank %d enters %s%r, another rank %s%r" % (
                k, r, kind, sig, c.kind, c.sig)
            self.abort(("mismatch", err))
            raise JobAborted()
        c.arrived.add(r)
        c.data[r] = contribution
        c.times[r] = sim.now
        sim.stats["mpi_collectives"] += 1
        return c, r

    def all_in(self, c, r):
        self._wait(lambda: len(c.arrived) == self.size, "all ranks in " + c.kind)
        self._arrive(r, max(c.times.values()) + self._delay())

    # -- one-to-all
    def bcast(self, kind, payload, sig, root):
        c, r = self.enter(kind, sig, payload, root)
        if r == root:
            if c.eager is None:
                c.eager = bool(self.sim.d.choose(2))
            if not c.eager:
                self.all_in(c, r)
            return payload
        self._wait(lambda: root in c.arrived, "root of " + kind)
        self._arrive(r, c.times[root] + self._delay())
        return c.data[root]

    # -- all-to-one: non-roots may leave at once
    def gather(self, kind, payload, sig, root):
        c, r = self.enter(kind, sig, payload, root)
        if r != root:
            if not self.sim.d.choose(2):
                self.all_in(c, r)
            return None
        self.all_in(c, r)
        return [c.data[i] for i in range(self.size)]

    def allgather(self, kind, payload, sig):
        c, r = self.enter(kind, sig, payload)
        self.all_in(c, r)
        return [c.data[i] for i in range(self.size)]

    def order(self, c):
        """Reduction order: any, but the same on every rank."""
        if c.result is None:
            o = list(range(self.size))
            for i in range(len(o) - 1, 0, -1):
                j = self.sim.d.choose(i + 1)
                o[i], o[j] = o[j], o[i]
            c.result = o
        return c.result


class Comm:
    @property
    def w(self):
        t = current()
        if t is None or t.sim.mpi is None:
            raise MPIError("MPI used outside a simulated job")
        return t.sim.mpi

    def Get_rank(self):
        t = current()
        return 0 if t is None or t.rank is None else t.rank

    def Get_size(self):
        t = current()
        return 1 if t is None or t.sim.mpi is None else t.sim.mpi.size

    rank = property(Get_rank)
    size = property(Get_size)

    def Dup(self):
        return self

    def Abort(self, code=0):
        self.w.abort(("abort", "Abort(%r) called" % code))
        raise JobAborted()

    def Barrier(self):
        w = self.w
        c, r = w.enter("Barrier", (), None)
        w.all_in(c, r)

    barrier = Barrier

    def Bcast(self, buf, root=0):
        w = self.w
        b = _Buf(buf, self.Get_rank() != root)
        data = w.bcast("Bcast", b.get() if self.Get_rank() == root else None, (root, b.nbytes, b.dt.name), root)
        if self.Get_rank() != root:
            b.put(data)

    def bcast(self, obj, root=0):
        w = self.w
        r = self.Get_rank()
        data = w.bcast("bcast", pickle.dumps(obj) if r == root else None, (root,), root)
        return obj if r == root else pickle.loads(data)

    def _reduce(self, w, c, op, vals):
        o = w.order(c)
        acc = vals[o[0]]
        for i in o[1:]:
            acc = op(acc, vals[i])
        return acc

    def Allreduce(self, send, recv, op=SUM):
        w = self.w
        rb = _Buf(recv, True)
        sb = rb if send is IN_PLACE else _Buf(send, False)
        c, r = w.enter("Allreduce", (sb.nbytes, sb.dt.name, op.name), sb.values())
        w.all_in(c, r)
        acc = self._reduce(w, c, op, [c.data[i] for i in range(w.size)])
        rb.put(np.asarray(acc, dtype=sb.dt.np).tobytes())

    def allreduce(self, obj, op=SUM):
        w = self.w
        c, r = w.enter("allreduce", (op.name,), pickle.dumps(obj))
        w.all_in(c, r)
        f = _pyop.get(op.name, op)
        return self._reduce(w, c, f, [pickle.loads(c.data[i]) for i in range(w.size)])

    def Reduce(self, send, recv, op=SUM, root=0):
        w = self.w
        r = self.Get_rank()
        sb = _Buf(recv, True) if send is IN_PLACE else _Buf(send, False)
        rb = _Buf(recv, True) if r == root else None
        vals = w.gather("Reduce", sb.values(), (sb.nbytes, sb.dt.name, op.name, root), root)
        if r == root:
            c = w.colls[w.pos[r] - 1]
            rb.put(np.asarray(self._reduce(w, c, op, vals), dtype=sb.dt.np).tobytes())

    def reduce(self, obj, op=SUM, root=0):
        w = self.w
        r = self.Get_rank()
        vals = w.gather("reduce", pickle.dumps(obj), (op.name, root), root)
        if r == root:
            c = w.colls[w.pos[r] - 1]
            return self._reduce(w, c, _pyop.get(op.name, op), [pickle.loads(v) for v in vals])

    def gather(self, obj, root=0):
        vals = self.w.gather("gather", pickle.dumps(obj), (root,), root)
        return None if vals is None else [pickle.loads(v) for v in vals]

    def allgather(self, obj):
        return [pickle.loads(v) for v in self.w.allgather("allgather", pickle.dumps(obj), ())]

    def scatter(self, obj, root=0):
        w, r = self.w, self.Get_rank()
        if r == root:
            obj = list(obj)
            if len(obj) != w.size:
                raise ValueError("expecting %d items, got %d" % (w.size, len(obj)))
        data = w.bcast("scatter", [pickle.dumps(o) for o in obj] if r == root else None, (root,), root)
        return obj[r] if r == root else pickle.loads(data[r])

    def Gather(self, send, recv, root=0):
        w, r = self.w, self.Get_rank()
        sb = _Buf(send, False)
        vals = w.gather("Gather", sb.get(), (sb.nbytes, root), root)
        if vals is not None:
            _Buf(recv, True).put(b"".join(vals))

    def Allgather(self, send, recv):
        w = self.w
        rb = _Buf(recv, True)
        if send is IN_PLACE:
            n = rb.nbytes // w.size
            data = rb.get()[self.Get_rank() * n: (self.Get_rank() + 1) * n]
        else:
            data = _Buf(send, False).get()
        rb.put(b"".join(w.allgather("Allgather", data, (len(data),))))

    def _v(self, spec):
        arr, rest = spec[0], spec[1:]
        counts = displs = None
        dt = None
        for e in rest:
            if isinstance(e, Datatype):
                dt = e
            elif isinstance(e, tuple) and len(e) == 2 and np.ndim(e[0]) == 1:
                counts, displs = e
            elif np.ndim(e) == 1 and counts is None:
                counts = e
            elif np.ndim(e) == 1:
                displs = e
        dt = dt or _auto[arr.dtype.char]
        if displs is None:
            displs = np.concatenate(([0], np.cumsum(counts)[:-1]))
        return _Buf([arr, dt], True), [int(c) for c in counts], [int(d) for d in displs], dt.np.itemsize

    def _putv(self, vals, spec):
        b, counts, displs, sz = self._v(spec)
        for v, c, d in zip(vals, counts, displs):
            if len(v) > c * sz:
                raise MPIError("message truncated")
            b.flat[d * sz: d * sz + len(v)] = np.frombuffer(v, np.uint8)

    def Allgatherv(self, send, recv):
        w = self.w
        if send is IN_PLACE:
            b, counts, displs, sz = self._v(recv)
            r = self.Get_rank()
            data = b.get()[displs[r] * sz: (displs[r] + counts[r]) * sz]
        else:
            data = _Buf(send, False).get()
        self._putv(w.allgather("Allgatherv", data, ()), recv)

    def Gatherv(self, send, recv, root=0):
        vals = self.w.gather("Gatherv", _Buf(send, False).get(), (root,), root)
        if vals is not None:
            self._putv(vals, recv)

    def Scatter(self, send, recv, root=0):
        w, r = self.w, self.Get_rank()
        if r == root:
            b = _Buf(send, False).get()
            n = len(b) // w.size
            data = [b[i * n: (i + 1) * n] for i in range(w.size)]
        else:
            data = None
        data = w.bcast("Scatter", data, (root,), root)
        if recv is not IN_PLACE:
            _Buf(recv, True).put(data[r])

    def Scatterv(self, send, recv, root=0):
        w, r = self.w, self.Get_rank()
        data = None
        if r == root:
            b, counts, displs, sz = self._v(send)
            raw = b.get()
            data = [raw[d * sz: (d + c) * sz] for c, d in zip(counts, displs)]
        data = w.bcast("Scatterv", data, (root,), root)
        if recv is not IN_PLACE:
            _Buf(recv, True).put(data[r])

    # -- point to point (blocking; eager or rendezvous)
    def _post(self, payload, dest, tag):
        w, sim = self.w, self.w.sim
        sim.point("mpi-send")
        if w.dead:
            raise JobAborted()
        m = {"src": self.Get_rank(), "dst": dest, "tag": tag, "data": payload,
             "t": sim.now + w._delay(), "taken": False}
        w.p2p.append(m)
        if sim.d.choose(2):
            w._wait(lambda: m["taken"], "receiver")

    def _take(self, source, tag):
        w, sim = self.w, self.w.sim
        sim.point("mpi-recv")
        me = self.Get_rank()

        def find():
            for m in w.p2p:
                if m["dst"] == me and not m["taken"] and source in (-2, m["src"]) and tag in (-1, m["tag"]):
                    return m
        w._wait(lambda: find() is not None, "message")
        m = find()
        m["taken"] = True
        w._arrive(me, m["t"])
        return m["data"]

    def send(self, obj, dest, tag=0):
        self._post(pickle.dumps(obj), dest, tag)

    def recv(self, buf=None, source=-2, tag=-1, status=None):
        return pickle.loads(self._take(source, tag))

    def Send(self, buf, dest, tag=0):
        self._post(_Buf(buf, False).get(), dest, tag)

    def Recv(self, buf, source=-2, tag=-1, status=None):
        _Buf(buf, True).put(self._take(source, tag))


def make_module():
    pkg = types.ModuleType("mpi4py")
    mpi = types.ModuleType("mpi4py.MPI")
    for n, v in list(globals().items()):
        if isinstance(v, (Datatype, Op)) or n == "IN_PLACE":
            setattr(mpi, n, v)
    mpi.Datatype, mpi.Op, mpi.Comm = Datatype, Op, Comm
    mpi.ANY_SOURCE, mpi.ANY_TAG = -2, -1
    mpi.COMM_WORLD = Comm()
    mpi.Is_initialized = lambda: True
    mpi.Is_finalized = lambda: False
    pkg.MPI = mpi
    pkg.__path__ = []
    return pkg, mpi


def install():
    pkg, mpi = make_module()
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = mpi
