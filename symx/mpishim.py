"""A stand-in for mpi4py: P ranks as threads of one symbolic run.

Every rank has its own copy of the modules of the package.  One rank runs at
a time and hands over when it blocks in a communication call, so that a
symbolic path visits the ranks in a fixed order.  All receives name their
source (anything else is refused), hence the messages a rank sees do not
depend on the schedule.  ``send`` is a rendezvous: it returns only once the
message has been received, the stricter reading of the standard.
"""

import copy
import sys
import threading
import types

import numpy as np

from . import core

_W = None  # the running world
_RANK = [0]
_SIZE = [1]


class Deadlock(Exception):
    pass


class Abandoned(BaseException):
    pass


def _isours(n):
    return n == "MuyGPyS" or n.startswith("MuyGPyS.")


def clone(x):
    """What arrives after pickling."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(clone(e) for e in x)
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, (core.Sym, core.SymBool)) or x is None:
        return x
    return copy.deepcopy(x)


class Op:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __call__(self, a, b):
        return self.fn(a, b)


def _mx(a, b):
    from . import arr

    return arr.e_max(a, b)


def _mn(a, b):
    from . import arr

    return arr.e_min(a, b)


SUM = Op("SUM", lambda a, b: a + b)
PROD = Op("PROD", lambda a, b: a * b)
MAX = Op("MAX", _mx)
MIN = Op("MIN", _mn)


class Comm:
    """The calls of the lower-case (pickling) interface."""

    def __init__(self, *a):
        pass

    def Get_rank(self):
        return _RANK[0]

    def Get_size(self):
        return _SIZE[0]

    rank = property(Get_rank)
    size = property(Get_size)

    def _w(self):
        if _W is None:
            raise core.Unsupported("communication outside of the ranks")
        return _W

    def send(self, obj, dest, tag=0):
        self._w().send(clone(obj), dest, tag)

    def recv(self, buf=None, source=None, tag=0, status=None):
        if source is None or not 0 <= source < _SIZE[0]:
            raise core.Unsupported("receive from an unnamed source")
        return self._w().recv(source, tag)

    def _all(self, kind, obj, **key):
        return self._w().collective(kind, clone(obj), key)

    def bcast(self, obj=None, root=0):
        return clone(self._all("bcast", obj, root=root)[root])

    def gather(self, sendobj, root=0):
        r = self._all("gather", sendobj, root=root)
        return clone(r) if _RANK[0] == root else None

    def allgather(self, sendobj):
        return clone(self._all("allgather", sendobj))

    def scatter(self, sendobj=None, root=0):
        r = self._all("scatter", sendobj, root=root)[root]
        if r is None or len(r) != _SIZE[0]:
            raise ValueError("scatter needs one object per rank")
        return clone(r[_RANK[0]])

    def alltoall(self, sendobj):
        r = self._all("alltoall", sendobj)
        return [clone(x[_RANK[0]]) for x in r]

    def _fold(self, vals, op):
        t = clone(vals[0])
        for v in vals[1:]:
            t = op(t, v)
        return t

    def reduce(self, sendobj, op=SUM, root=0):
        r = self._all("reduce", sendobj, op=op.name, root=root)
        return self._fold(r, op) if _RANK[0] == root else None

    def allreduce(self, sendobj, op=SUM):
        return self._fold(self._all("allreduce", sendobj, op=op.name), op)

    def barrier(self):
        self._all("barrier", None)

    Barrier = barrier


class World:
    def __init__(self, size):
        self.size = size
        self.cv = threading.Condition()
        self.turn = 0
        self.state = ["ready"] * size
        self.out = [None] * size
        self.exc = [None] * size
        self.boxes = {}  # (src, dst, tag) -> list of messages
        self.coll = [0] * size  # collectives entered per rank
        self.calls = {}  # number of the collective -> {rank: (sig, obj)}
        self.abandon = False
        self.trace = []

    # -- scheduling ------------------------------------------------------
    def block(self, ready):
        """Hand over until ready() holds."""
        me = _RANK[0]
        while not ready():
            self.state[me] = ready
            self._next()
            self._wait(me)
        self.state[me] = "ready"

    def _runnable(self, r):
        s = self.state[r]
        return s == "ready" or (callable(s) and s())

    def _next(self):
        n = self.size
        cur = self.turn
        for k in range(1, n + 1):
            r = (cur + k) % n
            if self._runnable(r):
                self.turn = r
                self.cv.notify_all()
                return
        if any(s != "done" for s in self.state):
            self.abandon = True
        self.turn = -1
        self.cv.notify_all()

    def _wait(self, me):
        while self.turn != me:
            if self.abandon:
                raise Abandoned()
            self.cv.wait()
        if self.abandon:
            raise Abandoned()
        self._enter(me)

    def _enter(self, me):
        _RANK[0] = me
        for n in [n for n in sys.modules if _isours(n)]:
            del sys.modules[n]
        sys.modules.update(MODS[me])

    def _leave(self, me):
        MODS[me] = {n: m for n, m in sys.modules.items() if _isours(n)}

    # -- messages --------------------------------------------------------
    def send(self, obj, dest, tag):
        me = _RANK[0]
        if not 0 <= dest < self.size or dest == me:
            raise ValueError(f"bad destination {dest}")
        cell = [obj, False]
        self.boxes.setdefault((me, dest, tag), []).append(cell)
        self.block(lambda: cell[1])

    def recv(self, src, tag):
        me = _RANK[0]
        box = self.boxes.setdefault((src, me, tag), [])
        self.block(lambda: bool(box))
        cell = box.pop(0)
        cell[1] = True
        return cell[0]

    def collective(self, kind, obj, key):
        me = _RANK[0]
        k = self.coll[me]
        self.coll[me] += 1
        slot = self.calls.setdefault(k, {})
        sig = (kind, tuple(sorted(key.items())))
        slot[me] = (sig, obj)
        self.block(lambda: len(slot) == self.size)
        sigs = {s for s, _ in slot.values()}
        if len(sigs) > 1:
            raise RuntimeError(f"ranks disagree on the collective: {sigs}")
        return [slot[r][1] for r in range(self.size)]

    # -- running ---------------------------------------------------------
    def run(self, body):
        global _W
        _W = self

        def main(me):
            with self.cv:
                try:
                    self._wait(me)
                    self.out[me] = body(me)
                except Abandoned:
                    pass
                except BaseException as e:
                    self.exc[me] = e
                    if not isinstance(e, Exception):
                        self.abandon = True
                self.state[me] = "done"
                if not self.abandon:
                    self._next()
                else:
                    self.cv.notify_all()

        threading.stack_size(256 * 1024 * 1024)
        ts = [threading.Thread(target=main, args=(r,))
              for r in range(self.size)]
        with self.cv:
            self.turn = 0
            for t in ts:
                t.start()
        for t in ts:
            t.join()
        _W = None
        _RANK[0] = 0
        self._enter(0)
        for e in self.exc:
            if e is not None and not isinstance(e, Exception):
                raise e
        for e in self.exc:
            if isinstance(e, (core.Unsupported, core.Infeasible)):
                raise e
        for e in self.exc:
            if e is not None:
                raise e
        if self.abandon:
            raise Deadlock("the ranks block each other: " + ", ".join(
                f"rank {r} {'ended' if s == 'done' else 'waits'}"
                for r, s in enumerate(self.state)))
        left = [k for k, b in self.boxes.items() if b]
        if left:
            raise Deadlock(f"messages never received: {left}")
        return self.out


MODS = {}


def load_ranks(size, loader):
    """One copy of the package per rank."""
    MODS.clear()
    _SIZE[0] = size
    for r in range(size):
        loader.unload()
        _RANK[0] = r
        loader.load()
        MODS[r] = {n: m for n, m in sys.modules.items() if _isours(n)}
    _RANK[0] = 0
    loader.unload()
    sys.modules.update(MODS[0])


def modules():
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = Comm()
    mpi.Intracomm = Comm
    mpi.SUM, mpi.PROD, mpi.MAX, mpi.MIN = SUM, PROD, MAX, MIN
    pkl5 = types.ModuleType("mpi4py.util.pkl5")
    pkl5.Intracomm = Comm
    util = types.ModuleType("mpi4py.util")
    util.pkl5 = pkl5
    util.__path__ = []
    top = types.ModuleType("mpi4py")
    top.__path__ = []
    top.MPI = mpi
    top.util = util
    return {"mpi4py": top, "mpi4py.MPI": mpi, "mpi4py.util": util,
            "mpi4py.util.pkl5": pkl5}
