"""The harness-facing API.

A harness is a Python function ``h(c, **params)``.  It declares its inputs
through ``c`` (``c.reals``, ``c.int``...), calls the real MuyGPyS code on them,
and states the property with ``c.eq`` / ``c.check``.  The same harness runs
in two modes:

* symbolic: inputs are solver variables, the code is executed symbolically;
* numeric: inputs are floats (from a solver counterexample or a random draw)
  and the code runs unpatched on the real numpy / torch / MPI.
"""

import math
import random

import numpy as np

from . import arr, core
from .core import Sym, SymBool, lift


class Stop(BaseException):
    """Stop the current path (a violated assumption or enough failures)."""


class Failure:
    def __init__(self, label, detail, cands):
        self.label = label
        self.detail = detail
        self.cands = cands


class Base:
    mode = None

    def __init__(self, backend="numpy"):
        self.backend = backend
        self.failures = []
        self.checks = 0
        self.notes = []

    # helpers written once for both modes -------------------------------
    @property
    def sym(self):
        return self.mode == "sym"

    def pos(self, name, lo=0.2, hi=1.5):
        return self.real(name, lo, hi, pos=True)

    def nonneg(self, name, lo=0.0, hi=1.5):
        return self.real(name, lo, hi, nonneg=True)

    def reals(self, name, shape, lo=-1.0, hi=1.0, pos=False, backend=None):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = self.real(
                name + "".join(f"_{k}" for k in i), lo, hi, pos=pos
            )
        return self.arr(a, backend)

    def features(self, name, n, d, backend=None):
        return self.reals(name, (n, d), backend=backend)

    def eqs(self, pairs, label):
        for k, (a, b) in enumerate(pairs):
            self.eq(a, b, f"{label}[{k}]")

    def eq_known(self, got, good, bad, label, known):
        """got equals good; the recorded deviation to bad has its own label."""
        if not self.same(got, good) and self.same(got, bad):
            label = known
        self.eq(got, good, label)

    def quad(self, k, M, l):
        """k^T M l on raw arrays."""
        n = len(k)
        tot = self.const(0)
        for i in range(n):
            for j in range(n):
                tot = tot + k[i] * M[i, j] * l[j]
        return tot

    def matvec(self, M, v):
        n = M.shape[0]
        return [
            sum((M[i, j] * v[j] for j in range(M.shape[1])), self.const(0))
            for i in range(n)
        ]

    def ok(self, cond, label, detail=""):
        """A concrete (non-symbolic) fact such as a shape or a type."""
        self.check(bool(cond), label, detail)


class SymCtx(Base):
    mode = "sym"

    def __init__(self, ex, backend="numpy", max_failures=2):
        super().__init__(backend)
        self.ex = ex
        self.max_failures = max_failures
        self.inconclusive = []
        self.signs = {}

    # -- inputs ------------------------------------------------------------
    def real(self, name, lo=-1.0, hi=1.0, pos=False, nonneg=False):
        a = core.atom(
            core.VAR, name, None,
            sign="pos" if pos else ("nonneg" if nonneg else None), name=name)
        self.ex.declare(name, "R", lo, hi)
        if pos or nonneg:
            self.signs[name] = pos
        return Sym({((a.id, 1),): 1})

    def int(self, name, lo, hi):
        if lo == hi:
            return lift(lo)
        a = core.atom(core.VAR, name, None, sort="I", name=name,
                      sign="pos" if lo > 0 else ("nonneg" if lo == 0 else None))
        self.ex.declare(name, "I", lo, hi)
        x = Sym({((a.id, 1),): 1})
        self.ex.assume(x >= lo)
        self.ex.assume(x <= hi)
        return x

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def ints(self, name, shape, lo, hi):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = self.int(name + "".join(f"_{k}" for k in i), lo, hi)
        return self.arr(a)

    def arr(self, a, backend=None):
        if (backend or self.backend) == "torch":
            from . import torchshim

            return torchshim.tensor(a)
        return arr.symarray(a)

    def raw(self, x):
        """Plain object ndarray of scalars (or the scalar itself)."""
        if isinstance(x, (Sym, SymBool)):
            return x
        if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
            b = arr.obj(x)
            r = np.empty(b.shape, dtype=object)
            for i in np.ndindex(*b.shape):
                e = b[i]
                r[i] = e if isinstance(e, (Sym, SymBool, bool)) else lift(
                    e) if not (isinstance(e, float) and not math.isfinite(e)
                               ) else e
            return r if r.ndim else r[()]
        return x

    def const(self, v):
        return lift(v)

    # -- scalar functions ----------------------------------------------------
    def sqrt(self, x):
        return core.sqrt(lift(x))

    def exp(self, x):
        return core.exp(x)

    def log(self, x):
        return core.log(x)

    def abs(self, x):
        return abs(lift(x))

    def max(self, a, b):
        return arr.e_max(a, b)

    def min(self, a, b):
        return arr.e_min(a, b)

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def uf(self, name, *args):
        from . import special

        return getattr(special, name)(*args)

    def inv(self, A):
        return arr.obj(arr.inverse(arr.obj(A)))

    def solve(self, A, b):
        return arr.matmul(self.inv(A), b)

    def det(self, A):
        n = len(A)
        return core.det([[lift(A[i][j]) for j in range(n)] for i in range(n)])

    def And(self, *a):
        return core.band(*a)

    def Or(self, *a):
        return core.bor(*a)

    def Not(self, a):
        return core.bnot(a)

    def implies(self, a, b):
        return core.bor(core.bnot(a), b)

    def branch(self, cond):
        return bool(cond)

    # -- several ranks --------------------------------------------------------
    def spmd(self, body):
        """Results of body(rank) of every rank."""
        from . import mpishim

        return mpishim.World(mpishim._SIZE[0]).run(body)

    # -- assumptions and goals ------------------------------------------------
    def assume(self, cond):
        self.ex.assume(cond)

    def check(self, cond, label, detail=""):
        self.checks += 1
        if self.ex.deadline:
            import time

            if time.time() > self.ex.deadline:
                raise core.PathLimit("time limit")
        cond = core._b(cond)
        verdict, model = self.ex.decide(cond)
        if verdict == "unsat":
            self.ex.add(cond) if cond is not True else None
            return
        neg = core.bnot(cond)
        cands = self.candidates(
            lambda env: 1.0 if core.eval_bool(neg, env) else 0.0, model,
            conds=core.conds_bool(cond, set(), []),
        )
        self.report(label, detail or f"{cond!r}"[:300], verdict, cands)

    def eq(self, a, b, label, tol=None):
        """a and b agree elementwise (shapes included)."""
        self.checks += 1
        ra, rb = self.raw(a), self.raw(b)
        sa, sb = np.shape(ra), np.shape(rb)
        if sa != sb:
            # 0-d versus (1,) counts as a difference
            self.report(label, f"shape {sa} instead of {sb}", "sat",
                        self.candidates(lambda env: 1.0, None))
            return
        fa = list(ra.flat) if isinstance(ra, np.ndarray) else [ra]
        fb = list(rb.flat) if isinstance(rb, np.ndarray) else [rb]
        bad, apart = [], False
        for x, y in zip(fa, fb):
            if isinstance(x, (SymBool, bool, np.bool_)) or isinstance(
                y, (SymBool, bool, np.bool_)
            ):
                g = arr._rel(x, y, "==") if arr._isb(x) and arr._isb(y) else (
                    lift(x) == lift(y))
                if g is not True:
                    bad.append((g, None))
                continue
            if any(isinstance(v, float) and not math.isfinite(v)
                   for v in (x, y)):
                bad.append((x == y, None))
                continue
            d = core.padd(lift(x).p, lift(y).p, -1)
            if not d:
                self.ex.stats["normal_form"] += 1
                continue
            far = self.apart(lift(x), lift(y), d)
            apart = apart or far
            if not far and core.is_zero(d) or tiny(d, lift(x).p, lift(y).p):
                self.ex.stats["normal_form"] += 1
                continue
            bad.append((core.cmp0("==", d), (lift(x), lift(y), d)))
        if not bad:
            # every difference normalises to zero: hand the solver the
            # residual query on the normalised terms
            self.ex.confirm(zip(fa, fb))
            return
        goal = core.band(*[g for g, _ in bad])
        verdict, model = self.ex.decide(goal, 1500 if apart else None)
        if verdict == "unsat":
            return

        def score(env):
            w = 0.0
            for g, t in bad:
                if t is None:
                    if not (core.eval_bool(g, env) if isinstance(g, SymBool)
                            else g):
                        w = max(w, 1.0)
                    continue
                x = core.eval_poly(t[0].p, env)
                y = core.eval_poly(t[1].p, env)
                if x != x or y != y:
                    continue
                w = max(w, abs(x - y) / (1e-3 + abs(x) + abs(y)))
            return w if w > 1e-7 else 0.0

        self.report(label, f"{len(bad)} of {len(fa)} entries differ",
                    verdict, self.candidates(score, model, conds=[
                        q for _, t in bad if t is not None
                        for q in core.conds_poly(t[2], set(), [])]))

    def same(self, a, b):
        """Whether a and b have one normal form (no goal is stated)."""
        ra, rb = np.array(self.raw(a), dtype=object), np.array(
            self.raw(b), dtype=object)
        if ra.shape != rb.shape:
            return False
        for x, y in zip(ra.flat, rb.flat):
            d = core.padd(lift(x).p, lift(y).p, -1)
            if d and (self.apart(lift(x), lift(y), d) or not core.is_zero(d)):
                return False
        return True

    def apart(self, x, y, d):
        """Random evaluations clearly separate x and y (not a proof)."""
        n = 0
        for _ in range(3):
            env = core.NumEnv({v: self.ex.draw(v) for v in self.ex.vars})
            try:
                u = core.eval_poly(x.p, env)
                v = core.eval_poly(y.p, env)
                if abs(u - v) > 1e-3 * (1e-3 + abs(u) + abs(v)):
                    n += 1
            except Exception:
                pass
        return n >= 2

    def raises(self, fn, exc, label):
        """fn() raises one of exc."""
        self.checks += 1
        try:
            fn()
        except exc:
            self.ex.decide(True)
            return
        self.report(label, "no exception", "sat",
                    self.candidates(lambda env: 1.0, None))

    def guided(self, model, conds):
        """Models of both sides of the case distinctions in the goal, and
        variations of them."""
        base = [model] if model is not None else []
        seen = set()
        for q in conds:
            if q.key in seen or len(seen) > 8:
                continue
            seen.add(q.key)
            for side in (q, core.bnot(q)):
                try:
                    e = self.ex.model([side])
                except Exception:
                    e = None
                if e is not None:
                    base.append(e)
        for e in list(base):  # the signless inputs all zero
            e = core.NumEnv(dict(e))
            for v in self.ex.vars:
                if v not in self.signs and self.ex.vars[v][0] == "R":
                    e[v] = 0.0
            base.append(e)
        out = []
        for e in base:
            out.append(e)
            for v in [v for v in self.ex.vars if v in e]:
                if self.ex.vars[v][0] == "I" or len(out) > 1500:
                    continue
                for f in (0.5, 0.03, 1e-4, 3.0, 40.0, 0.0):
                    e2 = core.NumEnv(dict(e))
                    e2[v] = e[v] * f
                    out.append(e2)
        return out

    def candidates(self, score, model, n=6, conds=()):
        """Concrete inputs on this path, worst first."""
        envs = []
        if model is not None:
            envs.append(model)
        if model is not None or conds:
            envs += self.guided(model, conds)[1 if model is not None else 0:]
        envs += list(self.ex._samples)
        for _ in range(150):
            e = core.NumEnv({v: self.ex.draw(v) for v in self.ex.vars})
            envs.append(e)
        out = []
        for k, e in enumerate(envs):
            for v in self.ex.vars:
                if v not in e:
                    e[v] = self.ex.draw(v)
            e = core.NumEnv(dict(e))
            if any(e[v] < 0 or p and e[v] == 0
                   for v, p in self.signs.items() if v in e):
                continue
            if not all(self.ex.holds(c, e) for c in self.ex.pc):
                if not (k == 0 and model is not None):
                    continue
            try:
                s = score(e)
            except Exception:
                s = 0.0
            if s > 0 or (k == 0 and model is not None):
                out.append((s, dict(e)))
        out.sort(key=lambda t: -t[0])
        return [e for _, e in out[:n]]

    def report(self, label, detail, verdict, cands):
        f = Failure(label, f"{detail} [{verdict}]", cands)
        self.failures.append(f)
        if len(self.failures) >= self.max_failures:
            raise Stop()


def tiny(d, p, q):
    """Differences below the reading precision of float literals."""
    m = max([abs(float(c)) for c in p.values()] +
            [abs(float(c)) for c in q.values()] + [0.0])
    return all(abs(float(c)) <= 1e-10 * m for c in d.values())


class CheckFailed(Exception):
    pass


class AssumeFailed(BaseException):
    pass


class NumCtx(Base):
    mode = "num"

    def __init__(self, backend="numpy", assign=None, seed=1):
        super().__init__(backend)
        self.assign = dict(assign or {})
        self.rng = random.Random(seed)
        self.used = {}
        self.trace = []

    def _get(self, name, draw):
        if name in self.used:
            return self.used[name]
        v = self.assign.get(name)
        if v is None:
            v = draw()
        self.used[name] = v
        return v

    def real(self, name, lo=-1.0, hi=1.0, pos=False, nonneg=False):
        v = float(self._get(
            name, lambda: lo + (hi - lo) * self.rng.randint(1, 4095) / 4096.0
        ))
        if pos and v <= 0 or nonneg and v < 0:
            raise AssumeFailed()
        return v

    def int(self, name, lo, hi):
        v = int(self._get(name, lambda: self.rng.randint(lo, hi)))
        if not lo <= v <= hi:
            raise AssumeFailed()
        return v

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def ints(self, name, shape, lo, hi):
        a = np.empty(shape, dtype=np.int64)
        for i in np.ndindex(*a.shape):
            a[i] = self.int(name + "".join(f"_{k}" for k in i), lo, hi)
        return self.arr(a)

    def arr(self, a, backend=None):
        a = np.array(a if not isinstance(a, np.ndarray) or a.dtype != object
                     else a.tolist())
        if a.dtype.kind == "O":
            a = a.astype(float)
        if (backend or self.backend) == "torch":
            import torch

            return torch.tensor(a)
        return a

    def raw(self, x):
        if hasattr(x, "detach"):
            x = x.detach().cpu().numpy()
        if isinstance(x, (list, tuple)):
            return np.array([self.raw(e) for e in x])
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return x[()]
        return x

    def const(self, v):
        return v

    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def abs(self, x):
        return abs(x)

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def ite(self, c, a, b):
        return a if c else b

    def uf(self, name, *args):
        import scipy.special

        return float(getattr(scipy.special, name)(*args))

    def inv(self, A):
        return np.linalg.inv(np.array(A, dtype=float))

    def solve(self, A, b):
        return np.matmul(self.inv(A), np.array(b, dtype=float))

    def det(self, A):
        return float(np.linalg.det(np.array(A, dtype=float)))

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not bool(a)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def branch(self, cond):
        return bool(cond)

    def spmd(self, body):
        from . import mpinum

        return mpinum.spmd(body)

    def assume(self, cond):
        if not bool(cond):
            raise AssumeFailed()

    def check(self, cond, label, detail=""):
        self.checks += 1
        if not bool(cond):
            self.failures.append(Failure(label, detail or "false", []))

    def eq(self, a, b, label, tol=None):
        self.checks += 1
        a, b = self.raw(a), self.raw(b)
        a = np.asarray(a)
        b = np.asarray(b)
        if a.dtype == object or b.dtype == object:
            try:
                a, b = a.astype(float), b.astype(float)
            except (TypeError, ValueError):
                pass
        if a.shape != b.shape:
            self.failures.append(
                Failure(label, f"shape {a.shape} instead of {b.shape}", []))
            return
        rt = tol or (2e-5 if self.backend == "torch" else 1e-6)
        if a.dtype.kind in "fiu" and b.dtype.kind in "fiu":
            good = np.isclose(a.astype(float), b.astype(float), rtol=rt,
                              atol=rt * 1e-1, equal_nan=False)
            if not np.all(good):
                self.failures.append(Failure(
                    label,
                    f"got {np.array2string(a.ravel()[:8], precision=8)} "
                    f"expected {np.array2string(b.ravel()[:8], precision=8)}",
                    []))
        elif not np.array_equal(a, b):
            self.failures.append(Failure(label, f"{a!r} != {b!r}"[:300], []))

    def same(self, a, b):
        a, b = np.asarray(self.raw(a)), np.asarray(self.raw(b))
        return a.shape == b.shape and bool(np.all(np.isclose(
            a.astype(float), b.astype(float), rtol=1e-6, atol=1e-9)))

    def raises(self, fn, exc, label):
        self.checks += 1
        try:
            fn()
        except exc:
            return
        self.failures.append(Failure(label, "no exception", []))
