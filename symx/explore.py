"""Path exploration and solver queries."""

import random
import time

from . import core
from .core import (
    NumEnv, Infeasible, PathLimit, SymBool, band, bnot, eval_bool, eval_poly,
    lift, z3,
)


class Stats(dict):
    def __init__(self):
        super().__init__(queries=0, unsat=0, sat=0, unknown=0, feas=0,
                         solver_s=0.0, normal_form=0,
                         solver_identity=0, normalised_only=0)


class Explorer:
    """Depth-first re-execution over the feasible branch decisions."""

    def __init__(self, seed=1, nsamples=24, max_paths=600, timeout_ms=8000,
                 feas_ms=1500):
        self.rng = random.Random(seed)
        self.nsamples = nsamples
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.feas_ms = feas_ms
        self.stats = Stats()
        self.missed = 0
        self._vars = {}
        self.vars = {}  # name -> (sort, domain)
        self.stack = []  # pending prefixes
        self.paths = 0
        self.deadline = None

    # -- running ---------------------------------------------------------
    def explore(self, fn):
        """Run fn once per feasible path; yields (outcome) per path."""
        pending = [()]
        while pending:
            if self.paths >= self.max_paths:
                raise PathLimit(f"more than {self.max_paths} paths")
            if self.deadline and time.time() > self.deadline:
                raise PathLimit("time limit")
            self.prefix = pending.pop()
            self.pos = 0
            self.decisions = []
            self.alts = []
            self.pc = []  # assumed/decided conditions (SymBool)
            self.pckeys = {}
            self.domains = []
            self._samples = [NumEnv() for _ in range(self.nsamples)]
            self._dead = 0
            core.set_explorer(self)
            try:
                res = fn()
                status = "ok"
            except Infeasible:
                res, status = None, "infeasible"
            finally:
                core.set_explorer(None)
            self.paths += 1
            for a in self.alts:
                pending.append(a)
            yield status, res

    # -- variables and samples --------------------------------------------
    def declare(self, name, sort, lo, hi):
        if name not in self.vars:
            self.vars[name] = (sort, lo, hi)
        for s in self._samples:
            if name not in s:
                s[name] = self.draw(name)

    def draw(self, name, rng=None):
        sort, lo, hi = self.vars[name]
        rng = rng or self.rng
        if sort == "I":
            return rng.randint(lo, hi)
        # dyadic values keep replay exact
        return lo + (hi - lo) * rng.randint(1, 4095) / 4096.0

    def filter(self, cond):
        self._samples = [s for s in self._samples if self.holds(cond, s)]

    def holds(self, cond, env):
        try:
            return eval_bool(cond, env)
        except (ArithmeticError, ValueError, KeyError, OverflowError,
                ImportError):
            return False
        except Exception as e:  # singular matrices
            if type(e).__name__ == "LinAlgError":
                return False
            raise

    # -- assumptions -------------------------------------------------------
    def add(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        if cond.key in self.pckeys:
            if not self.pckeys[cond.key]:
                raise Infeasible()
            return
        self.pckeys[cond.key] = True
        self.pckeys[bnot(cond).key] = False
        self.pc.append(cond)
        self.filter(cond)

    def assume(self, cond):
        """Assume; abandons the path when infeasible."""
        cond = core._b(cond)
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        self.add(cond)
        if not self._samples and not self.refill():
            if self.check_sat([], self.feas_ms) == "unsat":
                raise Infeasible()

    def domain(self, cond, why):
        """Definedness side condition (recorded as an assumption)."""
        if cond is True:
            return True
        if cond is False:
            return False
        if cond.key in self.pckeys:
            return self.pckeys[cond.key]
        self.domains.append(why)
        self.add(cond)
        return True

    # -- branching -----------------------------------------------------------
    # A decision list records, in order, every choice made on the path:
    # ("b", value, forced) for branches and ("v", value) for the candidate
    # values tried by ``concretize``; a re-execution replays its prefix.
    def _next(self, kind):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != kind:
                raise core.Unsupported("non-deterministic re-execution")
            self.pos += 1
            self.decisions.append(d)
            return d
        return None

    def _push(self, d):
        self.decisions.append(d)

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        k = self.pckeys.get(cond.key)
        if k is not None:
            return k
        d = self._next("b")
        if d is None:
            t = any(self.holds(cond, s) for s in self._samples)
            f = any(self.holds(bnot(cond), s) for s in self._samples)
            if not t:
                t = self.check_sat([cond], self.feas_ms) != "unsat"
            if not f:
                f = self.check_sat([bnot(cond)], self.feas_ms) != "unsat"
            if not t and not f:
                raise Infeasible()
            d = ("b", t, not (t and f))
            if t and f:
                self.alts.append(tuple(self.decisions) + (("b", False, False),))
            self._push(d)
        if d[2]:  # forced: implied by the path condition
            self.pckeys[cond.key] = d[1]
            self.pckeys[bnot(cond).key] = not d[1]
        else:
            self.add(cond if d[1] else bnot(cond))
        return d[1]

    def concretize(self, x, cap=64):
        for _ in range(cap):
            d = self._next("v")
            if d is None:
                v = None
                for s in self._samples:
                    try:
                        v = int(round(eval_poly(x.p, s)))
                        break
                    except Exception:
                        continue
                if v is None:
                    m = self.model([])
                    if m is None:
                        raise Infeasible()
                    v = int(round(eval_poly(x.p, m)))
                d = ("v", v)
                self._push(d)
            if self.branch(x == d[1]):
                return d[1]
        raise PathLimit("too many values to concretise")

    # -- solver ----------------------------------------------------------------
    def solver(self, conds, timeout):
        atoms = set()
        fs = [core.bool_z3(c, atoms) for c in conds]
        ax = core.axioms(atoms)
        s = z3.Solver()
        s.set("timeout", int(timeout))
        for f in ax:
            s.add(f)
        for f in fs:
            s.add(f)
        return s

    def vars_of(self, b):
        v = self._vars.get(b.key)
        if v is None:
            v = self._vars[b.key] = frozenset(
                a.id for a in core.free_vars_bool(b))
        return v

    def near(self, conds):
        """Refuted by the part of the path condition on its own inputs."""
        conds = [c for c in conds if isinstance(c, SymBool)]
        if not conds:
            return False
        vs = frozenset().union(*[self.vars_of(c) for c in conds])
        part = [c for c in self.pc if self.vars_of(c) <= vs]
        if not part or len(part) == len(self.pc):
            return False
        s = self.solver(part + conds, 400)
        t = time.time()
        r = s.check()
        self.stats["feas"] += 1
        self.stats["solver_s"] += time.time() - t
        return r == z3.unsat

    def linear(self, conds):
        """Refuted with every product of atoms taken as a variable of its
        own (weaker than the full constraints, hence sound)."""
        conds = [c for c in conds if isinstance(c, SymBool)]
        if not conds or not self.pc:
            return False
        mono = {}
        fs = [core.linear_z3(c, mono) for c in self.pc + conds]
        s = z3.Solver()
        s.set("timeout", 400)
        for m, (z, nonneg) in mono.items():
            if nonneg:
                s.add(z >= 0)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.stats["feas"] += 1
        self.stats["solver_s"] += time.time() - t
        return r == z3.unsat

    def check_sat(self, extra, timeout=None):
        if self.linear(extra) or self.near(extra):
            return "unsat"
        s = self.solver(self.pc + list(extra), timeout or self.timeout_ms)
        t = time.time()
        r = s.check()
        self.stats["feas"] += 1
        self.stats["solver_s"] += time.time() - t
        if r == z3.sat:
            try:
                m = self.env_of(s.model())
                if all(self.holds(c, m) for c in self.pc):
                    self._samples.append(m)
            except Exception:
                pass
        return str(r)

    def env_of(self, m):
        env = NumEnv()
        for n, (sort, lo, hi) in self.vars.items():
            z = (z3.Int if sort == "I" else z3.Real)(n)
            v = m.eval(z, model_completion=False)
            if z3.is_int_value(v):
                env[n] = v.as_long()
            elif z3.is_rational_value(v):
                env[n] = float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                env[n] = float(v.approx(20).as_fraction())
            else:
                env[n] = self.draw(n)
        return env

    def model(self, extra):
        s = self.solver(self.pc + list(extra), self.timeout_ms)
        t = time.time()
        r = s.check()
        self.stats["feas"] += 1
        self.stats["solver_s"] += time.time() - t
        if r != z3.sat:
            return None
        return self.env_of(s.model())

    def refill(self, n=200):
        out = []
        for _ in range(n):
            e = NumEnv({v: self.draw(v) for v in self.vars})
            if all(self.holds(c, e) for c in self.pc):
                out.append(e)
                if len(out) >= 6:
                    break
        self._samples.extend(out)
        return bool(out)

    def decide(self, goal, timeout=None):
        """Is goal implied by the path condition?  -> (verdict, model env)."""
        self.stats["queries"] += 1
        g = bnot(goal)
        if isinstance(goal, SymBool) and self.pckeys.get(goal.key) or (
                self.linear([g]) or self.near([g])):
            self.stats["unsat"] += 1
            return "unsat", None
        s = self.solver(self.pc + ([] if isinstance(g, bool) else [g]),
                        timeout or self.timeout_ms)
        if isinstance(g, bool):
            s.add(z3.BoolVal(g))
        t = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        self.stats[str(r)] += 1
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", self.env_of(s.model())
        return "unknown", None

    def confirm(self, pairs):
        """Hand equalities closed by normalisation to the solver as well.

        Pairs with one normal form are given as they are; for pairs that
        needed denominators cleared the solver gets the difference itself,
        with the defining axioms of its atoms, for a short time.  What it
        closes is counted as solver_identity, the rest as normalised_only.
        """
        atoms, eqs, hard = set(), [], []
        for x, y in pairs:
            if not (isinstance(x, core.Sym) and isinstance(y, core.Sym)):
                continue
            if core.pkey(x.p) == core.pkey(y.p):
                if len(x.p) <= 60:
                    eqs.append(
                        core.to_z3(x.p, atoms) == core.to_z3(y.p, atoms))
            else:
                hard.append(core.padd(x.p, y.p, -1))
        self.stats["queries"] += 1
        s = z3.Solver()
        s.set("timeout", int(self.timeout_ms))
        s.add(z3.Not(z3.And(*eqs)) if eqs else z3.BoolVal(False))
        t = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        self.stats[str(r)] += 1
        if r == z3.sat:
            raise core.Unsupported("normal form and solver disagree")
        for d in hard:
            if self.missed >= 2 or len(d) > 400:
                self.stats["normalised_only"] += 1
                continue
            s = self.solver([core.cmp0("!=", d)], 250)
            t = time.time()
            r = s.check()
            self.stats["queries"] += 1
            self.stats["solver_s"] += time.time() - t
            if r == z3.unsat:
                self.stats["unsat"] += 1
                self.stats["solver_identity"] += 1
            else:
                self.missed += 1
                self.stats["normalised_only"] += 1
