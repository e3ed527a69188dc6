"""C20: mini-batch optimization fits each epoch's batch and neighborhoods."""

from types import SimpleNamespace

import numpy as np

from symx import stubs
from symx.registry import case

from .c09 import Build, frozen, loss_value, names
from .c10 import BND, lossf, num1, verify
from .c16 import Choice
from .common import M, idx, num, one_value

SETS = [
    dict(kind="rbf", d=1, opt="ln", aniso=False),
    dict(kind="rbf", d=2, opt="01", aniso=True),
    dict(kind="m05", d=2, opt="0", aniso=True),
    dict(kind="rbf", d=2, opt="n", aniso=True),
    dict(kind="m15", d=1, opt="l", aniso=False),
]
RUNS = [dict(epochs=e, keep=k, previous=p) for e, k, p in (
    (1, False, False), (2, False, False), (2, True, False), (2, False, True),
    (2, True, True))]


class Batches(Choice):
    """Some answer numpy.random.choice documents, another one each time."""

    def pick(self, m):
        return (2 * next(self.n) + 1) % m


class Search:
    """Exact search; the neighbors of a point depend on what was indexed."""

    def __init__(self, c, t):
        self.c, self.t = c, t
        self.fits = []
        me = self

        class Exact:
            def __init__(self, n_neighbors=5, metric="minkowski", p=2, **kw):
                self.n_neighbors, self.metric, self.p = n_neighbors, metric, p

            def fit(self, X):
                self.number = len(me.fits)
                X = np.asarray(c.raw(X))
                me.fits.append([list(r) for r in X])
                return self

            def kneighbors(self, X=None, n_neighbors=None,
                           return_distance=True):
                n = n_neighbors or self.n_neighbors
                rows = me.fits[self.number]
                idx, dist = [], []
                for x in np.asarray(c.raw(X)):
                    i = me.which(list(x), rows)
                    idx.append([i] + me.near(self.number, i, n - 1))
                    dist.append([float(k) for k in range(n)])
                ia = np.array(idx, dtype=np.int64)
                return (np.array(dist), ia) if return_distance else ia

        stubs.patch(c, "NearestNeighbors", Exact)

    def which(self, x, rows):
        c = self.c
        hit = [i for i, r in enumerate(rows)
               if all(c.same(a, b) for a, b in zip(x, r))]
        c.ok(len(hit) == 1, "queries are indexed points", str(hit))
        return hit[0] if hit else 0

    def near(self, number, i, n):
        o = [(i + 1 + k) % self.t for k in range(self.t - 1)]
        o = o[number % len(o):] + o[:number % len(o)]
        return o[:n]


def bayes(c, log, opt):
    """An optimizer that evaluates its probes and one other point in every
    run, and reports any of those it has evaluated as the best."""

    class Bayes:
        def __init__(self, f=None, pbounds=None, **kw):
            self._space = SimpleNamespace(target_func=f)
            self.queue, self.max = [], None
            log.made.append(kw)
            c.ok(sorted(pbounds) == sorted(opt), "bounded parameters",
                 str(sorted(pbounds)))
            for q in opt:
                lo, hi = pbounds[q]
                c.eq(num1(c, lo), BND[q][0], f"lower bound of {q}")
                c.eq(num1(c, hi), BND[q][1], f"upper bound of {q}")

        def probe(self, params, lazy=True):
            p = dict(params)
            c.ok(sorted(p) == sorted(opt), "probed parameters", str(sorted(p)))
            self.queue.append(p)

        def maximize(self, init_points=None, n_iter=None, **kw):
            e = len(log.runs)
            run = SimpleNamespace(counts=(init_points, n_iter), optimizer=self,
                                  probes=self.queue, values=[])
            log.runs.append(run)
            self.queue = []
            new = {q: c.pos(f"try{e}_{q}", *(
                (0.2, 2.9) if q != "noise" else (0.01, 0.6))) for q in opt}
            for q in opt:
                c.assume(new[q] >= BND[q][0])
                c.assume(new[q] <= BND[q][1])
            run.points = run.probes + [new]
            for j, p in enumerate(run.points):
                f = one_value(c, self._space.target_func(**p))
                run.values.append(f)
                if self.max is None or c.branch(
                        c.bool(f"better{e}_{j}")):
                    self.max = dict(target=f, params=dict(p))
            run.best = self.max["params"]

    stubs.patch(c, "BayesianOptimization", Bayes)


def go(c, s, epochs, keep, previous, t, b, n, loss, scale, r=0, **kw):
    from MuyGPyS.optimize.experimental.chassis import (
        optimize_from_tensors_mini_batch as fit)

    m = M()
    opt = names(s["opt"])
    d = s["d"]
    bd = Build(c, m, s["kind"], d, opt, "homo", scale, s["aniso"], bnd=BND)
    before = dict(frozen(c, bd.gp))
    X = c.reals("X", (t, d))
    # analytic scales of zero targets are refused (C06)
    pos = scale == "analytic"
    y = c.reals("y", (t, r) if r else (t,), 0.2 if pos else -1.0, pos=pos)
    RX = c.raw(X)
    Y = np.array(c.raw(y), dtype=object).reshape(t, max(r, 1))
    log = SimpleNamespace(made=[], runs=[])
    look, ran = Search(c, t), Batches(c)
    picked = []
    choose = ran.choice

    def choice(*a, **k):
        picked.append(choose(*a, **k))
        return picked[-1]

    stubs.patch(c, "random.choice", choice)
    stubs.patch(c, "random.permutation", lambda a: choice(
        a, a if np.ndim(a) == 0 else len(a), replace=False))
    bayes(c, log, opt)
    nu, lookup, time, probes, steps = fit(
        bd.gp, X, y, n, b, t, num_epochs=epochs, keep_state=keep,
        probe_previous=previous, loss_fn=lossf(loss), **kw)
    c.ok(len(log.runs) == epochs, "one run per epoch", str(len(log.runs)))
    p0, i0 = kw.get("init_points", 5), kw.get("n_iter", 20)
    c.ok(steps == epochs * i0, "optimization steps", str(steps))
    c.ok(probes == epochs * p0 + sum(len(q.probes) for q in log.runs),
         "points probed", str(probes))
    known = [{q: bd.stored[q] for q in opt}]
    picks, fits, number = iter(picked), 0, 0
    bests = []
    for e, run in enumerate(log.runs):
        c.ok(run.counts == (p0, i0), "points and iterations", str(run.counts))
        want = known if previous else known[:1] if e == 0 else []
        c.ok(len(run.probes) == len(want), f"probes in epoch {e}",
             str(len(run.probes)))
        for p, q in zip(run.probes, want):
            for k in opt:
                c.eq(one_value(c, p[k]), q[k], f"probed {k} in epoch {e}")
        c.ok(e == 0 or keep == (run.optimizer is log.runs[0].optimizer),
             "the optimizer's state is kept" if keep else "a fresh optimizer")
        bi = (np.arange(t) if keep or t <= b
              else np.asarray(next(picks))[:b])
        c.ok(len(set(bi.tolist())) == min(b, t) if not keep else True,
             f"distinct batch in epoch {e}", str(bi))
        if s["aniso"] and e > 0:
            fits += 1
            number = fits
        rows = look.fits[number]
        if e == 0 or s["aniso"]:
            if s["aniso"] and e > 0:
                v = bd.values(bests[-1])
                ls = [v[f"length_scale{k}"] for k in range(d)]
                good = [[RX[i, k] / ls[k] for k in range(d)] for i in range(t)]
            else:
                good = [list(RX[i]) for i in range(t)]
            c.eq(num(c, rows), num(c, good), f"indexed points in epoch {e}")
        nn = np.array([look.near(number, i, n) for i in bi])
        for p, f in zip(run.points, run.values):
            mu, var, sc = bd.loo(p, RX, bi, nn, Y)
            c.eq(f, -loss_value(c, loss, mu, var, sc, list(Y[bi, 0]), {}),
                 f"objective in epoch {e}")
        known = known + [run.best]
        bests.append(run.best)
    c.ok(next(picks, None) is None, "one batch per epoch", str(len(picked)))
    c.ok(len(look.fits) == fits + 1, "indexes built", str(len(look.fits)))
    cd, pd, bt, nt = bd.gp.make_train_tensors(
        idx(c, bi), idx(c, nn), X, y[:, 0] if r else y)
    th = {q: one_value(c, bests[-1][q]) for q in opt}
    verify(c, bd, nu, bd.gp, th, (cd, pd, bt, nt, RX, Y, bi, nn), before)
    c.eq(one_value(c, nu.scale()), bd.loo(th, RX, bi, nn, Y)[2], "scale")
    c.eq(one_value(c, bd.gp.scale()), bd.scale_val, "original scale")
    c.eq(lookup.train, RX, "returned lookup's points")
    c.ok(lookup.nn_count == n, "returned lookup's neighbors")
    got, _ = lookup.get_batch_nns(idx(c, np.arange(t)))
    c.ok(np.array_equal(np.asarray(got), [
        look.near(0, i, n) for i in range(t)]), "returned lookup's answer")
    return log


@case("run", grid=[dict(g, **s, t=t, b=2, n=n, loss=L, scale=z)
                   for g in RUNS for s in SETS
                   for t, n, L, z in ((3, 1, "lool", "analytic"),)]
      + [dict(RUNS[k], **SETS[1], t=4, b=2, n=2, loss="mse", scale="given")
         for k in (1, 3)]
      + [dict(RUNS[k], **SETS[j], t=3, b=b, n=1, loss="mse", scale="fixed")
         for k, j, b in ((4, 1, 3), (2, 2, 5), (3, 1, 3))]
      + [dict(epochs=3, keep=False, previous=k, **SETS[j], t=3, b=1, n=1,
              loss="mse", scale="analytic")
         for j, k in ((1, False), (2, True))]
      + [dict(RUNS[1], **SETS[0], t=t, b=b, n=n, loss=L, scale=z)
         for t, b, n, L, z in (
          (4, 3, 2, "mse", "given"), (3, 3, 1, "lool", "analytic"),
          (3, 5, 2, "huber", "fixed"), (4, 1, 1, "lool", "analytic"))],
      max_paths=300)
def run(c, epochs, keep, previous, kind, d, opt, aniso, t, b, n, loss, scale):
    """Batches, neighborhoods, objectives, probes and results."""
    log = go(c, dict(kind=kind, d=d, opt=opt, aniso=aniso), epochs, keep,
             previous, t, b, n, loss, scale, init_points=3, n_iter=4,
             random_state=11)
    c.ok(all(k.get("random_state") == 11 for k in log.made), "random state")


@case("default", grid=[dict(r=r, n=n) for r in (0, 1) for n in (1, 2)],
      max_paths=100)
def default(c, r, n):
    """The default numbers of points and iterations; both target shapes."""
    go(c, SETS[0], 1, False, False, 3, 2, n, "mse", "fixed", r=r)
