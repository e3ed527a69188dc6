"""C10: optimizers return a new model at the best point, inside its bounds."""

from types import SimpleNamespace

import numpy as np

from symx import stubs
from symx.registry import case

from .c09 import (
    Build, frozen, loss_value, names, obj_of, problem)  # noqa: F401
from .common import M, num, one_value

BND = {
    "length_scale": (0.1, 3.0), "length_scale0": (0.11, 3.1),
    "length_scale1": (0.12, 3.2), "length_scale2": (0.13, 3.3),
    **{f"length_scale{k}": (0.11 + 0.01 * k, 3.1 + 0.1 * k)
       for k in range(3, 16)},
    "noise": (0.002, 0.65), "smoothness": (0.6, 2.9),
}
SETS = [
    dict(kind="rbf", d=1, opt="l", aniso=False),
    dict(kind="rbf", d=1, opt="ln", aniso=False),
    dict(kind="m05", d=2, opt="n", aniso=False),
    dict(kind="m15", d=1, opt="ln", aniso=False),
    dict(kind="rbf", d=2, opt="01", aniso=True),
    dict(kind="rbf", d=2, opt="1n", aniso=True),
    dict(kind="m05", d=2, opt="0", aniso=True),
    dict(kind="rbf", d=3, opt="02", aniso=True),
]
# more than ten length scales: names that are prefixes of others
MANY = dict(kind="rbf", d=12, opt="1an", aniso=True)


def lossf(loss):
    import MuyGPyS.optimize.loss as L

    return dict(mse=L.mse_fn, huber=L.pseudo_huber_fn, lool=L.lool_fn,
                looph=L.looph_fn)[loss]


def names_of(c, opt, bounds):
    """Names in the optimizer's order, from the distinct bounds."""
    out = []
    for b in bounds:
        lo, hi = float(num1(c, b[0])), float(num1(c, b[1]))
        hit = [q for q in opt if abs(BND[q][0] - lo) < 1e-9
               and abs(BND[q][1] - hi) < 1e-9]
        c.ok(len(hit) == 1, "bounds of a free parameter", f"({lo}, {hi})")
        out += hit
    c.ok(sorted(out) == sorted(opt), "every free parameter once", str(out))
    return out


def num1(c, x):
    r = c.raw(x)
    if c.sym and hasattr(r, "const"):
        return float(r.const())
    return r


def clamp(c, v, lo, hi):
    if c.branch(v < lo):
        return c.const(lo)
    if c.branch(v > hi):
        return c.const(hi)
    return v


def verify(c, bd, new, old, theta, prob, before):
    """new holds theta and predicts with it; old is untouched."""
    cd, pd, bt, nt, X, Y, bi, nn = prob
    v = bd.values(theta)
    got = dict(frozen(c, new))
    for q, u in sorted(v.items()):
        c.eq(got[q], u, f"returned {q}")
    c.ok(new is not old, "a new model")
    for q, u in frozen(c, old):
        c.eq(u, before[q], f"original {q}")
    for lab, gp, th in (("returned", new, theta), ("original", old, {})):
        Kin, Kcross = gp.kernel(pd), gp.kernel(cd)
        mu, var, _ = bd.loo(th, X, bi, nn, Y)
        c.eq(gp.posterior_mean(Kin, Kcross, nt), num(c, [m[0] for m in mu]),
             f"mean of the {lab} model")
        s = one_value(c, gp.scale())
        c.eq(gp.posterior_variance(Kin, Kcross),
             num(c, [s * w for w in var]), f"variance of the {lab} model")


@case("scipy", grid=[dict(s, loss=L, scale=z) for s in SETS
                     for L, z in (("lool", "analytic"), ("mse", "fixed"),
                                  ("looph", "given"))]
      + [dict(MANY, loss="mse", scale="fixed")], max_paths=200)
def scipy_case(c, kind, d, opt, aniso, loss, scale):
    """L-BFGS-B answered by a minimizer that tries the start and one other
    point and returns either of them."""
    import MuyGPyS.optimize as O

    b, n = 2, 2
    m = M()
    opt = names(opt)
    bd = Build(c, m, kind, d, opt, "homo", scale, aniso, bnd=BND)
    prob = cd, pd, bt, nt, X, Y, bi, nn = problem(c, m, bd, b, n, d, 0)
    before = dict(frozen(c, bd.gp))
    x1 = {q: c.pos("try_" + q, *((0.05, 4.0) if q != "noise" else (1e-4, 2)))
          for q in opt}
    T = list(Y[bi, 0])
    log = SimpleNamespace(calls=0)

    def objective(th):
        mu, var, s = bd.loo(th, X, bi, nn, Y)
        return loss_value(c, loss, mu, var, s, T, {})

    def minimize(fun, x0, args=(), method=None, bounds=None, **kw):
        log.calls += 1
        log.kw, log.method = kw, method
        ns = names_of(c, opt, list(bounds))
        x0 = list(c.raw(x0))
        for q, v in zip(ns, x0):
            c.eq(v, bd.stored[q], f"start {q}")
        a0 = c.arr(np.array(x0, dtype=object))
        a1 = c.arr(np.array([x1[q] for q in ns], dtype=object))
        f0, f1 = one_value(c, fun(a0)), one_value(c, fun(a1))
        c.eq(f0, objective({}), "loss at the start")
        c.eq(f1, objective(x1), "loss at the other point")
        log.best = c.branch(c.bool("better"))
        return SimpleNamespace(x=a1 if log.best else a0,
                               fun=f1 if log.best else f0)

    stubs.patch(c, "opt.minimize", minimize)
    new = O.L_BFGS_B_optimize(bd.gp, bt, nt, cd, pd, loss_fn=lossf(loss),
                              options={"maxiter": 7}, tol=0.25)
    c.ok(log.calls == 1, "one minimization", str(log.calls))
    c.ok(str(log.method).upper() == "L-BFGS-B", "method", str(log.method))
    c.ok(log.kw == {"options": {"maxiter": 7}, "tol": 0.25},
         "arguments passed on", str(log.kw))
    th = {q: (clamp(c, x1[q], *BND[q]) if log.best else bd.stored[q])
          for q in opt}
    verify(c, bd, new, bd.gp, th, prob, before)


@case("bayes", grid=[dict(s, loss=L, scale=z) for s in SETS
                     for L, z in (("lool", "analytic"), ("huber", "fixed"))]
      + [dict(MANY, loss="huber", scale="fixed")],
      max_paths=200)
def bayes_case(c, kind, d, opt, aniso, loss, scale):
    """Bayesian optimization answered by an optimizer that evaluates its
    probes and one other point and reports either as the best."""
    import MuyGPyS.optimize as O

    b, n = 2, 2
    m = M()
    opt = names(opt)
    bd = Build(c, m, kind, d, opt, "homo", scale, aniso, bnd=BND)
    prob = cd, pd, bt, nt, X, Y, bi, nn = problem(c, m, bd, b, n, d, 0)
    before = dict(frozen(c, bd.gp))
    x1 = {q: c.pos("try_" + q, *((0.2, 2.9) if q != "noise" else (0.01, 1)))
          for q in opt}
    for q in opt:
        c.assume(x1[q] >= BND[q][0])
        c.assume(x1[q] <= BND[q][1])
    T = list(Y[bi, 0])
    log = SimpleNamespace(made=0, start=0, ran=0)

    def objective(th):
        mu, var, s = bd.loo(th, X, bi, nn, Y)
        return -loss_value(c, loss, mu, var, s, T, {})

    class Bayes:
        def __init__(self, f, pbounds, **kw):
            log.made += 1
            log.kw = kw
            self.f, self.points, self.max = f, [], None
            c.ok(sorted(pbounds) == sorted(opt), "bounded parameters",
                 str(sorted(pbounds)))
            for q in opt:
                lo, hi = pbounds[q]
                c.eq(num1(c, lo), BND[q][0], f"lower bound of {q}")
                c.eq(num1(c, hi), BND[q][1], f"upper bound of {q}")

        def probe(self, params, lazy=True):
            log.start += 1
            for q in opt:
                c.eq(one_value(c, params[q]), bd.stored[q], f"probe {q}")
            self.points.append((dict(params), {}))

        def maximize(self, init_points=None, n_iter=None, **kw):
            log.ran += 1
            log.points = (init_points, n_iter)
            for p, th in self.points + [(dict(x1), x1)]:
                f = one_value(c, self.f(**p))
                c.eq(f, objective(th), "objective at a point")
                if self.max is None or c.branch(c.bool("better")):
                    self.max = dict(target=f, params=p)
                    log.best = th

    stubs.patch(c, "BayesianOptimization", Bayes)
    new = O.Bayes_optimize(bd.gp, bt, nt, cd, pd, loss_fn=lossf(loss),
                           init_points=3, n_iter=4, random_state=11)
    c.ok(log.made == log.ran == 1, "one run")
    c.ok(log.start == 1, "the start is probed", str(log.start))
    c.ok(log.points == (3, 4), "points and iterations", str(log.points))
    c.ok(log.kw.get("random_state") == 11, "random state", str(log.kw))
    th = {q: (x1[q] if log.best else bd.stored[q]) for q in opt}
    verify(c, bd, new, bd.gp, th, prob, before)


@case("default", grid=[dict(which=w, twice=t) for w in ("scipy", "bayes")
                       for t in (False, True)], max_paths=200)
def default_case(c, which, twice):
    """Without a loss the leave-one-out likelihood is used, also when an
    optimized model is optimized again from where it stands."""
    import MuyGPyS.optimize as O

    m = M()
    bd = Build(c, m, "rbf", 1, ["length_scale", "noise"], "homo", "analytic",
               bnd=BND)
    cd, pd, bt, nt, X, Y, bi, nn = problem(c, m, bd, 2, 2, 1, 0)
    T = list(Y[bi, 0])
    k = [0]
    now = [dict(bd.stored)]

    def draw():
        k[0] += 1
        th = dict(length_scale=c.pos(f"l{k[0]}", 0.3, 2.5),
                  noise=c.pos(f"n{k[0]}", 0.01, 1.0))
        for q, v in th.items():
            c.assume(v >= BND[q][0])
            c.assume(v <= BND[q][1])
        return th

    def objective(th):
        mu, var, s = bd.loo(th, X, bi, nn, Y)
        return loss_value(c, "lool", mu, var, s, T, {})

    def minimize(fun, x0, args=(), method=None, bounds=None, **kw):
        ns = names_of(c, list(BND)[:1] + ["noise"], list(bounds))
        for q, v in zip(ns, list(c.raw(x0))):
            c.eq(v, now[0][q], f"start {q}")
        th = now[0] = draw()
        x = c.arr(np.array([th[q] for q in ns], dtype=object))
        c.eq(one_value(c, fun(x)), objective(th), "loss")
        return SimpleNamespace(x=x, fun=0.0)

    class Bayes:
        def __init__(self, f, pbounds, **kw):
            self.f = f

        def probe(self, params, lazy=True):
            for q in now[0]:
                c.eq(one_value(c, params[q]), now[0][q], f"probe {q}")

        def maximize(self, init_points=None, n_iter=None, **kw):
            th = now[0] = draw()
            c.eq(one_value(c, self.f(**th)), -objective(th), "objective")
            self.max = dict(target=0.0, params=dict(th))

    stubs.patch(c, "opt.minimize", minimize)
    stubs.patch(c, "BayesianOptimization", Bayes)
    fn = O.L_BFGS_B_optimize if which == "scipy" else O.Bayes_optimize
    gp = bd.gp
    chain = [(gp, dict(bd.stored))]
    for _ in range(2 if twice else 1):
        gp = fn(gp, bt, nt, cd, pd)
        chain.append((gp, dict(now[0])))
    for i, (g, v) in enumerate(chain):
        got = dict(frozen(c, g))
        for q in v:
            c.eq(got[q], v[q], f"model {i} {q}")
        th = {q: v[q] for q in ("length_scale", "noise")}
        mu, _, _ = bd.loo(th, X, bi, nn, Y)
        c.eq(g.posterior_mean(g.kernel(pd), g.kernel(cd), nt),
             num(c, [x[0] for x in mu]), f"mean of model {i}")


@case("mapping", grid=[dict(which=w, opt=o) for w in ("scipy", "bayes")
                       for o in ("s", "sn", "ls", "lsn", "0s", "01sn")],
      max_paths=300)
def mapping(c, which, opt):
    """Start, bounds and returned value of every parameter, a free
    smoothness included, belong to that parameter."""
    import MuyGPyS.optimize as O

    m = M()
    opt = names(opt)
    aniso = any(q[-1].isdigit() for q in opt)
    bd = Build(c, m, "free", 2, opt, "homo", "fixed", aniso, bnd=BND)
    before = dict(frozen(c, bd.gp))
    new = {q: c.pos("ret_" + q, *((0.05, 4.0) if q != "noise" else (1e-4, 2)))
           for q in opt}

    def minimize(fun, x0, args=(), method=None, bounds=None, **kw):
        ns = names_of(c, opt, list(bounds))
        for q, v in zip(ns, list(c.raw(x0))):
            c.eq(v, bd.stored[q], f"start {q}")
        return SimpleNamespace(
            x=c.arr(np.array([new[q] for q in ns], dtype=object)), fun=0.0)

    class Bayes:
        def __init__(self, f, pbounds, **kw):
            for q in opt:
                c.eq(num1(c, pbounds[q][0]), BND[q][0], f"lower bound of {q}")
                c.eq(num1(c, pbounds[q][1]), BND[q][1], f"upper bound of {q}")
            self.max = dict(target=0.0, params=dict(new))

        def probe(self, params, lazy=True):
            for q in opt:
                c.eq(one_value(c, params[q]), bd.stored[q], f"probe {q}")

        def maximize(self, init_points=None, n_iter=None, **kw):
            pass

    stubs.patch(c, "opt.minimize", minimize)
    stubs.patch(c, "BayesianOptimization", Bayes)
    X = c.arr(np.array([[c.const(q), c.const(q * q)] for q in (0, 1, 3)],
                       dtype=object))
    y = c.reals("y", (3,))
    cd, pd, bt, nt = bd.gp.make_train_tensors(
        np.arange(2), np.array([[1, 2], [2, 0]]), X, y)
    fn = O.L_BFGS_B_optimize if which == "scipy" else O.Bayes_optimize
    got = dict(frozen(c, fn(bd.gp, bt, nt, cd, pd)))
    for q in sorted(bd.stored):
        e = clamp(c, new[q], *BND[q]) if q in opt else bd.stored[q]
        c.eq(got[q], e, f"returned {q}")
    for q, u in frozen(c, bd.gp):
        c.eq(u, before[q], f"original {q}")


@case("outputs", grid=[dict(which=w, mask=q, loud=v, n=n)
                       for w in ("scipy", "bayes")
                       for q, v, n in (((2, 0), False, 2), ((1,), True, 2),
                                       (None, True, 1), ((0, 1, 2), True, 1))],
      max_paths=100)
def outputs(c, which, mask, loud, n):
    """Arguments of the loss, a choice of outputs and those of the optimizer
    are honoured, whether or not progress is printed."""
    import contextlib
    import io

    import MuyGPyS.optimize as O

    m = M()
    bd = Build(c, m, "rbf", 1, ["length_scale", "noise"], "homo", bnd=BND)
    cd, pd, bt, nt, X, Y, bi, nn = problem(c, m, bd, 2, n, 1, 3)
    D = c.pos("boundary", 0.5, 2)
    cols = list(range(3)) if mask is None else list(mask)
    bt = bt[:, cols]
    T = [Y[i, q] for i in bi for q in cols]
    new = dict(length_scale=c.pos("ret_l", 0.3, 2.5),
               noise=c.pos("ret_n", 0.01, 0.6))
    for q, v in new.items():
        c.assume(v >= BND[q][0])
        c.assume(v <= BND[q][1])
    log = SimpleNamespace(calls=0)
    old = dict(frozen(c, bd.gp))

    def objective(th):
        mu, _, _ = bd.loo(th, X, bi, nn, Y)
        return loss_value(c, "huber", [[u[q] for q in cols] for u in mu],
                          None, None, T, dict(boundary_scale=D))

    def minimize(fun, x0, args=(), method=None, bounds=None, **kw):
        log.calls += 1
        c.ok(kw == dict(options=dict(maxiter=5), callback=objective),
             "arguments of the minimizer", str(kw))
        ns = names_of(c, list(new), list(bounds))
        x = c.arr(np.array([new[q] for q in ns], dtype=object))
        c.eq(one_value(c, fun(x)), objective(new), "loss")
        return SimpleNamespace(x=x, fun=0.0)

    class Bayes:
        def __init__(self, f, pbounds, **kw):
            self.f = f
            log.calls += 1
            log.own = kw

        def probe(self, params, lazy=True):
            pass

        def maximize(self, **kw):
            c.ok(kw == dict(init_points=2, n_iter=6, kappa=1.5,
                            kappa_decay=0.5, kappa_decay_delay=3, xi=0.25),
                 "arguments of the search", str(kw))
            c.eq(one_value(c, self.f(**new)), -objective(new), "objective")
            self.max = dict(target=0.0, params=dict(new))

    stubs.patch(c, "opt.minimize", minimize)
    stubs.patch(c, "BayesianOptimization", Bayes)
    with contextlib.redirect_stdout(io.StringIO()):
        gp = (O.L_BFGS_B_optimize if which == "scipy" else O.Bayes_optimize)(
            bd.gp, bt, nt, cd, pd, loss_fn=lossf("huber"), verbose=loud,
            loss_kwargs=dict(boundary_scale=D),
            target_mask=None if mask is None else np.array(mask),
            **(dict(options=dict(maxiter=5), callback=objective)
               if which == "scipy" else
               dict(init_points=2, n_iter=6, kappa=1.5, kappa_decay=0.5,
                    kappa_decay_delay=3, xi=0.25, random_state=4,
                    bounds_transformer=objective)))
    c.ok(log.calls == 1, "one optimization", str(log.calls))
    if which == "bayes":
        c.ok(log.own.get("random_state") == 4
             and log.own.get("bounds_transformer") is objective
             and log.own.get("allow_duplicate_points") is True,
             "arguments of the optimizer", str(log.own))
    for q, v in new.items():
        c.eq(dict(frozen(c, gp))[q], v, f"returned {q}")
    for q, v in frozen(c, bd.gp):
        c.eq(v, old[q], f"original {q}")
