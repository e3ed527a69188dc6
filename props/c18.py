"""C18: shear kernels are the covariances of derivatives of one potential."""

from types import SimpleNamespace

import numpy as np

from symx import stubs
from symx.registry import case

from .c09 import obj_of
from .c10 import clamp, num1
from .common import M, dot, idx, num, one_value

B2 = ("numpy", "torch")


# convergence and shears as combinations of second derivatives (px, py)
OPS = [
    [(0.5, 2, 0), (0.5, 0, 2)],
    [(0.5, 2, 0), (-0.5, 0, 2)],
    [(1.0, 1, 1)],
]


def hermite(c, n, d, ell):
    """(d/dt)^n exp(-t^2 / (2 ell)) at d, without the exponential."""
    one = c.const(1)
    if n == 0:
        return one
    if n == 1:
        return -d / ell
    # p_{n+1} = p_n' - d p_n / ell, equivalently He recurrence
    return (-d * hermite(c, n - 1, d, ell)
            - (n - 1) * hermite(c, n - 2, d, ell)) / ell


def shear(c, p, q, x, y, ell):
    """cov of operator p of the potential at x and operator q at y, the
    potential having covariance exp(-|x - y|^2 / (2 ell))."""
    u, v = x[0] - y[0], x[1] - y[1]
    tot = c.const(0)
    for a, i, j in OPS[p]:
        for b, k, m in OPS[q]:
            # second derivatives by y have the sign of those by x
            tot = tot + a * b * hermite(c, i + k, u, ell) * hermite(
                c, j + m, v, ell)
    return tot * c.exp(-(u * u + v * v) / (2 * ell))


def block(c, rows, cols, A, B, ell):
    """(rows, len(A), cols, len(B)) covariances."""
    R = np.empty((len(rows), len(A), len(cols), len(B)), dtype=object)
    for i, p in enumerate(rows):
        for j, x in enumerate(A):
            for k, q in enumerate(cols):
                for m, y in enumerate(B):
                    R[i, j, k, m] = shear(c, p, q, x, y, ell)
    return R


def new(c, kind, ell, bounds=None, nz=None, nb=None, scale=None):
    from MuyGPyS.gp.kernels.experimental import (
        ShearKernel, ShearKernel2in3out)

    m = M()
    P = m.P(ell, bounds) if bounds else m.P(ell)
    ker = (ShearKernel if kind == 3 else ShearKernel2in3out)(
        deformation=m.DifferenceIsotropy(m.F2, length_scale=P))
    gp = None
    if nz is not None:
        cls = m.ShearNoise if kind == 3 else m.Homo
        gp = m.MuyGPS(kernel=ker, noise=cls(nz, nb) if nb else cls(nz),
                      scale=scale or m.FixedScale())
    return ker, gp


INS = {3: (0, 1, 2), 2: (1, 2)}
ALL = (0, 1, 2)
SHAPES = [dict(b=b, n=n) for b, n in (
    (3, 2), (2, 3), (1, 2), (1, 3), (2, 1), (3, 1), (2, 2), (1, 1),
    (20, 1), (1, 5))]


def tensors(c, ker, b, n, t=None):
    t = t or max(n + 1, b)
    X = c.reals("X", (t, 2))
    bi = np.arange(b)
    nn = np.array([[(i + 1 + j) % t for j in range(n)] for i in range(b)])
    de = ker.deformation
    pd = de.pairwise_tensor(X, idx(c, nn))
    cd = de.crosswise_tensor(X, X, idx(c, bi), idx(c, nn))
    return c.raw(X), X, bi, nn, pd, cd


@case("batched", grid=[dict(s, kind=k) for s in SHAPES for k in (3, 2)],
      backends=lambda p: B2 if p["kind"] == 3 else ("numpy",))
def batched(c, kind, b, n):
    """Covariances of batches of neighborhoods and with their elements."""
    ell, th = c.pos("length_scale", 0.6, 1.6), c.pos("new", 0.5, 2)
    ker, _ = new(c, kind, ell)
    X, _, bi, nn, pd, cd = tensors(c, ker, b, n)
    ins = INS[kind]
    for lab, kw, L in (("stored", {}, ell), ("given", dict(length_scale=th), th),
                       ("stored again", {}, ell)):
        c.eq(ker(pd, **kw), num(c, [
            block(c, ins, ins, X[r], X[r], L) for r in nn]), f"Kin, {lab}")
        good = num(c, [block(c, ins, ALL, X[r], [X[i]], L)[..., 0]
                       for i, r in zip(bi, nn)])
        if b == n:
            # taken for the differences within one set of points
            bad = np.empty((len(ins), b, len(ins), n), dtype=object)
            for i, r in zip(bi, nn):
                for j in range(n):
                    bad[:, i, :, j] = block(
                        c, ins, ins, [X[i]], [X[r[j]]], L)[:, 0, :, 0]
            c.eq_known(ker(cd, **kw), good, num(c, bad), f"Kcross, {lab}",
                       "Kcross taken for Kin")
        else:
            c.eq(ker(cd, **kw), good, f"Kcross, {lab}")
        fn = ker.get_opt_fn()
        c.eq(fn(pd, **kw), num(c, [
            block(c, ins, ins, X[r], X[r], L) for r in nn]),
            f"Kin for the optimizer, {lab}")
    Z = [[c.const(0)] * 2]
    c.eq(ker.Kout(), block(c, ALL, ALL, Z, Z, ell)[:, 0, :, 0], "Kout")


@case("whole", grid=[dict(kind=k, n=n, s=s) for k in (3, 2)
                     for n, s in ((2, 3), (3, 2), (1, 2), (2, 2), (3, 1),
                                  (7, 5))],
      backends=lambda p: B2 if p["kind"] == 3 else ("numpy",))
def whole(c, kind, n, s):
    """Covariances of whole data sets, without a batch."""
    ell = c.pos("length_scale", 0.6, 1.6)
    ker, _ = new(c, kind, ell)
    A, B = c.reals("A", (n, 2)), c.reals("B", (s, 2))
    de = ker.deformation
    pd = de.pairwise_tensor(A, idx(c, np.arange(n)))
    cd = de.crosswise_tensor(A, B, idx(c, np.arange(n)), idx(c, np.arange(s)))
    ins = INS[kind]
    RA, RB = c.raw(A), c.raw(B)
    c.eq(ker(pd), block(c, ins, ins, RA, RA, ell), "Kin")
    kw = dict(adjust=False) if kind == 3 else dict(force_Kcross=True)
    c.eq(ker(cd, **kw), block(c, ins, ALL, RA, RB, ell), "Kcross")


def problem(c, gp, kind, b, n):
    t = max(n + 1, b)
    X = c.reals("X", (t, 2))
    y = c.reals("y", (t, len(INS[kind])))
    bi = np.arange(b)
    nn = np.array([[(i + 1 + j) % t for j in range(n)] for i in range(b)])
    cd, pd, bt, nt = gp.make_train_tensors(idx(c, bi), idx(c, nn), X, y)
    return SimpleNamespace(X=c.raw(X), y=c.raw(y), bi=bi, nn=nn, cd=cd, pd=pd,
                           bt=bt, nt=nt.swapaxes(-2, -1))


def predict(c, kind, D, ell, eps):
    """(means [b][3], covariances [b][3, 3])."""
    mu, var = [], []
    ins = INS[kind]
    Z = [[c.const(0)] * 2]
    Kout = block(c, ALL, ALL, Z, Z, ell)[:, 0, :, 0]
    for i, row in zip(D.bi, D.nn):
        P = D.X[row]
        n, q = len(P), len(ins)
        K = block(c, ins, ins, P, P, ell).reshape(q * n, q * n)
        for r in range(q * n):
            e = eps * 2 if kind == 3 and r < n else eps
            K[r, r] = K[r, r] + e
        k = block(c, ins, ALL, P, [D.X[i]], ell).reshape(q * n, 3)
        inv = c.inv(K)
        y = list(D.y[row].T.reshape(-1))
        W = [c.matvec(inv, list(k[:, o])) for o in range(3)]
        mu.append([dot(c, W[o], y) for o in range(3)])
        V = np.empty((3, 3), dtype=object)
        for o in range(3):
            for p in range(3):
                V[o, p] = Kout[o, p] - dot(c, W[o], list(k[:, p]))
        var.append(V)
    return mu, var


PRED = [dict(b=b, n=n) for b, n in ((2, 1), (1, 2), (3, 2), (3, 1), (12, 1))]


@case("predict", grid=[dict(s, kind=k) for s in PRED for k in (3, 2)],
      backends=lambda p: B2 if p["kind"] == 3 else ("numpy",))
def predict_case(c, kind, b, n):
    """Posterior means and covariances of convergence and shears; the
    convergence is twice as noisy."""
    m = M()
    ell = c.pos("length_scale", 0.6, 1.6)
    eps = c.nonneg("noise", 0.05, 0.4)
    s = c.pos("scale", 0.5, 2)
    ker, gp = new(c, kind, ell, nz=eps, scale=m.FixedScale(val=s))
    D = problem(c, gp, kind, b, n)
    mu, var = predict(c, kind, D, ell, eps)
    Kin, Kcross = gp.kernel(D.pd), gp.kernel(D.cd)
    c.eq(gp.posterior_mean(Kin, Kcross, D.nt), num(c, mu), "mean")
    c.eq(gp.posterior_variance(Kin, Kcross), num(c, [
        [[s * v for v in r] for r in V] for V in var]), "covariance")


LB, NB = (0.1, 3.0), (0.002, 0.9)


def loss(c, kind, D, mu, var, how):
    b = len(D.bi)
    y = [D.y[i] for i in D.bi]
    tot = c.const(0)
    if how == "mse":
        o = (0, 1, 2) if kind == 3 else (1, 2)
        for i in range(b):
            for j, q in enumerate(o):
                d = mu[i][q] - y[i][j]
                tot = tot + d * d
        return tot / (b * len(o))
    for i in range(b):
        for q in range(3):
            tot = tot + mu[i][q] - y[i][q]
    return tot


OBJ = ([dict(kind=3, b=b, n=n, how=h) for b, n in ((2, 1), (3, 1))
        for h in ("mse", "var")]
       + [dict(kind=2, b=b, n=n, how="mse") for b, n in ((2, 1), (3, 1))])


@case("objective", grid=[dict(g, opt=o) for g in OBJ for o in ("l", "ln")],
      backends=lambda p: B2 if p["kind"] == 3 else ("numpy",))
def objective(c, kind, b, n, how, opt):
    """The objective scores the predictions at the candidate values."""
    import MuyGPyS.optimize as O
    import MuyGPyS.optimize.loss as L

    ell, eps = c.pos("length_scale", 0.6, 1.6), c.pos("noise", 0.05, 0.4)
    for v, (lo, hi) in ((ell, LB), (eps, NB)):
        c.assume(v > lo)
        c.assume(v < hi)
    ker, gp = new(c, kind, ell, LB, eps, NB if "n" in opt else None)
    D = problem(c, gp, kind, b, n)
    kw = {} if kind == 3 else dict(target_mask=(1, 2))
    seen = []

    def simple(predictions, targets, variances, scale):
        seen.append((predictions, targets, variances, scale))
        return (predictions - targets).sum()

    fn = L.mse_fn if how == "mse" else L.LossFn(
        simple, L.make_var_predict_and_loss_fn)
    obj = O.Bayes_optimize.make_obj_fn(
        gp, D.bt, D.nt, D.cd, D.pd,
        loss_fn=fn, **kw)
    th = dict(length_scale=c.pos("new_l", 0.5, 2))
    if "n" in opt:
        th["noise"] = c.pos("new_n", 0.05, 0.5)
    for lab, t in (("candidate", th), ("stored", {}), ("again", th)):
        mu, var = predict(c, kind, D, t.get("length_scale", ell),
                          t.get("noise", eps))
        c.eq(one_value(c, obj(**t)), -loss(c, kind, D, mu, var, how),
             f"objective, {lab}")
        if seen:
            c.eq(seen[-1][0], num(c, mu), f"predictions, {lab}")
            c.eq(seen[-1][1], D.y[D.bi], f"targets, {lab}")
            c.eq(seen[-1][2], num(c, var), f"covariances, {lab}")
            c.eq(one_value(c, seen[-1][3]), c.const(1), f"scale, {lab}")


@case("masked", grid=[dict(kind=k, b=b, n=n, out=o) for k in (3, 2)
                      for b, n, o in ((2, 1, 0), (3, 1, 1), (1, 2, 2))],
      backends=lambda p: B2 if p["kind"] == 3 else ("numpy",))
def masked(c, kind, b, n, out):
    """The loss sees one output's means and variances, scaled or not."""
    import MuyGPyS.optimize as O
    import MuyGPyS.optimize.loss as L

    ell, eps = c.pos("length_scale", 0.6, 1.6), c.pos("noise", 0.05, 0.4)
    c.assume(ell > LB[0])
    c.assume(ell < LB[1])
    s = c.pos("scale", 0.5, 2)
    m = M()
    ker, gp = new(c, kind, ell, LB, eps, scale=m.FixedScale(val=s))
    D = problem(c, gp, kind, b, n)
    seen = []

    def scaled(predictions, targets, variances, scale, probe=0):
        seen.append((predictions, targets, variances, scale, probe))
        return (predictions - targets).sum()

    def unscaled(predictions, targets, variances, probe=0):
        seen.append((predictions, targets, variances, probe))
        return (predictions - targets).sum()

    bt = D.bt[:, :1]
    for lab, fn in (
            ("scaled", L.LossFn(scaled, L.make_var_predict_and_loss_fn)),
            ("unscaled", L.LossFn(
                unscaled, L.make_unscaled_var_predict_and_loss_fn))):
        obj = O.Bayes_optimize.make_obj_fn(
            gp, bt, D.nt, D.cd, D.pd, loss_fn=fn,
            target_mask=np.array([out]), loss_kwargs=dict(probe=3))
        for th in (dict(length_scale=c.pos("new_l", 0.5, 2)), {}):
            mu, var = predict(c, kind, D, th.get("length_scale", ell), eps)
            got = one_value(c, obj(**th))
            want = c.const(0)
            for i in range(b):
                want = want - mu[i][out] + D.y[D.bi[i]][0]
            c.eq(got, want, f"objective, {lab}")
            a = seen.pop()
            c.eq(a[0], num(c, [[u[out]] for u in mu]), f"means, {lab}")
            c.eq(a[1], D.y[D.bi][:, :1], f"targets, {lab}")
            c.eq(np.array(c.raw(a[2])).reshape(-1),
                 num(c, [V[out, out] for V in var]), f"variances, {lab}")
            if lab == "scaled":
                c.eq(one_value(c, a[3]), s, "scale")
            c.ok(a[-1] == 3 and not seen, "loss arguments and one loss")


@case("optimize", grid=[dict(g, opt=o) for g in OBJ
                        if g["how"] == "mse" and g["b"] == 2
                        for o in ("l", "ln")], max_paths=200, budget=240)
def optimize(c, kind, b, n, how, opt):
    """Optimization returns a model with the best values found."""
    import MuyGPyS.optimize as O
    import MuyGPyS.optimize.loss as L

    ell, eps = c.pos("length_scale", 0.6, 1.6), c.pos("noise", 0.05, 0.4)
    bounds = {"length_scale": LB, "noise": NB}
    stored = {"length_scale": ell, "noise": eps}
    for q, v in stored.items():
        c.assume(v > bounds[q][0])
        c.assume(v < bounds[q][1])
    ker, gp = new(c, kind, ell, LB, eps, NB if "n" in opt else None)
    D = problem(c, gp, kind, b, n)
    names = ["length_scale"] + (["noise"] if "n" in opt else [])
    x1 = {q: c.pos("try_" + q, *((0.05, 4) if q != "noise" else (1e-4, 2)))
          for q in names}
    log = SimpleNamespace(calls=0)

    def score(th):
        v = {**stored, **th}
        mu, var = predict(c, kind, D, v["length_scale"], v["noise"])
        return loss(c, kind, D, mu, var, how)

    def minimize(fun, x0, args=(), method=None, bounds=None, **kw):
        log.calls += 1
        x0 = list(c.raw(x0))
        for q, v, (lo, hi) in zip(names, x0, list(bounds)):
            c.eq(v, stored[q], f"start {q}")
            c.eq(num1(c, lo), {"length_scale": LB, "noise": NB}[q][0],
                 f"lower bound of {q}")
        a = [c.arr(np.array(x, dtype=object)) for x in (
            x0, [x1[q] for q in names])]
        f = [one_value(c, fun(x)) for x in a]
        for v, th, lab in zip(f, ({}, x1), ("start", "other point")):
            c.eq(v, score(th), f"loss at the {lab}")
        log.best = bool(c.branch(c.bool("better")))
        return SimpleNamespace(x=a[log.best], fun=f[log.best])

    stubs.patch(c, "opt.minimize", minimize)
    kw = {} if kind == 3 else dict(target_mask=(1, 2))
    nu = O.L_BFGS_B_optimize(gp, D.bt, D.nt, D.cd, D.pd, loss_fn=L.mse_fn, **kw)
    c.ok(log.calls == 1, "one minimization", str(log.calls))
    th = {q: (clamp(c, x1[q], *bounds[q]) if log.best else stored[q])
          for q in names}
    for lab, g, t in (("returned", nu, th), ("original", gp, {})):
        v = {**stored, **t}
        mu, var = predict(c, kind, D, v["length_scale"], v["noise"])
        Kin, Kcross = g.kernel(D.pd), g.kernel(D.cd)
        c.eq(g.posterior_mean(Kin, Kcross, D.nt), num(c, mu),
             f"mean of the {lab} model")
        c.eq(g.posterior_variance(Kin, Kcross), num(c, [V for V in var]),
             f"covariance of the {lab} model")
