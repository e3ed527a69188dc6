"""C14: on every rank, distributed results equal the serial ones."""

from types import SimpleNamespace

import numpy as np

from symx import stubs

from .c08 import flat, huber, looph, lool, losses, mse
from .c09 import Build, loss_value
from .c12 import iterate, quad
from .c13 import chunks, everywhere, table, utils
from .common import (
    M, add_noise, cross, dot, gram, kernel, lengths, one_value, simple_gp,
    spd_inputs)

RANKS = (1, 2, 3)
N = (1, 2, 3, 5)


def mine(t):
    """This rank's chunk."""
    return utils()._consistent_chunk_tensor(t)


def agree(c, out, want, label):
    for r, o in enumerate(out):
        c.eq(one_value(c, o), want, f"{label} on rank {r}")


@everywhere("loss", [dict(loss=L, shape=s) for L, ss in (
    ("mse", [(n,) for n in N] + [(n, 2) for n in N]),
    ("huber", [(n,) for n in N] + [(n, 2) for n in N]),
    ("huberd", [(n,) for n in N]),
    ("lool", [(n,) for n in N] + [(n, 2) for n in N]),
    ("loolu", [(n,) for n in N]),
    ("looph", [(n,) for n in N]),
    ("loophd", [(n,) for n in N])) for s in ss], RANKS)
def loss_case(c, loss, shape):
    """Every loss over chunks is the loss over the whole batch."""
    p = c.reals("p", shape, -2, 2)
    t = c.reals("t", shape, -2, 2)
    v = c.reals("v", shape, 0.3, 2.0, pos=True)
    s = c.pos("s", 0.3, 2.0)
    d = c.pos("delta", 0.5, 3.0)

    def body(rank):
        L = losses()
        q, u, w = mine(p), mine(t), mine(v)
        if loss == "mse":
            return L.mse_fn(q, u)
        if loss == "huber":
            return L.pseudo_huber_fn(q, u)
        if loss == "huberd":
            return L.pseudo_huber_fn(q, u, boundary_scale=d)
        if loss == "lool":
            return L.lool_fn(q, u, w, s)
        if loss == "loolu":
            return L.lool_fn_unscaled(q, u, w)
        if loss == "looph":
            return L.looph_fn(q, u, w, s)
        return L.looph_fn(q, u, w, s, boundary_scale=d)

    P, T, V = flat(c, p), flat(c, t), flat(c, v)
    S = [s * w for w in V]
    want = {
        "mse": lambda: mse(c, P, T),
        "huber": lambda: huber(c, P, T, c.const(1.5)),
        "huberd": lambda: huber(c, P, T, d),
        "lool": lambda: lool(c, P, T, S),
        "loolu": lambda: lool(c, P, T, V),
        "looph": lambda: looph(c, P, T, S, c.const(3)),
        "loophd": lambda: looph(c, P, T, S, d),
    }[loss]()
    agree(c, c.spmd(body), want, loss)


# more ranks, larger batches
BIG = (5,)
everywhere("loss", [dict(loss=L, shape=s) for L, s in (
    ("mse", (41,)), ("mse", (4,)), ("mse", (13, 12)), ("huber", (41,)),
    ("huberd", (41,)), ("lool", (41,)), ("lool", (13, 2)), ("loolu", (23,)),
    ("looph", (23,)), ("loophd", (13,)), ("looph", (3,)))], BIG)(loss_case)


@everywhere("xent", [dict(b=b, r=r) for b, r in
                     ((1, 2), (2, 3), (3, 2), (4, 3))], RANKS)
def xent(c, b, r):
    """Cross entropy over chunks."""
    p = c.reals("p", (b, r), -2, 2)
    lab = [(2 * i + 1) % r for i in range(b)]
    t = np.full((b, r), -1.0 / r)
    for i, k in enumerate(lab):
        t[i, k] += 1.0
    P = np.asarray(c.raw(p))
    e = c.const(0)
    for i, k in enumerate(lab):
        z = c.const(0)
        for j in range(r):
            z = z + c.exp(P[i, j])
        e = e - (P[i, k] - c.log(z))
    T = c.arr(np.array([[c.const(x) for x in row] for row in t], dtype=object)
              if c.sym else t)
    agree(c, c.spmd(lambda rank: losses().cross_entropy_fn(mine(p), mine(T))),
          e, "cross entropy")


@everywhere("scale", [dict(noise=z, b=b, n=n, k=k)
                      for z in ("null", "homo")
                      for b, n in ((1, 1), (2, 2), (1, 3), (3, 1), (3, 2),
                                   (5, 2))
                      for k in (1, 2)], RANKS)
def scale_case(c, noise, b, n, k):
    """The closed-form scale sums over the whole batch."""
    K = spd_inputs(c, "K", b, n)
    y = c.reals("y", (b, n))
    eps = c.nonneg("noise", 0.05, 0.4)
    Kin, Y = c.arr(K), np.asarray(c.raw(y))
    s0 = c.const(0)
    for i in range(b):
        s0 = s0 + quad(c, add_noise(c, K[i], eps if noise == "homo" else
                                    c.const(0)), Y[i])
    s0 = s0 / (b * n)

    def body(rank):
        m = M()
        gp = simple_gp(m, m.Homo(eps) if noise == "homo" else m.Null(),
                       scale=m.AnalyticScale(iteration_count=k))
        a, t = mine(Kin), mine(y)
        return gp.scale.get_opt_fn(gp)(a, t), one_value(c, gp.scale())

    out = c.spmd(body)
    agree(c, [o[0] for o in out], iterate(c, s0, k), "scale")
    for r, o in enumerate(out):
        c.eq(o[1], c.const(1), f"stored scale of rank {r} not touched")


everywhere("scale", [dict(noise="homo", b=b, n=n, k=k) for b, n, k in (
    (13, 1, 1), (30, 2, 1), (4, 3, 1))], BIG)(scale_case)


@everywhere("scalemodel", [dict(kind=q, d=d, b=b, n=n, k=k)
                           for q, d, b, n, k in (
                               ("rbf", 1, 3, 2, 1), ("rbf", 2, 1, 2, 1),
                               ("m05", 1, 2, 2, 2), ("m15", 1, 4, 1, 2))],
            RANKS)
def scale_model(c, kind, d, b, n, k):
    """optimize_scale stores the serial value on every rank."""
    X = c.features("X", 4, d)
    y = c.reals("y", (4,))
    ls = [c.pos("ls", 0.6, 1.6)]
    eps = c.nonneg("noise", 0.05, 0.4)
    nn = table(b, n) % 4
    bi = np.arange(b)
    Xr, Y = np.asarray(c.raw(X)), np.asarray(c.raw(y))
    s0 = c.const(0)
    for i in range(b):
        s0 = s0 + quad(c, gram(c, kind, Xr[nn[i]], ls, noise=eps), Y[nn[i]])
    s0 = s0 / (b * n)
    want = iterate(c, s0, k)

    def body(rank):
        m = M()
        gp = m.MuyGPS(kernel=kernel(c, m, kind, ls), noise=m.Homo(eps),
                      scale=m.AnalyticScale(iteration_count=k))
        cd, pd, bt, nt = gp.make_train_tensors(bi, nn, X, y)
        v = one_value(c, gp.scale.get_opt_fn(gp)(
            gp.kernel(pd), nt)) if k == 1 else None
        try:
            ret = gp.optimize_scale(pd, nt)
        except (ValueError, ZeroDivisionError):  # no positive scale
            return v, None
        return v, (ret is gp, one_value(c, gp.scale()))

    for r, (v, o) in enumerate(c.spmd(body)):
        if o is None and k == 1:
            c.check(v <= 0, f"refused on rank {r}")
        elif o is None:
            c.check(c.Or(want <= 0, s0 <= 0), f"refused on rank {r}")
        else:
            c.ok(o[0], f"same model on rank {r}")
            c.eq(o[1], want, f"stored scale of rank {r}")


@everywhere("down", [dict(b=b, n=n, down=d, it=i) for b, n, d, i in (
    (3, 2, 1, 1), (1, 2, 1, 2), (2, 3, 2, 1), (5, 2, 1, 1))], RANKS,
    max_paths=600)
def down_scale(c, b, n, down, it):
    """The downsampled scale uses one sample of neighbors for the whole batch
    and sums over it, on every rank."""
    K = spd_inputs(c, "K", b, n)
    y = c.reals("y", (b, n))
    eps = c.nonneg("noise", 0.05, 0.4)
    Kin, Y = c.arr(K), np.asarray(c.raw(y))
    # every rank may draw another sample
    picks = [[[c.int(f"pick{r}_{k}_{j}", 0, n - 1 - j) for j in range(down)]
              for k in range(it)] for r in range(3)]

    def body(rank):
        drawn = []

        def choice(a, size=None, replace=True, p=None):
            pool = list(range(int(a))) if np.ndim(a) == 0 else list(
                np.array(a).tolist())
            c.ok(pool == list(range(n)), "sampled among all neighbors",
                 str(pool))
            c.ok(int(size) == down and replace is False, "sample")
            out = []
            for q in picks[rank][len(drawn)]:
                left = [x for x in pool if x not in out]
                for h, x in enumerate(left):
                    if h == len(left) - 1 or c.branch(q == h):
                        out.append(x)
                        break
            drawn.append(out)
            return np.array(out)

        stubs.patch(c, "random.choice", choice)
        m = M()
        gp = simple_gp(m, m.Homo(eps), scale=m.DownSampleScale(
            down_count=down, iteration_count=it))
        return (one_value(c, gp.scale.get_opt_fn(gp)(mine(Kin), mine(y))),
                drawn)

    out = c.spmd(body)
    used = [o[1] for o in out if len(o[1]) == it]
    c.ok(bool(used), "as many samples as iterations")
    vals = []
    for s in used[0]:
        v = c.const(0)
        for i in range(b):
            A = add_noise(c, K[i], eps)[np.ix_(s, s)]
            v = v + quad(c, A, Y[i][s])
        vals.append(v / (b * down))
    e = vals[0]
    for v in vals[1:]:
        e = e + v
    agree(c, [o[0] for o in out], e / it, "downsampled scale")


@everywhere("multivariate", [dict(b=b, n=n, r=r) for b, n, r in (
    (1, 2, 2), (3, 2, 2), (4, 1, 3), (2, 2, 1))], RANKS)
def multivariate(c, b, n, r):
    """Multivariate means, variances and scales of the chunks."""
    X = c.features("X", 4, 1)
    Z = c.features("Z", 3, 1)
    y = c.reals("y", (4, r))
    ls = [[c.pos(f"ls{q}", 0.6, 1.6)] for q in range(r)]
    eps = [c.pos(f"noise{q}", 0.05, 0.4) for q in range(r)]
    sc = [c.pos(f"scale{q}", 0.5, 2.0) for q in range(r)]
    nn = table(b, n) % 4
    bi = np.array([(2 * i + 1) % 3 for i in range(b)])
    Xr, Zr, Y = (np.asarray(c.raw(v)) for v in (X, Z, y))

    def body(rank):
        m = M()
        gp = m.MultivariateMuyGPS(*[dict(
            kernel=kernel(c, m, "m05", ls[q]), noise=m.Homo(eps[q]),
            scale=m.FixedScale(val=sc[q])) for q in range(r)])
        cd, pd, nt = gp.make_predict_tensors(bi, nn, Z, X, y)
        out = (gp.posterior_mean(pd, cd, nt), gp.posterior_variance(pd, cd))
        m = M()
        gp = m.MultivariateMuyGPS(*[dict(
            kernel=kernel(c, m, "m05", ls[q]), noise=m.Homo(eps[q]),
            scale=m.AnalyticScale()) for q in range(r)])
        fns = [g.scale.get_opt_fn(g) for g in gp.models]
        raw = [one_value(c, f(g.kernel(pd), nt[:, :, q:q + 1]))
               for q, (f, g) in enumerate(zip(fns, gp.models))]
        return out + (raw,)

    out = c.spmd(body)
    mu, var = (np.empty((b, r), dtype=object) for _ in range(2))
    for q in range(r):
        s = c.const(0)
        for i in range(b):
            G = gram(c, "m05", Xr[nn[i]], ls[q], noise=eps[q])
            Q = c.inv(G)
            k = cross(c, "m05", Zr[bi[i]], Xr[nn[i]], ls[q])
            w = c.matvec(Q, k)
            mu[i, q] = dot(c, w, Y[nn[i], q])
            var[i, q] = sc[q] * (1 - dot(c, k, w))
            s = s + quad(c, G, Y[nn[i], q])
        agree(c, [o[2][q] for o in out], s / (b * n), f"scale {q}")
    chunks(c, [o[0] for o in out], mu, "mean")
    chunks(c, [o[1] for o in out], var, "variance")


@everywhere("predict", [dict(kind=k, d=d, b=b, n=n, r=r, aniso=a)
                        for k, d, b, n, r, a in (
                            ("rbf", 1, 3, 2, None, False),
                            ("rbf", 2, 1, 2, 1, True),
                            ("m15", 1, 4, 1, 2, False),
                            ("m05", 2, 2, 2, None, True))], RANKS)
def predict(c, kind, d, b, n, r, aniso):
    """Posterior means and variances of the chunks are the serial ones."""
    X = c.features("X", 4, d)
    Z = c.features("Z", 3, d)
    y = c.reals("y", (4,) if r is None else (4, r))
    ls = lengths(c, d, aniso)
    eps = c.nonneg("noise", 0.05, 0.4)
    nn = table(b, n) % 4
    bi = np.array([(2 * i + 1) % 3 for i in range(b)])
    Xr, Zr, Y = (np.asarray(c.raw(v)) for v in (X, Z, y))

    def body(rank):
        m = M()
        gp = m.MuyGPS(kernel=kernel(c, m, kind, ls, aniso), noise=m.Homo(eps))
        cd, pd, nt = gp.make_predict_tensors(bi, nn, Z, X, y)
        Kin, Kcross = gp.kernel(pd), gp.kernel(cd)
        return (gp.posterior_mean(Kin, Kcross, nt),
                gp.posterior_variance(Kin, Kcross))

    out = c.spmd(body)
    mu = np.empty((b,) if r is None else (b, r), dtype=object)
    var = np.empty((b,), dtype=object)
    for i in range(b):
        Q = c.inv(gram(c, kind, Xr[nn[i]], ls, aniso, noise=eps))
        k = cross(c, kind, Zr[bi[i]], Xr[nn[i]], ls, aniso)
        w = c.matvec(Q, k)
        var[i] = 1 - dot(c, k, w)
        if r is None:
            mu[i] = dot(c, w, Y[nn[i]])
        else:
            for q in range(r):
                mu[i, q] = dot(c, w, Y[nn[i], q])
    chunks(c, [o[0] for o in out], mu, "mean")
    chunks(c, [o[1] for o in out], var, "variance")


everywhere("predict", [
    dict(kind=k, d=d, b=b, n=n, r=r, aniso=False) for k, d, b, n, r in (
        ("rbf", 1, 13, 2, None), ("m05", 2, 4, 2, 2), ("m15", 1, 23, 1, 12))],
    BIG)(predict)


def lossf(loss):
    import MuyGPyS.optimize.loss as L

    return dict(mse=L.mse_fn, huber=L.pseudo_huber_fn, lool=L.lool_fn,
                looph=L.looph_fn)[loss]


@everywhere("objective", [dict(kind=k, loss=L, scale=z, b=b, n=n)
                          for k, L, z, b, n in (
                              ("rbf", "mse", "fixed", 3, 1),
                              ("rbf", "lool", "analytic", 3, 1),
                              ("m05", "lool", "analytic", 2, 2),
                              ("m15", "huber", "given", 2, 2),
                              ("m05", "looph", "analytic", 1, 2),
                              ("rbf", "looph", "given", 3, 2))], RANKS)
def objective(c, kind, loss, scale, b, n):
    """The objective is one number, on every rank, that of the serial
    batch; the optimizer returns the same model everywhere."""
    opt = ["length_scale", "noise"]
    bd = {}
    shared = Serial(c, kind, opt, scale, b, n)

    def body(rank):
        import MuyGPyS.optimize as O

        m = M()
        bd[rank] = Build(c, m, kind, 1, opt, "homo", scale)
        gp = bd[rank].gp
        cd, pd, bt, nt = gp.make_train_tensors(
            shared.bi, shared.nn, shared.X, shared.y)
        got = []

        def minimize(fun, x0, args=(), method=None, bounds=None, **kw):
            ths = [shared.stored(), shared.theta]
            for th in ths:
                got.append(one_value(c, fun(c.arr(np.array(
                    [th[q] for q in shared.order], dtype=object)))))
            return SimpleNamespace(x=c.arr(np.array(
                [shared.theta[q] for q in shared.order], dtype=object)),
                fun=got[-1])

        stubs.patch(c, "opt.minimize", minimize)
        new = O.L_BFGS_B_optimize(gp, bt, nt, cd, pd, loss_fn=lossf(loss))
        return got, one_value(c, new.kernel.deformation.length_scale()), \
            one_value(c, new.noise())

    out = c.spmd(body)
    for i, th in enumerate(({}, shared.theta)):
        agree(c, [o[0][i] for o in out], shared.objective(loss, th),
              ("start", "other point")[i])
    for r, o in enumerate(out):
        c.eq(o[1], shared.theta["length_scale"], f"length scale on rank {r}")
        c.eq(o[2], shared.theta["noise"], f"noise on rank {r}")


class Serial:
    """Data and serial oracle of the objective (no package code)."""

    def __init__(self, c, kind, opt, scale, b, n):
        self.c = c
        m = M()
        self.bd = Build(c, m, kind, 1, opt, "homo", scale)
        self.X = c.features("X", 4, 1)
        self.y = c.reals("y", (4,))
        self.bi = np.arange(b)
        self.nn = np.array([[(i + 1) % 4, (i + 2) % 4][:n]
                            for i in range(b)])
        self.theta = {"length_scale": c.pos("t_l", 0.4, 2.0),
                      "noise": c.pos("t_n", 0.01, 0.5)}
        for q, v in self.theta.items():
            c.assume(v > self.bd.bounds[q][0])
            c.assume(v < self.bd.bounds[q][1])
        self.order = opt

    def stored(self):
        return {q: self.bd.stored[q] for q in self.order}

    def objective(self, loss, th):
        c = self.c
        Y = np.asarray(c.raw(self.y)).reshape(-1, 1)
        X = np.asarray(c.raw(self.X))
        mu, var, s = self.bd.loo(th, X, self.bi, self.nn, Y)
        return loss_value(c, loss, mu, var, s, list(Y[self.bi, 0]), {})


everywhere("objective", [
    dict(kind=k, loss=L, scale=z, b=4, n=1) for k, L, z in (
        ("rbf", "mse", "fixed"), ("m05", "looph", "given"))],
    BIG)(objective)


@everywhere("sample", [dict(how=h) for h in ("sample", "log_sample")], RANKS)
def sampled(c, how):
    """A sampled hyperparameter has the same value on every rank."""
    draws = [c.real(f"u{k}", 0.2, 1.9, pos=True) for k in range(4)]
    for u in draws:
        c.assume(u > 0.1)
        c.assume(u < 2.0)
    k = [0]

    def body(rank):
        def uniform(low=0.0, high=1.0, size=None):
            return draws[rank] if how == "sample" else c.log(draws[rank])

        stubs.patch(c, "random.uniform", uniform)
        return one_value(c, M().P(how, (0.1, 2.0))())

    out = c.spmd(body)
    for r, o in enumerate(out):
        c.eq(o, draws[0], f"value on rank {r}")


@everywhere("bayes", [dict(given=g) for g in (False, True)], RANKS)
def bayes(c, given):
    """Bayesian optimization visits the same points on every rank."""
    shared = Serial(c, "rbf", ["length_scale", "noise"], "fixed", 3, 1)

    def body(rank):
        import MuyGPyS.optimize as O

        log = []

        class Bayes:
            def __init__(self, f, pbounds, **kw):
                log.append(kw.get("random_state"))
                self.max = dict(target=0.0, params=dict(shared.theta))

            def probe(self, params, lazy=True):
                pass

            def maximize(self, init_points=None, n_iter=None, **kw):
                pass

        stubs.patch(c, "BayesianOptimization", Bayes)
        stubs.patch(c, "random.randint",
                    lambda *a, **k: np.int64(101 + rank))
        m = M()
        gp = Build(c, m, "rbf", 1, ["length_scale", "noise"]).gp
        cd, pd, bt, nt = gp.make_train_tensors(
            shared.bi, shared.nn, shared.X, shared.y)
        kw = dict(random_state=5) if given else {}
        O.Bayes_optimize(gp, bt, nt, cd, pd, **kw)
        return log

    out = c.spmd(body)
    for r, o in enumerate(out):
        c.ok(len(o) == 1, f"one optimizer on rank {r}")
        if given:
            c.ok(o[0] == 5, f"given random state on rank {r}", str(o[0]))
        else:
            c.ok(len(out) == 1 or o[0] is not None and o[0] == out[0][0],
                 "one random state", f"rank {r}: {o[0]}")


