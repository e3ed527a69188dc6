"""C22: regression and classification workflows use the model they return."""

from copy import deepcopy
from types import SimpleNamespace

import numpy as np

from symx import stubs
from symx.registry import case

from .c20 import Batches
from .common import M, cross, dot, gram, idx, kernel, num, one_value

MIXED = "classes other than the first are not told apart"


class Search:
    """Neighbor search over symbolic points with a fixed table."""

    def __init__(self, c, X, T, t, b):
        self.c, self.X, self.T, self.t = c, X, T, t
        self.fits = 0
        me = self

        class Exact:
            def __init__(self, n_neighbors=5, metric="minkowski", p=2, **kw):
                self.n_neighbors, self.metric, self.p = n_neighbors, metric, p

            def fit(self, A):
                me.fits += 1
                c.eq(A, X, "indexed points")
                return self

            def kneighbors(self, A=None, n_neighbors=None,
                           return_distance=True):
                n = n_neighbors or self.n_neighbors
                out = []
                for x in np.asarray(c.raw(A)):
                    out.append(me.row(list(x))[:n])
                ia = np.array(out, dtype=np.int64)
                D = np.arange(ia.size, dtype=float).reshape(ia.shape)
                return (D, ia) if return_distance else ia

        stubs.patch(c, "NearestNeighbors", Exact)

    def find(self, x, rows):
        hit = [i for i, r in enumerate(rows)
               if all(self.c.same(a, b) for a, b in zip(x, r))]
        return hit[0] if hit else None

    def row(self, x):
        i = self.find(x, self.X)
        if i is not None:
            return [i] + self.near(i)
        j = self.find(x, self.T)
        self.c.ok(j is not None, "queries are points of the data")
        return self.test(j or 0)

    def near(self, i):
        """The other training points, nearest first."""
        return [(i + 1 + k) % self.t for k in range(self.t - 1)]

    def test(self, j):
        return [(2 * j + 1 - k) % self.t for k in range(self.t)]


def setup(c, t, b, n, d):
    X, T = c.reals("X", (t, d)), c.reals("T", (b, d))
    RX, RT = np.array(c.raw(X)), np.array(c.raw(T))
    look = Search(c, RX, RT, t, b)
    picked, ran = [], Batches(c)
    choose = ran.choice

    def choice(*a, **k):
        picked.append(choose(*a, **k))
        return picked[-1]

    stubs.patch(c, "random.choice", choice)
    stubs.patch(c, "random.permutation", lambda a: choice(
        a, a if np.ndim(a) == 0 else len(a), replace=False))
    return X, T, RX, RT, look


def predict(c, kind, P, x, R, Y, s):
    """Posterior mean and variance at x given rows R with responses Y."""
    K = gram(c, kind, R, [P.ls], noise=P.eps)
    k = cross(c, kind, x, R, [P.ls])
    w = c.matvec(c.inv(K), k)
    return ([dot(c, w, [Y[j][q] for j in range(len(R))])
             for q in range(len(Y[0]))], s * (1 - dot(c, w, k)))


def analytic(c, kind, P, RX, look, bi, n, Y):
    tot = c.const(0)
    for i in bi:
        nn = look.near(i)[:n]
        K = gram(c, kind, [RX[j] for j in nn], [P.ls], noise=P.eps)
        for q in range(Y.shape[1]):
            y = [Y[j, q] for j in nn]
            tot = tot + dot(c, c.matvec(c.inv(K), y), y)
    return tot / (len(bi) * n)


def params(c, r):
    return [SimpleNamespace(
        ls=c.pos(f"ls{q}", 0.6, 1.6), eps=c.pos(f"eps{q}", 0.05, 0.4),
        new=c.pos(f"new{q}", 0.6, 1.6)) for q in range(r)]


def kwargs(c, m, kind, P, scale, free):
    k = dict(kernel=m.RBF(deformation=m.Isotropy(m.F2, length_scale=m.P(
        P.ls, (0.01, 100.0)) if free else m.P(P.ls)))
        if kind == "rbf" else m.Matern(
            smoothness=m.P(0.5), deformation=m.Isotropy(
                m.l2, length_scale=m.P(P.ls, (0.01, 100.0)) if free
                else m.P(P.ls))),
        noise=m.Homo(P.eps))
    if scale == "analytic":
        k["scale"] = m.AnalyticScale()
    elif scale == "fixed":
        k["scale"] = m.FixedScale()
    return k


def optimizer(c, m, P, RX, look, Y, n, size, calls, multi, loss):
    """A user's optimizer: looks at its arguments, returns a new model."""

    def opt(muygps, bt, nt, cd, pd, loss_fn=None, verbose=False, **kw):
        q = len(calls)
        c.ok(loss_fn is loss, "the loss is passed on")
        c.ok(kw == dict(probe=3), "arguments of the optimizer", str(kw))
        D = muygps.kernel.deformation
        c.eq(one_value(c, D.length_scale()), P[q].ls, f"model {q}")
        iso = np.array(c.raw(cd), dtype=object)
        bi = []
        for i in range(RX.shape[0]):
            nn = look.near(i)[:n]
            want = D.crosswise_tensor(
                c.arr(RX), c.arr(RX), idx(c, [i]), idx(c, [nn]))
            for k in range(iso.shape[0]):
                if all(c.same(u, v) for u, v in zip(
                        iso[k].reshape(-1), np.array(
                            c.raw(want), dtype=object).reshape(-1))):
                    bi.append((k, i))
        bi = [i for _, i in sorted(bi)]
        c.ok(len(bi) == iso.shape[0] == len(set(bi)),
             "distinct batch elements with their neighborhoods", str(bi))
        if size is not None:
            c.ok(len(bi) == size, "batch size", str(len(bi)))
        if len(bi) != iso.shape[0]:
            bi = list(range(iso.shape[0]))
        nn = np.array([look.near(i)[:n] for i in bi])
        c.eq(pd, D.pairwise_tensor(c.arr(RX), idx(c, nn)), "pairwise tensor")
        y = Y[:, q:q + 1] if multi else Y
        shape = np.shape(c.raw(bt))
        c.eq(bt, num(c, y[bi]).reshape(shape), "batch targets")
        c.eq(nt, num(c, y[nn]).reshape(nn.shape + shape[1:]),
             "neighbors' targets")
        ret = deepcopy(muygps)
        ret.kernel._hyperparameters["length_scale"]._set_val(P[q].new)
        ret._make()
        calls.append(bi)
        return ret

    return opt


REG = [dict(kind="rbf", t=4, b=2, n=2, d=1, size=2),
       dict(kind="m05", t=3, b=1, n=1, d=2, size=2),
       dict(kind="rbf", t=4, b=3, n=1, d=1, size=9),
       dict(kind="rbf", t=3, b=2, n=2, d=1, size=1)]


@case("regress", grid=[dict(g, r=r, scale=s, free=f) for g in REG
                       for r, s, f in (
                           (1, "analytic", True), (1, "fixed", True),
                           (1, "analytic", False), (0, "default", True))
                       # the solver does not see that this scale is positive
                       if not (f and s == "analytic" and g["n"] > 1
                               and g["size"] > 1)],
      max_paths=200)
def regress(c, kind, t, b, n, d, size, r, scale, free):
    """A regression with one model."""
    import MuyGPyS.examples.regress as E
    from MuyGPyS.optimize.loss import mse_fn

    m = M()
    X, T, RX, RT, look = setup(c, t, b, n, d)
    y = c.reals("y", (t, r) if r else (t,), 0.2, 1.0, pos=True)
    Y = np.array(c.raw(y), dtype=object).reshape(t, max(r, 1))
    P = params(c, 1)
    for p in P:
        c.assume((p.ls >= 0.01) & (p.ls <= 100.0))
        c.assume((p.new >= 0.01) & (p.new <= 100.0))
    calls = []
    kw = kwargs(c, m, kind, P[0], scale, free)
    gp, lookup, mean, var = E.do_regress(
        T, X, y, nn_count=n, batch_count=size, loss_fn=mse_fn,
        opt_fn=optimizer(c, m, P, RX, look, Y, n, min(size, t), calls, False,
                         mse_fn),
        k_kwargs=kw, opt_kwargs=dict(probe=3))
    c.ok(len(calls) == int(free), "optimizations", str(len(calls)))
    if free:
        P[0].ls = P[0].new
    s = c.const(1)
    if free and scale == "analytic":
        s = analytic(c, kind, P[0], RX, look, calls[0], n, Y)
    finish(c, kind, P, [s], gp, lookup, mean, var, look, RX, RT, Y, n, r)
    mean, var, _ = E.regress_any(gp, T, X, lookup, y)
    finish(c, kind, P, [s], gp, lookup, mean, var, look, RX, RT, Y, n, r)


def finish(c, kind, P, S, gp, lookup, mean, var, look, RX, RT, Y, n, r):
    b = len(RT)
    mu, va = [], []
    for j in range(b):
        R = look.test(j)[:n]
        got = [predict(c, kind, p, RT[j], [RX[k] for k in R], [
            list(Y[k] if len(P) == 1 else Y[k, q:q + 1]) for k in R], s)
            for q, (p, s) in enumerate(zip(P, S))]
        mu.append([v for g in got for v in g[0]])
        va.append([g[1] for g in got])
    if r == 0:
        mu = [v[0] for v in mu]
    models = gp.models if len(P) > 1 else [gp]
    for q, g in enumerate(models):
        c.eq(one_value(c, g.scale()), S[q], f"scale {q}")
        c.eq(one_value(c, g.kernel.deformation.length_scale()), P[q].ls,
             f"length scale {q}")
    c.eq(np.array(c.raw(mean)).reshape(b, -1), num(c, mu).reshape(b, -1),
         "means")
    if var is not None:
        va = [v[0] for v in va] if len(P) == 1 else va
        c.eq(np.array(c.raw(var)).reshape(b, -1), num(c, va).reshape(b, -1),
             "variances")
    c.ok(look.fits == 1, "one index", str(look.fits))
    c.ok(lookup.nn_count == n, "returned lookup")


@case("multivariate", grid=[dict(g, free=f, scale="analytic" if
                                 g["n"] * g["size"] < 4 else "fixed")
                            for g in REG for f in ((True, True), (True, False),
                                      (False, True), (False, False))],
      max_paths=200)
def multivariate(c, kind, t, b, n, d, size, free, scale):
    """A regression with one model per response."""
    import MuyGPyS.examples.regress as E
    from MuyGPyS.optimize.loss import lool_fn

    m = M()
    X, T, RX, RT, look = setup(c, t, b, n, d)
    Y = c.reals("y", (t, 2), 0.2, 1.0, pos=True)
    RY = np.array(c.raw(Y), dtype=object)
    P = params(c, 2)
    for p in P:
        c.assume((p.ls >= 0.01) & (p.ls <= 100.0))
        c.assume((p.new >= 0.01) & (p.new <= 100.0))
    calls, order = [], [q for q in range(2) if free[q]]
    kw = [kwargs(c, m, kind, P[q], scale, free[q]) for q in range(2)]
    # optimized in the order of the models
    Q, YQ = [P[q] for q in order], RY[:, order]
    gp, lookup, mean, var = E.do_regress(
        T, X, Y, nn_count=n, batch_count=size,
        opt_fn=optimizer(c, m, Q, RX, look, YQ, n, min(size, t), calls, True,
                         lool_fn),
        k_kwargs=kw, opt_kwargs=dict(probe=3))
    c.ok(len(calls) == len(order), "optimizations", str(len(calls)))
    S = [c.const(1)] * 2
    for q in order:
        P[q].ls = P[q].new
    if order and scale == "analytic":
        S = [analytic(c, kind, P[q], RX, look, calls[0], n, RY[:, q:q + 1])
             for q in range(2)]
    finish(c, kind, P, S, gp, lookup, mean, var, look, RX, RT, RY, n, 2)


CLS = [dict(kind="rbf", t=4, b=2, n=2, d=1, k=2, lo=0.0),
       dict(kind="rbf", t=3, b=2, n=2, d=1, k=3, lo=0.0),
       dict(kind="m05", t=3, b=3, n=2, d=1, k=2, lo=-1.0),
       dict(kind="rbf", t=4, b=1, n=3, d=1, k=3, lo=-1.0)]


def labels(c, t, k):
    """Any class for each training point."""
    out = []
    for i in range(t):
        v = c.int(f"class{i}", 0, k - 1)
        q = 0
        while q < k - 1 and not c.branch(v <= q):
            q += 1
        out.append(q)
    return out


def onehot(c, cls, k, lo):
    L = np.full((len(cls), k), lo)
    for i, q in enumerate(cls):
        L[i, q] = 1.0
    return L


@case("classify", grid=[dict(g, multi=q) for g in CLS for q in (False, True)],
      max_paths=200)
def classify(c, kind, t, b, n, d, k, lo, multi):
    """Classes agreed upon by all neighbors, otherwise posterior means."""
    import MuyGPyS.examples.classify as E

    m = M()
    cls = labels(c, t, k)
    L = onehot(c, cls, k, lo)
    X, T, RX, RT, look = setup(c, t, b, n, d)
    P = params(c, k if multi else 1)
    kw = [kwargs(c, m, kind, p, "fixed", False) for p in P]
    gp, lookup, got = E.do_classify(
        T, X, c.arr(L.astype(object) if c.sym else L), nn_count=n,
        k_kwargs=kw if multi else kw[0],
        opt_fn=lambda *a, **k: c.ok(False, "nothing to optimize"))
    good, bad = [], []
    for j in range(b):
        R = look.test(j)[:n]
        A = [RX[i] for i in R]
        mu = [v for q, p in enumerate(P) for v in predict(
            c, kind, p, RT[j], A,
            [list(L[i] if not multi else L[i, q:q + 1]) for i in R], 1)[0]]
        near = [c.const(v) for v in L[R[0]]]
        good.append(near if len({cls[i] for i in R}) == 1 else mu)
        bad.append(near if len({cls[i] == 0 for i in R}) == 1 else mu)
    c.eq_known(got, num(c, good), num(c, bad), "predictions", MIXED)


@case("uq", grid=[g for g in CLS if g["k"] == 2], max_paths=200)
def uq(c, kind, t, b, n, d, k, lo):
    """Two-class predictions with variances."""
    import MuyGPyS.examples.two_class_classify_uq as U
    from MuyGPyS.neighbors import NN_Wrapper

    m = M()
    cls = labels(c, t, k)
    L = onehot(c, cls, k, lo)
    X, T, RX, RT, look = setup(c, t, b, n, d)
    P = params(c, 1)
    s = c.pos("s", 0.5, 2)
    gp = m.MuyGPS(**kwargs(c, m, kind, P[0], "fixed", False))
    gp.scale._set(s)
    gp._make()
    mean, var, _ = U.classify_two_class_uq(
        gp, T, X, NN_Wrapper(X, n),
        c.arr(L.astype(object) if c.sym else L))
    mu, va = [], []
    for j in range(b):
        R = look.test(j)[:n]
        p, v = predict(c, kind, P[0], RT[j], [RX[i] for i in R],
                       [list(L[i]) for i in R], s)
        one = len({cls[i] for i in R}) == 1
        mu.append([c.const(v) for v in L[R[0]]] if one else p)
        va.append(c.const(0) if one else v)
    c.eq(mean, num(c, mu), "means")
    c.eq(var, num(c, va), "variances")


# a balanced batch has size // k elements of each class: at least one
@case("train", grid=[dict(g, size=z) for g in CLS[:2] for z in (2, 3, 4)
                     if z >= g["k"]],
      max_paths=200)
def train(c, kind, t, b, n, d, k, lo, size):
    """Training a classifier fits neighborhoods and their labels."""
    import MuyGPyS.examples.classify as E
    from MuyGPyS.optimize.loss import cross_entropy_fn

    m = M()
    cls = labels(c, t, k)
    L = onehot(c, cls, k, lo)
    X, T, RX, RT, look = setup(c, t, b, n, d)
    mixed = [i for i in range(t) if len({cls[j] for j in
                                         look.near(i)[:n]}) > 1]
    if not mixed:
        return
    P = params(c, 1)
    c.assume((P[0].ls >= 0.01) & (P[0].ls <= 100.0))
    c.assume((P[0].new >= 0.01) & (P[0].new <= 100.0))
    calls = []
    gp, lookup = E.make_classifier(
        X, c.arr(L.astype(object) if c.sym else L), nn_count=n,
        batch_count=size, opt_fn=optimizer(
            c, m, P, RX, look, num(c, L), n, None, calls, False,
            cross_entropy_fn),
        k_kwargs=kwargs(c, m, kind, P[0], "fixed", True),
        opt_kwargs=dict(probe=3))
    c.ok(len(calls) == 1 and 0 < len(calls[0]) <= size, "one optimization",
         str(calls))
    c.ok(all(len({cls[j] for j in look.near(i)[:n]}) > 1 for i in calls[0]),
         "batch of mixed neighborhoods", str(calls))
    c.eq(one_value(c, gp.kernel.deformation.length_scale()), P[0].new,
         "returned model")


@case("accuracy", grid=[dict(b=b, masks=q) for b, q in (
    (2, ((1, 0), (0, 1))), (3, ((1, 1, 0), (0, 0, 0), (0, 1, 1))))],
    max_paths=300)
def accuracy(c, b, masks):
    """Counts and accuracies of ambiguous and other predictions."""
    import MuyGPyS.examples.two_class_classify_uq as U

    p = c.reals("p", (b, 2))
    R = np.array(c.raw(p))
    cls = labels(c, b, 2)
    L = onehot(c, cls, 2, -1.0)
    A = np.array(masks, dtype=bool)
    acc, uq = U.do_uq(p, L, A)
    hit = [bool(c.branch(R[i, 1] > R[i, 0])) == bool(cls[i])
           for i in range(b)]
    c.eq(one_value(c, acc), c.const(sum(hit) / b), "accuracy")
    for q, a in enumerate(A):
        ins = [h for h, x in zip(hit, a) if x]
        out = [h for h, x in zip(hit, a) if not x]
        got = np.array(c.raw(uq))[q]
        c.eq(got, num(c, [len(ins), np.mean(ins) if ins else 0.0,
                          np.mean(out)]), f"mask {q}")
