"""C17: hierarchical length scales interpolate their knots for every element."""

from types import SimpleNamespace

import numpy as np

from symx import stubs
from symx.registry import case

from .c09 import frozen, loss_value, obj_of
from .c10 import clamp, lossf, num1
from .common import (
    M, add_noise, cross, dot, gram, idx, kernel, num, one_value,
    sqdist)

B2 = ("numpy", "torch")


class Hier:
    """A model whose length scale is hierarchical, and its oracle."""

    def __init__(self, c, kind, hkind, d, k, free=(), hnoise=None,
                 nugget=True, haniso=False, scale="fixed", tag=""):
        from MuyGPyS.gp.hyperparameter.experimental import (
            HierarchicalParameter)

        m = self.m = M()
        self.c, self.kind, self.hkind, self.d, self.k = c, kind, hkind, d, k
        self.haniso = haniso
        self.Z = c.reals(tag + "knot", (k, d))
        self.hls = [c.pos(f"{tag}upper{i}", 0.6, 1.6)
                    for i in range(d if haniso else 1)]
        self.stored, ps = {}, []
        self.free = [f"length_scale{i}" for i in free]
        self.bounds = {f"length_scale{i}": (0.1 + i / 100, 3.0 + i / 10)
                       for i in range(k)}
        for i in range(k):
            q = f"length_scale{i}"
            v = c.pos(tag + q, 0.6, 1.6)
            if i in free:
                lo, hi = self.bounds[q]
                c.assume(v > lo)
                c.assume(v < hi)
                ps.append(m.P(v, (lo, hi)))
            else:
                ps.append(m.P(v))
            self.stored[q] = v
        self.upper = kernel(c, m, hkind, self.hls, haniso)
        if hnoise is None:
            self.hv = 1e-5
            h = HierarchicalParameter(self.Z, m.VP(*ps), self.upper)
        else:
            self.hv = c.nonneg(tag + "hnoise", 0.05, 0.4)
            h = HierarchicalParameter(self.Z, m.VP(*ps), self.upper,
                                      m.Homo(self.hv))
        self.h = h
        de = m.Isotropy(m.F2 if kind == "rbf" else m.l2, length_scale=h)
        ker = (m.RBF(deformation=de) if kind == "rbf" else m.Matern(
            smoothness=m.P({"m05": 0.5, "m15": 1.5, "m25": 2.5}[kind]),
            deformation=de))
        self.ker = ker
        self.eps = c.const(0)
        nz = m.Null()
        if nugget:
            self.eps = c.nonneg(tag + "noise", 0.05, 0.4)
            nz = m.Homo(self.eps)
        self.scale_kind = scale
        self.gp = m.MuyGPS(kernel=ker, noise=nz, scale=(
            m.AnalyticScale() if scale == "analytic" else m.FixedScale()))

    # -- oracle ---------------------------------------------------------
    def lengths(self, F, theta=None):
        """The length scale at every row of F."""
        c = self.c
        v = {**self.stored, **(theta or {})}
        Z = c.raw(self.Z)
        inv = c.inv(gram(c, self.hkind, Z, self.hls, self.haniso,
                         c.const(self.hv) if isinstance(self.hv, float)
                         else self.hv))
        w = c.matvec(inv, [v[f"length_scale{i}"] for i in range(self.k)])
        return [dot(c, cross(c, self.hkind, f, Z, self.hls, self.haniso), w)
                for f in F]

    def k1(self, s, L):
        """Kernel value at the squared distance s for the length scale L."""
        c = self.c
        if self.kind == "rbf":
            return c.exp(-(s / (L * L) / 2))
        d = c.sqrt(s) / L
        if self.kind == "m05":
            return c.exp(-d)
        a = c.sqrt(c.const({"m15": 3, "m25": 5}[self.kind])) * d
        q = 1 + a + (a * a / 3 if self.kind == "m25" else 0)
        return q * c.exp(-a)

    def kmat(self, P, L):
        n = len(P)
        return num(self.c, [[self.k1(sqdist(self.c, P[i], P[j]), L)
                             for j in range(n)] for i in range(n)])

    def kvec(self, x, P, L):
        return num(self.c, [self.k1(sqdist(self.c, x, p), L) for p in P])


def data(c, H, b, n, t=None, r=0):
    t = t or n + 2
    X = c.reals("X", (t, H.d))
    y = c.reals("y", (t, r) if r else (t,))
    bi = np.array([(2 * i + 1) % t for i in range(b)])
    nn = np.array([[(bi[i] + 1 + j) % t for j in range(n)] for i in range(b)])
    cd, pd, bt, nt = H.gp.make_train_tensors(idx(c, bi), idx(c, nn), X, y)
    return SimpleNamespace(X=c.raw(X), y=c.raw(y), bi=bi, nn=nn, cd=cd, pd=pd,
                           bt=bt, nt=nt, feats=X[idx(c, bi)])


HIER = [
    dict(kind="rbf", hkind="rbf", d=1, k=2, b=2, n=2),
    dict(kind="m05", hkind="rbf", d=2, k=2, b=2, n=1),
    dict(kind="m15", hkind="m05", d=1, k=1, b=2, n=2),
    dict(kind="m25", hkind="m15", d=2, k=3, b=3, n=2),
    dict(kind="rbf", hkind="m25", d=2, k=3, b=1, n=3),
    dict(kind="rbf", hkind="rbf", d=1, k=1, b=1, n=2),
    dict(kind="m05", hkind="m05", d=2, k=2, b=2, n=2),
    dict(kind="rbf", hkind="rbf", d=3, k=2, b=3, n=3),
    dict(kind="m15", hkind="rbf", d=1, k=4, b=2, n=1),
]


# one large dimension at a time
LONG = [
    (dict(kind="rbf", hkind="rbf", d=1, k=6, b=2, n=2), (5, 2)),
    (dict(kind="m15", hkind="rbf", d=12, k=2, b=2, n=2), (1,)),
    (dict(kind="rbf", hkind="m05", d=1, k=2, b=40, n=2), (0,)),
    (dict(kind="m05", hkind="rbf", d=2, k=2, b=2, n=17), (1,)),
]


def values(c, kind, hkind, d, k, b, n, hnoise, haniso, sub):
    H = Hier(c, kind, hkind, d, k, hnoise=hnoise, haniso=haniso)
    D = data(c, H, b, n)
    F = D.X[D.bi]
    theta = {f"length_scale{i}": c.pos(f"new{i}", 0.5, 2) for i in sub}
    L, L2 = H.lengths(F), H.lengths(F, theta)
    for lab, th, ls in (("stored", {}, L), ("given", theta, L2),
                        ("stored again", {}, L)):
        kw = dict(batch_features=D.feats, **th)
        c.eq(H.ker.deformation.length_scale(D.feats, **th),
             num(c, ls if b > 1 else ls[0]), f"length scales, {lab}")
        c.eq(H.ker(D.pd, **kw), num(c, [
            H.kmat(D.X[D.nn[i]], ls[i]) for i in range(b)]), f"Kin, {lab}")
        c.eq(H.ker(D.cd, **kw), num(c, [
            H.kvec(F[i], D.X[D.nn[i]], ls[i]) for i in range(b)]),
            f"Kcross, {lab}")
        c.eq(H.ker.get_opt_fn()(D.pd, **kw), num(c, [
            H.kmat(D.X[D.nn[i]], ls[i]) for i in range(b)]),
            f"Kin for the optimizer, {lab}")
    for i in range(k):
        c.eq(one_value(c, H.ker._hyperparameters[f"length_scale{i}"]()),
             H.stored[f"length_scale{i}"], f"knot {i}")


def subsets(k):
    return sorted({(), tuple(range(k)), (k - 1,)})


@case("values", grid=[dict(g, hnoise=z, sub=tuple(s)) for g in HIER
                      for z in (None, "given")
                      for s in subsets(g["k"])]
      + [dict(g, hnoise="given", sub=s) for g, s in LONG],
      backends=B2)
def values_case(c, kind, hkind, d, k, b, n, hnoise, sub):
    """Each element's covariances use the length scale interpolated at that
    element's features from the stored or given knot values."""
    values(c, kind, hkind, d, k, b, n, hnoise, False, sub)


@case("aniso", grid=[dict(kind="rbf", hkind=h, d=2, k=k, b=b, n=2)
                     for h in ("rbf", "m05") for k, b in ((2, 2), (3, 1))],
      backends=B2)
def aniso(c, kind, hkind, d, k, b, n):
    """An anisotropic upper kernel."""
    values(c, kind, hkind, d, k, b, n, "given", True, (0,))


@case("order", grid=[dict(k=11, sub=s) for s in
                     ((), (10,), (1,), (2, 10), (10, 9, 1, 0))], backends=B2)
def order(c, k, sub):
    """More than ten knots keep their order, whatever is overridden."""
    H = Hier(c, "rbf", "rbf", 1, k, hnoise="given")
    F = c.reals("feat", (2, 1))
    theta = {f"length_scale{i}": c.pos(f"new{i}", 0.5, 2) for i in sub}
    c.eq(H.ker.deformation.length_scale(F, **theta),
         num(c, H.lengths(c.raw(F), theta)), "length scales")


@case("listing", grid=[dict(k=k, free=f) for k, f in (
    (1, ()), (1, (0,)), (2, (1,)), (3, (0, 2)), (3, (0, 1, 2)), (11, (10, 2)))],
    backends=B2)
def listing(c, k, free):
    """The free knots are the model's free parameters."""
    H = Hier(c, "m05", "rbf", 2, k, free=free)
    for lab, who in (("kernel", H.ker), ("model", H.gp)):
        names, params, bounds = who.get_opt_params()
        want = [f"length_scale{i}" for i in sorted(free)]
        c.ok(list(names) == want, f"names of the {lab}", str(names))
        c.eq(num(c, [one_value(c, p) for p in params]) if want else
             num(c, []), num(c, [H.stored[q] for q in want]), f"values of the {lab}")
        for q, b in zip(want, bounds):
            c.eq(num1(c, b[0]), H.bounds[q][0], f"lower bound of {q}")
            c.eq(num1(c, b[1]), H.bounds[q][1], f"upper bound of {q}")
    c.ok(H.h.fixed() == (not free), "parameter fixed")
    c.ok(H.ker.deformation.length_scale.fixed() == (not free),
         "length scale fixed")
    c.ok(H.gp.fixed() == (not free), "model fixed")
    c.eq(H.ker.deformation.length_scale.knot_values(),
         num(c, [H.stored[f"length_scale{i}"] for i in range(k)]), "knots")


@case("update", grid=[dict(g, sub=s) for g, s in (
    (HIER[0], (1,)), (HIER[1], (0, 1)), (HIER[4], (2,)), (HIER[2], (0,)))],
    backends=B2)
def update(c, kind, hkind, d, k, b, n, sub):
    """Knot values set on the kernel are used from then on."""
    H = Hier(c, kind, hkind, d, k, free=sub)
    D = data(c, H, b, n)
    F = D.X[D.bi]
    th = {f"length_scale{i}": c.pos(f"new{i}", 0.5, 2) for i in sub}
    for q, v in th.items():
        lo, hi = H.bounds[q]
        c.assume(v > lo)
        c.assume(v < hi)
    L = H.lengths(F, th)
    L0 = H.lengths(F)
    c.eq(H.ker(D.pd, batch_features=D.feats), num(c, [
        H.kmat(D.X[D.nn[i]], L0[i]) for i in range(b)]), "Kin, before")
    H.ker.set_params(**{
        q: H.m.P(v, H.bounds[q]) for q, v in th.items()})
    c.eq(H.ker(D.pd, batch_features=D.feats), num(c, [
        H.kmat(D.X[D.nn[i]], L[i]) for i in range(b)]), "Kin")


def loo(c, H, D, theta, r=0):
    F = D.X[D.bi]
    L = H.lengths(F, theta)
    b, n = D.nn.shape
    mu, var, quad = [], [], c.const(0)
    Y = np.array(D.y, dtype=object).reshape(len(D.X), -1)
    for i in range(b):
        P = D.X[D.nn[i]]
        inv = c.inv(add_noise(c, H.kmat(P, L[i]), H.eps))
        kv = list(H.kvec(F[i], P, L[i]))
        w = c.matvec(inv.T, kv)
        mu.append([dot(c, w, list(Y[D.nn[i], q])) for q in range(Y.shape[1])])
        var.append(1 - dot(c, w, kv))
        y = list(Y[D.nn[i], 0])
        quad = quad + dot(c, y, c.matvec(inv, y))
    s = quad / (b * n) if H.scale_kind == "analytic" else c.const(1)
    return mu, var, s


def score(c, H, D, theta, loss):
    mu, var, s = loo(c, H, D, theta)
    return loss_value(c, loss, mu, var, s, list(D.y[D.bi]), {})


OBJ = [dict(kind="rbf", hkind="rbf", d=1, k=2, b=2, n=2, free=(0, 1)),
       dict(kind="m05", hkind="rbf", d=2, k=3, b=2, n=1, free=(2,)),
       dict(kind="rbf", hkind="m05", d=2, k=2, b=1, n=2, free=(0,)),
       dict(kind="m15", hkind="rbf", d=1, k=1, b=2, n=2, free=(0,))]


@case("objective", grid=[dict(g, loss=L, scale=s) for g in OBJ
                         for L, s in (("mse", "fixed"), ("lool", "analytic"),
                                      ("looph", "fixed"))],
      backends=B2)
def objective(c, kind, hkind, d, k, b, n, free, loss, scale):
    """The objective scores the predictions made with the candidate knots."""
    import MuyGPyS.optimize as O

    H = Hier(c, kind, hkind, d, k, free=free, scale=scale)
    D = data(c, H, b, n)
    A = {q: c.pos("A" + q, 0.4, 2) for q in H.free}
    obj = O.Bayes_optimize.make_obj_fn(
        H.gp, D.bt, D.nt, D.cd, D.pd, batch_features=D.feats,
        loss_fn=lossf(loss))
    for lab, th in (("candidate", A), ("stored", {}), ("again", A)):
        c.eq(one_value(c, obj(**th)), -score(c, H, D, th, loss),
             f"objective, {lab}")


@case("optimize", grid=[dict(g, loss=L, scale=s) for g in OBJ
                        for L, s in (("mse", "fixed"), ("lool", "analytic"))],
      max_paths=200)
def optimize(c, kind, hkind, d, k, b, n, free, loss, scale):
    """Optimization returns a model with the best knots found."""
    import MuyGPyS.optimize as O

    H = Hier(c, kind, hkind, d, k, free=free, scale=scale)
    D = data(c, H, b, n)
    x1 = {q: c.pos("try_" + q, 0.05, 4) for q in H.free}
    log = SimpleNamespace(calls=0)

    def minimize(fun, x0, args=(), method=None, bounds=None, **kw):
        log.calls += 1
        bs = list(bounds)
        c.ok(len(bs) == len(H.free), "bounds", str(len(bs)))
        for q, (lo, hi) in zip(H.free, bs):
            c.eq(num1(c, lo), H.bounds[q][0], f"lower bound of {q}")
            c.eq(num1(c, hi), H.bounds[q][1], f"upper bound of {q}")
        x0 = list(c.raw(x0))
        for q, v in zip(H.free, x0):
            c.eq(v, H.stored[q], f"start {q}")
        a = [c.arr(np.array(x, dtype=object)) for x in (
            x0, [x1[q] for q in H.free])]
        f = [one_value(c, fun(x)) for x in a]
        for v, th, lab in zip(f, ({}, x1), ("start", "other point")):
            c.eq(v, score(c, H, D, th, loss), f"loss at the {lab}")
        log.best = bool(c.branch(c.bool("better")))
        return SimpleNamespace(x=a[log.best], fun=f[log.best])

    c.eq(H.ker.deformation.length_scale(D.feats).reshape(-1),
         num(c, H.lengths(D.X[D.bi])), "length scales before")
    stubs.patch(c, "opt.minimize", minimize)
    new = O.L_BFGS_B_optimize(H.gp, D.bt, D.nt, D.cd, D.pd, loss_fn=lossf(loss),
                              batch_features=D.feats)
    c.ok(log.calls == 1, "one minimization", str(log.calls))
    th = {q: (clamp(c, x1[q], *H.bounds[q]) if log.best else H.stored[q])
          for q in H.free}
    for lab, gp, t in (("returned", new, th), ("original", H.gp, {})):
        mu, var, _ = loo(c, H, D, t)
        kw = dict(batch_features=D.feats)
        Kin, Kcross = gp.kernel(D.pd, **kw), gp.kernel(D.cd, **kw)
        c.eq(gp.posterior_mean(Kin, Kcross, D.nt), num(c, [x[0] for x in mu]),
             f"mean of the {lab} model")
        for i in range(k):
            q = f"length_scale{i}"
            c.eq(one_value(c, gp.kernel._hyperparameters[q]()),
                 {**H.stored, **t}[q], f"{lab} {q}")


@case("two", grid=[dict(first=f) for f in (True, False)], backends=B2)
def two(c, first):
    """Two hierarchical models with the same names do not mix."""
    A = Hier(c, "rbf", "rbf", 1, 2, free=(0,), tag="a_")
    B = Hier(c, "m05", "rbf", 1, 3, free=(1,), tag="b_")
    D = data(c, A, 2, 2)
    v = c.pos("new", 0.5, 1.5)
    for H in (A, B):
        c.eq(H.ker.deformation.length_scale(D.feats),
             num(c, H.lengths(D.X[D.bi])), "length scales, before")
    (A if first else B).ker.set_params(
        **{"length_scale0" if first else "length_scale1": A.m.P(v)})
    for H, th in ((A, {"length_scale0": v} if first else {}),
                  (B, {} if first else {"length_scale1": v})):
        c.eq(H.ker.deformation.length_scale(D.feats),
             num(c, H.lengths(D.X[D.bi], th)), "length scales")


@case("lengths", grid=[dict(k=k, f=f) for k, f in ((1, 2), (2, 1), (2, 3),
                                                  (3, 2), (1, 1), (2, 2))],
      backends=B2)
def mismatch(c, k, f):
    """As many knot values as knots are needed."""
    from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParameter

    m = M()
    Z = c.reals("knot", (f, 1))
    ps = [m.P(c.pos(f"v{i}", 0.5, 2)) for i in range(k)]
    try:
        HierarchicalParameter(Z, m.VP(*ps), kernel(c, m, "rbf", [c.pos("u")]))
        ok = True
    except ValueError:
        ok = False
    c.ok(ok == (k == f), "accepted", f"{k} values, {f} knots")
