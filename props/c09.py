"""C09: the leave-one-out objective scores the model with those parameters."""

import numpy as np

from symx.registry import case

from .c08 import huber, looph, lool, mse
from .common import (
    M, cross, distinct_rows, dot, gram, idx, kernel, num, one_value)

B2 = ("numpy", "torch")


def free(c, m, name, lo=0.1, hi=2.0):
    """A free parameter with symbolic stored value, and that value."""
    v = c.real(name, 0.5, 1.5, pos=True)
    c.assume(v > lo)
    c.assume(v < hi)
    return m.P(v, (lo, hi)), v


class Build:
    """A model with the named parameters free, and its stored values."""

    def __init__(self, c, m, kind, d, opt, noise="homo", scale="fixed",
                 aniso=False, b=0, n=0, tag="", bnd=None):
        bnd = {**{q: (0.1, 3.0) for q in (
            "length_scale", *(f"length_scale{k}" for k in range(16)))},
            "smoothness": (0.2, 3.0),
            "noise": (0.001, 1.0), **(bnd or {})}
        self.bounds = {q: bnd[q] for q in opt}
        self.c, self.m, self.kind, self.d, self.aniso = c, m, kind, d, aniso
        self.opt = list(opt)
        self.stored = {}
        names = ([f"length_scale{k}" for k in range(d)] if aniso
                 else ["length_scale"])
        ps = []
        for q in names:
            v = c.real(tag + q, 0.6, 1.6, pos=True)
            if q in opt:
                c.assume(v > bnd[q][0])
                c.assume(v < bnd[q][1])
                ps.append(m.P(v, bnd[q]))
            else:
                ps.append(m.P(v))
            self.stored[q] = v
        met = m.F2 if kind == "rbf" else m.l2
        de = (m.Anisotropy(met, length_scale=m.VP(*ps)) if aniso
              else m.Isotropy(met, length_scale=ps[0]))
        if kind == "rbf":
            ker = m.RBF(deformation=de)
        else:
            s = {"m05": 0.5, "m15": 1.5, "m25": 2.5, "minf": float("inf")}
            if kind in s:
                ker = m.Matern(smoothness=m.P(s[kind]), deformation=de)
            else:
                v = c.real(tag + "smoothness", 0.7, 2.3, pos=True)
                q = "smoothness"
                c.assume(v > bnd[q][0])
                c.assume(v < bnd[q][1])
                self.stored[q] = v
                ker = m.Matern(smoothness=m.P(v, bnd[q]), deformation=de)
        self.hetero = None
        if noise == "homo":
            v = c.real(tag + "noise", 0.05, 0.4, pos=True)
            if "noise" in opt:
                c.assume(v > bnd["noise"][0])
                c.assume(v < bnd["noise"][1])
                nz = m.Homo(v, bnd["noise"])
            else:
                nz = m.Homo(v)
            self.stored["noise"] = v
        elif noise == "hetero":
            a = c.reals(tag + "het", (b, n), 0.05, 0.4, pos=True)
            self.hetero = c.raw(a)
            nz = m.Hetero(a)
        else:
            nz = m.Null()
        self.scale_kind = scale
        self.scale_val = c.const(1)
        if scale == "given":
            self.scale_val = c.pos(tag + "scale", 0.5, 2.0)
            sc = m.FixedScale(val=self.scale_val)
        elif scale == "analytic":
            sc = m.AnalyticScale()
        elif scale.startswith("iter"):
            sc = m.AnalyticScale(iteration_count=int(scale[4:]))
        else:
            sc = m.FixedScale()
        self.gp = m.MuyGPS(kernel=ker, noise=nz, scale=sc)

    def theta(self, tag):
        """Fresh candidate values for the free parameters."""
        c, t = self.c, {}
        for q in self.opt:
            lo, hi = {"noise": (0.01, 0.5), "smoothness": (0.7, 2.3)}.get(
                q, (0.4, 2.0))
            t[q] = c.pos(f"{tag}_{q}", lo, hi)
        return t

    def values(self, theta):
        return {**self.stored, **theta}

    # -- oracle ---------------------------------------------------------
    def kmat(self, theta, P):
        v = self.values(theta)
        return gram(self.c, self.kind_fn(v), P, self.ls(v), self.aniso)

    def kvec(self, theta, x, P):
        v = self.values(theta)
        return cross(self.c, self.kind_fn(v), x, P, self.ls(v), self.aniso)

    def kind_fn(self, v):
        return self.kind

    def ls(self, v):
        if self.aniso:
            return [v[f"length_scale{k}"] for k in range(self.d)]
        return [v["length_scale"]]

    def noisy(self, theta, K, i):
        c = self.c
        v = self.values(theta)
        K = K.copy()
        for j in range(len(K)):
            e = (self.hetero[i][j] if self.hetero is not None
                 else v.get("noise", c.const(0)))
            K[j, j] = K[j, j] + e
        return K

    def loo(self, theta, X, bi, nn, Y):
        """(means [b][r], unscaled variances [b], scale)."""
        c = self.c
        mu, var, quad = [], [], c.const(0)
        for i in range(len(bi)):
            P = X[nn[i]]
            inv = c.inv(self.noisy(theta, self.kmat(theta, P), i))
            k = self.kvec(theta, X[bi[i]], P)
            w = c.matvec(inv.T, k)
            mu.append([dot(c, w, list(Y[nn[i], q])) for q in range(Y.shape[1])])
            var.append(1 - dot(c, w, k))
            y = list(Y[nn[i], 0])
            quad = quad + dot(c, y, c.matvec(inv, y))
        b, n = nn.shape
        s = self.scale_val
        if self.scale_kind == "analytic":
            s = quad / (b * n)
        elif self.scale_kind.startswith("iter"):
            # one pass of the noisy kernel divided by the current scale
            s0 = quad / (b * n)
            s = s0
            for _ in range(1, int(self.scale_kind[4:])):
                s = (s + s0 / s) / 2
        return mu, var, s


def problem(c, m, bd, b, n, d, r):
    t = max(n + 1, b)
    X = c.reals("X", (t, d))
    y = c.reals("y", (t, r) if r else (t,))
    bi = np.arange(b)
    nn = np.array([[(i + 1 + j) % t for j in range(n)] for i in range(b)])
    cd, pd, bt, nt = bd.gp.make_train_tensors(idx(c, bi), idx(c, nn), X, y)
    Y = np.array(c.raw(y), dtype=object).reshape(t, max(r, 1))
    return cd, pd, bt, nt, c.raw(X), Y, bi, nn


def loss_value(c, loss, mu, var, s, T, kw):
    P = [x for row in mu for x in row]
    if loss == "mse":
        return mse(c, P, T)
    if loss == "huber":
        return huber(c, P, T, kw.get("boundary_scale", c.const(1.5)))
    if loss == "lool":
        return lool(c, P, T, [s * v for v in var])
    if loss == "looph":
        return looph(c, P, T, [s * v for v in var],
                     kw.get("boundary_scale", c.const(3)))
    if loss == "unscaled":
        return lool(c, P, T, var)
    raise AssertionError(loss)


def obj_of(c, gp, cd, pd, bt, nt, loss, kw, **more):
    import MuyGPyS.optimize as O
    import MuyGPyS.optimize.loss as L

    fn = dict(mse=L.mse_fn, huber=L.pseudo_huber_fn, lool=L.lool_fn,
              looph=L.looph_fn, unscaled=L.lool_fn_unscaled,
              xent=L.cross_entropy_fn)[loss]
    return O.Bayes_optimize.make_obj_fn(
        gp, bt, nt, cd, pd, loss_fn=fn, loss_kwargs=kw, **more)


def frozen(c, gp):
    out = [(q, one_value(c, h()))
           for q, h in sorted(gp.kernel._hyperparameters.items())]
    v = gp.noise()
    if np.ndim(c.raw(v)) == 0 or getattr(v, "ndim", 1) == 0:
        out.append(("noise", c.raw(v)))
    out.append(("scale", one_value(c, gp.scale())))
    return out


OPTS = [
    dict(kind="rbf", d=1, opt="l", b=2, n=2, aniso=False),
    dict(kind="rbf", d=2, opt="ln", b=2, n=2, aniso=False),
    dict(kind="rbf", d=2, opt="n", b=1, n=2, aniso=False),
    dict(kind="m05", d=1, opt="ln", b=2, n=1, aniso=False),
    dict(kind="m15", d=2, opt="l", b=2, n=2, aniso=False),
    dict(kind="m25", d=1, opt="n", b=3, n=2, aniso=False),
    dict(kind="rbf", d=2, opt="01n", b=2, n=2, aniso=True),
    dict(kind="m05", d=2, opt="1", b=2, n=2, aniso=True),
    dict(kind="rbf", d=3, opt="02", b=1, n=2, aniso=True),
    dict(kind="minf", d=2, opt="ln", b=2, n=3, aniso=False),
]
# one large dimension at a time: sizes at which other code could take over
LARGE = [
    dict(kind="rbf", d=1, opt="ln", b=40, n=2, aniso=False),
    dict(kind="m05", d=1, opt="ln", b=1, n=9, aniso=False),
    dict(kind="rbf", d=12, opt="n", b=1, n=2, aniso=False),
    dict(kind="rbf", d=12, opt="1an", b=1, n=2, aniso=True),
    dict(kind="m15", d=12, opt="0123456789ab", b=1, n=1, aniso=True),
]
LOSSES = ("mse", "huber", "lool", "looph", "unscaled")


def names(opt):
    plain = dict(l="length_scale", n="noise", s="smoothness")
    return [plain[q] if q in plain else f"length_scale{int(q, 16)}"
            for q in opt]


def run(c, bd, b, n, d, loss, kw=None):
    kw = kw or {}
    cd, pd, bt, nt, X, Y, bi, nn = problem(c, bd.m, bd, b, n, d, 0)
    obj = obj_of(c, bd.gp, cd, pd, bt, nt, loss, kw)
    before = frozen(c, bd.gp)
    T = list(Y[bi, 0])
    A, B = bd.theta("A"), bd.theta("B")

    def want(th):
        mu, var, s = bd.loo(th, X, bi, nn, Y)
        return -loss_value(c, loss, mu, var, s, T, kw)

    for lab, th in (("first", A), ("second", B), ("first again", A)):
        c.eq(one_value(c, obj(**th)), want(th), f"objective, {lab}")
    for (q, u), (_, v) in zip(frozen(c, bd.gp), before):
        c.eq(u, v, f"stored {q}")


@case("loo", grid=[dict(g, loss=L, scale=s) for g in OPTS for L in LOSSES
                   for s in ("fixed", "given", "analytic")
                   if not (L in ("mse", "huber", "unscaled") and s != "fixed")]
      + [dict(g, loss=L, scale="given") for g in LARGE
         for L in ("mse", "lool")],
      backends=B2)
def loo(c, kind, d, opt, b, n, aniso, loss, scale):
    """objective(theta) = - loss of the leave-one-out predictions of the
    model whose free parameters are theta, in any order of evaluation."""
    bd = Build(c, M(), kind, d, names(opt), "homo", scale, aniso)
    run(c, bd, b, n, d, loss)


@case("noises", grid=[dict(noise=z, loss=L, scale=s, b=b, n=n)
                      for z in ("null", "hetero") for L in ("mse", "lool")
                      for s in ("fixed", "analytic")
                      for b, n in ((2, 2), (1, 3))], backends=B2)
def noises(c, noise, loss, scale, b, n):
    bd = Build(c, M(), "rbf", 1, ["length_scale"], noise, scale, False, b, n)
    run(c, bd, b, n, 1, loss)


@case("kwargs", grid=[dict(loss=L, kind=k) for L in ("huber", "looph")
                      for k in ("rbf", "m05")], backends=B2)
def kwargs(c, loss, kind):
    """Loss arguments reach the loss."""
    bd = Build(c, M(), kind, 1, ["length_scale", "noise"], "homo", "given")
    run(c, bd, 2, 2, 1, loss, dict(boundary_scale=c.pos("delta", 0.5, 3)))


@case("iterated", grid=[dict(k=k, opt=o) for k in (2, 3) for o in ("l", "ln")],
      backends=B2)
def iterated(c, k, opt):
    """With an iterated analytic scale."""
    bd = Build(c, M(), "rbf", 1, names(opt), "homo", f"iter{k}")
    run(c, bd, 2, 2, 1, "lool")


@case("responses", grid=[dict(r=r, b=b, n=n, loss=L) for L in ("mse", "huber")
                         for r, b, n in ((2, 2, 2), (1, 2, 2), (2, 1, 2),
                                         (3, 2, 1), (2, 3, 2), (20, 2, 2),
                                         (2, 20, 2))],
      backends=B2)
def responses(c, r, b, n, loss):
    """Several responses."""
    m = M()
    bd = Build(c, m, "rbf", 1, ["length_scale", "noise"], "homo")
    cd, pd, bt, nt, X, Y, bi, nn = problem(c, m, bd, b, n, 1, r)
    obj = obj_of(c, bd.gp, cd, pd, bt, nt, loss, {})
    th = bd.theta("A")
    mu, var, s = bd.loo(th, X, bi, nn, Y)
    e = -loss_value(c, loss, mu, var, s, list(Y[bi].reshape(-1)), {})
    c.eq(one_value(c, obj(**th)), e, "objective")


@case("masked", grid=[dict(mask=q, b=b, n=n, loss=L) for L in ("mse", "huber")
                      for q, b, n in (((2, 0), 2, 2), ((1,), 1, 2),
                                      ((0, 1, 2), 2, 1), ((1, 2), 3, 2))],
      backends=B2)
def masked(c, mask, b, n, loss):
    """Chosen outputs of the predictions against their targets."""
    m = M()
    bd = Build(c, m, "rbf", 1, ["length_scale", "noise"], "homo")
    cd, pd, bt, nt, X, Y, bi, nn = problem(c, m, bd, b, n, 1, 3)
    obj = obj_of(c, bd.gp, cd, pd, bt[:, list(mask)], nt, loss, {},
                 target_mask=np.array(mask))
    T = [Y[i, q] for i in bi for q in mask]
    for th in (bd.theta("A"), {}, bd.theta("B")):
        mu, var, s = bd.loo(th, X, bi, nn, Y)
        e = -loss_value(c, loss, [[u[q] for q in mask] for u in mu], var, s,
                        T, {})
        c.eq(one_value(c, obj(**th)), e, "objective")


@case("xent", grid=[dict(r=r, b=b, kind=k) for r, b in ((2, 2), (3, 1), (3, 2))
                    for k in ("rbf", "m05")], backends=B2)
def xent(c, r, b, kind):
    """Cross entropy of one-hot targets."""
    m = M()
    n = 2
    bd = Build(c, m, kind, 1, ["length_scale"], "homo")
    t = 3
    X = c.reals("X", (t, 1))
    lab = [(2 * i + 1) % r for i in range(t)]
    y = np.zeros((t, r))
    for i, k in enumerate(lab):
        y[i, k] = 1.0
    Y = c.arr(np.array([[c.const(v) for v in row] for row in y], dtype=object)
              if c.sym else y)
    bi = np.arange(b)
    nn = np.array([[(i + 1 + j) % t for j in range(n)] for i in range(b)])
    cd, pd, bt, nt = bd.gp.make_train_tensors(idx(c, bi), idx(c, nn), X, Y)
    obj = obj_of(c, bd.gp, cd, pd, bt, nt, "xent", {})
    th = bd.theta("A")
    mu, _, _ = bd.loo(th, c.raw(X), bi, nn, np.array(c.raw(Y), dtype=object))
    e = c.const(0)
    for i in range(b):
        z = c.const(0)
        for j in range(r):
            z = z + c.exp(mu[i][j])
        e = e - (mu[i][lab[bi[i]]] - c.log(z))
    c.eq(one_value(c, obj(**th)), -e, "objective")


@case("smooth", grid=[dict(opt=o, loss=L) for o in ("s", "sl", "sln", "sn")
                      for L in ("mse", "lool")])
def smooth(c, opt, loss):
    """A free smoothness: the objective at theta equals the loss of the
    predictions of a model built with theta."""
    m = M()
    b, n, t = 2, 2, 3
    bd = Build(c, m, "free", 1, names(opt), "homo", "analytic")
    rows = [[c.real("tr0", -2.0, 2.0)]]
    for i in range(1, t):
        rows.append([rows[-1][0] - c.pos(f"gap{i}", 0.3, 1.0)])
    X = c.arr(rows)
    y = c.reals("y", (t,))
    bi = np.arange(b)
    nn = np.array([[(i + 1 + j) % t for j in range(n)] for i in range(b)])

    def data():
        return bd.gp.make_train_tensors(bi, nn, X, y)

    cd, pd, bt, nt = data()
    obj = obj_of(c, bd.gp, cd, pd, bt, nt, loss, {})
    T = list(c.raw(y)[bi])
    for lab in ("A", "B", "A"):
        th = bd.theta(lab)
        v = bd.values(th)
        nu = v["smoothness"]
        for h in (0.5, 1.5, 2.5):
            c.assume(c.Not(nu == c.const(h)))
        gp = m.MuyGPS(
            kernel=m.Matern(smoothness=m.P(nu), deformation=m.Isotropy(
                m.l2, length_scale=m.P(v["length_scale"]))),
            noise=m.Homo(v["noise"]), scale=m.AnalyticScale())
        cd2, pd2, _, nt2 = data()
        Kin, Kcross = gp.kernel(pd2), gp.kernel(cd2)
        mu = [[x] for x in c.raw(gp.posterior_mean(Kin, Kcross, nt2))]
        var = list(c.raw(gp.posterior_variance(Kin, Kcross)))
        s = c.const(0)
        K = c.raw(Kin)
        for i in range(b):
            A = K[i].copy()
            for j in range(n):
                A[j, j] = A[j, j] + v["noise"]
            yy = list(c.raw(nt2)[i])
            s = s + dot(c, yy, c.matvec(c.inv(A), yy))
        e = -loss_value(c, loss, mu, var, s / (b * n), T, {})
        c.eq(one_value(c, obj(**th)), e, f"objective {lab}")
