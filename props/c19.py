"""C19: the torch layers predict with the model's current parameters."""

from types import SimpleNamespace

import numpy as np

from symx.registry import case

from .c07 import KINDS, build, var_oracle
from .common import (
    M, cross, distinct_rows, dot, gram, idx, kernel, num, one_value)

T = ("torch",)


def layers():
    import MuyGPyS.torch as t

    return t.MuyGPs_layer, t.MultivariateMuyGPs_layer


def predict(c, kind, X, T, bi, nn, y, ls, eps, s):
    """(means [b][r], variances [b]) of the elements T[bi] given X[nn]."""
    mu, var = [], []
    for i, (q, row) in enumerate(zip(bi, nn)):
        P = X[row]
        e = list(eps[i]) if np.ndim(eps) else eps
        inv = c.inv(gram(c, kind, P, [ls], False, e))
        k = cross(c, kind, T[q], P, [ls], False)
        w = c.matvec(inv, k)
        mu.append([dot(c, w, list(y[i][:, j])) for j in range(y.shape[2])])
        var.append(s * (1 - dot(c, w, k)))
    return mu, var


def elements(b, n, t, shift=0):
    """An unordered batch with a neighborhood each."""
    bi = np.array([(2 * i + 1 + shift) % t for i in range(b)])
    nn = np.array([[(q + 1 + shift + j) % t for j in range(n)] for q in bi])
    return bi, nn


def put(c, p, v):
    """Overwrite a parameter in place, as a torch optimizer does."""
    import torch

    with torch.no_grad():
        p.copy_(c.arr(np.array(v, dtype=object)))


SHAPES = [dict(b=b, n=n, d=d, r=r) for b, n, d, r in (
    (2, 2, 2, 1), (3, 2, 1, 2), (1, 2, 1, 1), (2, 1, 1, 1), (1, 1, 2, 2),
    (1, 3, 1, 1), (3, 3, 1, 1))]
LONG = [dict(b=b, n=n, d=d, r=r) for b, n, d, r in (
    (40, 2, 1, 1), (2, 2, 14, 1), (2, 1, 1, 12), (2, 17, 1, 1))]


@case("layer", grid=[dict(g, kind=k, noise=z) for g in SHAPES
                     for k, z in (("rbf", "homo"), ("m05", "homo"),
                                  ("m15", "hetero"), ("m25", "null"),
                                  ("minf", "homo"))]
      + [dict(g, kind="m05", noise="homo") for g in LONG], backends=T)
def layer(c, kind, noise, b, n, d, r):
    """Predictions of a layer, as features, parameters and batch change."""
    m = M()
    ls, s = c.pos("length_scale", 0.6, 1.6), c.pos("scale", 0.5, 2)
    lo, hi = 0.1, 3.0
    c.assume(ls > lo)
    c.assume(ls < hi)
    met, cls = (m.F2, m.RBF) if kind == "rbf" else (m.l2, m.Matern)
    kw = {} if kind == "rbf" else dict(smoothness=m.P(
        {"m05": 0.5, "m15": 1.5, "m25": 2.5, "minf": float("inf")}[kind]))
    P = m.P(ls, (lo, hi))
    ker = cls(deformation=m.Isotropy(met, length_scale=P), **kw)
    if noise == "homo":
        eps = c.nonneg("noise", 0.05, 0.4)
        nz = m.Homo(eps)
    elif noise == "hetero":
        eps = c.reals("noise", (b, n), 0.05, 0.4, pos=True)
        nz = m.Hetero(eps)
        eps = c.raw(eps)
    else:
        eps, nz = c.const(0), m.Null()
    gp = m.MuyGPS(kernel=ker, noise=nz, scale=m.FixedScale(val=s))
    t = n + 2
    bi, nn = elements(b, n, t)
    y = c.reals("y", (b, n, r))
    L, _ = layers()
    net = L(gp, idx(c, bi), idx(c, nn), None, y)
    c.ok([q for q, _ in net.named_parameters()] == ["length_scale"],
         "trainable parameters")
    X, Z = c.reals("X", (t, d)), c.reals("Z", (t, d))

    def see(lab, X, ls, bi=bi, nn=nn, y=c.raw(y)):
        mu, var = predict(c, kind, c.raw(X), c.raw(X), bi, nn, y, ls, eps, s)
        got = net(X)
        c.ok(len(got) == 2, f"two results, {lab}")
        c.eq(got[0], num(c, mu), f"mean, {lab}")
        c.eq(got[1], num(c, var), f"variance, {lab}")

    see("first", X, ls)
    see("other features", Z, ls)
    new = c.pos("step", 0.5, 2)
    put(c, dict(net.named_parameters())["length_scale"], new)
    see("after a step", X, new)
    c.eq(one_value(c, gp.kernel.deformation.length_scale()), new,
         "model's parameter after a step")
    net.eval()
    see("not training", X, new)
    bj, nj = elements(b, n, t, 1)
    y2 = c.reals("y2", (b, n, r))
    net.batch_indices, net.batch_nn_indices = idx(c, bj), idx(c, nj)
    net.batch_nn_targets = y2
    see("other batch", X, new, bj, nj, c.raw(y2))
    put(c, dict(net.named_parameters())["length_scale"], ls)
    see("parameter set back", X, ls, bj, nj, c.raw(y2))
    net.train()
    net.batch_indices, net.batch_nn_indices = idx(c, bi), idx(c, nn)
    net.batch_nn_targets = y
    see("training again", X, ls)


@case("multi", grid=[dict(kinds=k, b=b, n=n, d=d, scales=s) for k, b, n, d in (
    ("rbf", 2, 2, 2), ("half", 1, 2, 1), ("half3", 2, 1, 2), ("one", 2, 2, 1),
    ("rbf3", 3, 2, 1), ("same", 1, 1, 1), ("half", 30, 2, 1),
    ("half", 2, 12, 1), ("rbf", 2, 2, 12))
    for s in ("given", None)], backends=T)
def multi(c, kinds, b, n, d, scales):
    """One model per response; each model's own scale."""
    m = M()
    ks = KINDS[kinds]
    args, vals = build(c, m, ks, d, False, ("homo",), scales)
    gp = m.MultivariateMuyGPS(*args)
    t = n + 2
    bi, nn = elements(b, n, t)
    y = c.reals("y", (b, n, len(ks)))
    _, L = layers()
    net = L(gp, idx(c, bi), idx(c, nn), None, y)
    check_multi(c, net, vals, "first", bi, nn, c.raw(y),
                c.reals("X", (t, d)))
    Z = c.reals("Z", (t, d))
    check_multi(c, net, vals, "other features", bi, nn, c.raw(y), Z)
    net.eval()
    check_multi(c, net, vals, "not training", bi, nn, c.raw(y), Z)
    bj, nj = elements(b, n, t, 1)
    y2 = c.reals("y2", (b, n, len(ks)))
    net.batch_indices, net.batch_nn_indices = idx(c, bj), idx(c, nj)
    net.batch_nn_targets = y2
    check_multi(c, net, vals, "other batch", bj, nj, c.raw(y2),
                Z)


def check_multi(c, net, vals, lab, bi, nn, y, X):
    got = net(X)
    R = c.raw(X)
    e, v = multi_oracle(c, vals, R, R, bi, nn, y)
    c.eq(got[0], num(c, e), f"mean, {lab}")
    c.eq(got[1], v, f"variance, {lab}")


def multi_oracle(c, vals, X, T, bi, nn, y):
    e = np.empty((len(bi), len(vals)), dtype=object)
    for q, (kind, ls, v, _) in enumerate(vals):
        for i, row in enumerate(nn):
            w = c.matvec(c.inv(gram(c, kind, X[row], ls, False, v)),
                         list(y[i][:, q]))
            e[i, q] = dot(c, cross(c, kind, T[bi[i]], X[row], ls, False), w)
    return e, var_oracle(c, vals, False, X, T[bi], nn)


@case("refuse", grid=[dict(kind=k) for k in ("aniso", "hierarchical")],
      backends=T)
def refuse(c, kind):
    """Only isotropic models with a scalar length scale."""
    m = M()
    a, b = c.pos("a", 0.6, 1.6), c.pos("b", 0.6, 1.6)
    if kind == "aniso":
        de = m.Anisotropy(m.l2, length_scale=m.VP(m.P(a), m.P(b)))
    else:
        from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParam

        knots = c.reals("knots", (2, 1))
        de = m.Isotropy(m.l2, length_scale=HierarchicalParam(
            knots, m.VP(m.P(a), m.P(b)), m.RBF(deformation=m.Isotropy(
                m.F2, length_scale=m.P(1.0)))))
    gp = m.MuyGPS(kernel=m.Matern(smoothness=m.P(0.5), deformation=de),
                  noise=m.Homo(0.1))
    L, _ = layers()
    c.raises(lambda: L(gp, idx(c, np.array([0])), idx(c, np.array([[1]])),
                       None, None), NotImplementedError, "refused")


@case("predict", grid=[dict(kind=k, multi=q, b=b, n=n) for k, q in (
    ("rbf", False), ("m15", False), ("half", True), ("rbf3", True))
    for b, n in ((2, 2), (1, 2), (3, 1), (30, 1), (1, 9))], backends=T)
def predict_model(c, kind, multi, b, n):
    """Predictions of embedded test features from embedded neighbors."""
    from MuyGPyS.examples.muygps_torch import predict_model as fn

    m = M()
    t, d, e = n + 2, 2, 1
    W = c.reals("W", (d, e))
    X, Z = c.reals("X", (t, d)), c.reals("Z", (b, d))
    r = len(KINDS[kind]) if multi else 1
    y = c.reals("y", (t, r))
    nn = distinct_rows(b, n, t)
    S, U = c.raw(X @ W), c.raw(Z @ W)
    bi = idx(c, np.arange(b))
    L1, L2 = layers()
    if multi:
        args, vals = build(c, m, KINDS[kind], e, False, ("homo",), "given")
        gp = m.MultivariateMuyGPS(*args)
        net = L2(gp, bi, idx(c, nn), None, None)
    else:
        ls, eps = c.pos("length_scale", 0.6, 1.6), c.nonneg("noise", 0.05, 0.4)
        s = c.pos("scale", 0.5, 2)
        gp = m.MuyGPS(kernel=kernel(c, m, kind, [ls]), noise=m.Homo(eps),
                      scale=m.FixedScale(val=s))
        net = L1(gp, bi, idx(c, nn), None, None)
    asked = []

    def get(q, nn_count):
        asked.append((q, nn_count))
        return idx(c, nn), None

    look = SimpleNamespace(_get_nns=get)
    model = SimpleNamespace(embedding=lambda x: x @ W, GP_layer=net,
                            deformation=net.deformation)
    mu, var = fn(model, Z, X, y, look, n)
    c.ok(len(asked) == 1 and asked[0][1] == n, "one query")
    c.eq(np.asarray(asked[0][0]), U, "query points")
    yn = c.raw(y)[nn]
    if multi:
        a, v = multi_oracle(c, vals, S, U, np.arange(b), nn, yn)
    else:
        a, v = predict(c, kind, S, U, np.arange(b), nn, yn, ls, eps, s)
    c.eq(mu, num(c, a), "mean")
    c.eq(var, num(c, v), "variance")
