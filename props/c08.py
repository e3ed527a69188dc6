"""C08: loss functions evaluate the documented formulas."""

import numpy as np

from symx.registry import case

from .common import dot, num, one_value

B2 = ("numpy", "torch")


def losses():
    from MuyGPyS.optimize import loss

    return loss


def logc(c, x):
    return c.log(x)


def lool(c, p, t, v):
    tot = c.const(0)
    for a, b, w in zip(p, t, v):
        tot = tot + (a - b) * (a - b) / w + c.log(w)
    return tot


def huber(c, p, t, d):
    tot = c.const(0)
    for a, b in zip(p, t):
        r = (b - a) / d
        tot = tot + d * d * (c.sqrt(1 + r * r) - 1)
    return tot


def looph(c, p, t, v, d):
    tot = c.const(0)
    for a, b, w in zip(p, t, v):
        tot = tot + 2 * d * d * (
            c.sqrt(1 + (b - a) * (b - a) / (d * d * w)) - 1) + c.log(w)
    return tot


def mse(c, p, t):
    tot = c.const(0)
    for a, b in zip(p, t):
        tot = tot + (a - b) * (a - b)
    return tot / len(p)


def flat(c, x):
    return list(np.array(c.raw(x), dtype=object).reshape(-1))


UNI = [(300,), (1,), (2,), (3,), (5,), (8,)]
MULTI = [(70, 2), (2, 30), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (5, 3)]


def same(c, got, want, label):
    c.eq(one_value(c, got), want, label)


@case("mse", grid=[dict(shape=s) for s in UNI + MULTI + [(2, 2, 2)]],
      backends=B2)
def mse_case(c, shape):
    L = losses()
    p = c.reals("p", shape)
    t = c.reals("t", shape)
    e = mse(c, flat(c, p), flat(c, t))
    same(c, L.mse_fn(p, t), e, "mse")
    same(c, L.mse_fn(t, p), e, "symmetric")
    if np.prod(shape) < 20:  # a consequence of the formula
        c.check(one_value(c, L.mse_fn(p, t)) >= 0, "nonnegative")
    same(c, L.mse_fn(t, t), c.const(0), "zero on a perfect prediction")


@case("huber", grid=[dict(shape=s, given=g) for s in UNI + MULTI
                     for g in (False, True)], backends=B2)
def huber_case(c, shape, given):
    """Pseudo-Huber with its default and with a given boundary."""
    L = losses()
    p = c.reals("p", shape, -2, 2)
    t = c.reals("t", shape, -2, 2)
    d = c.pos("delta", 0.5, 3.0) if given else c.const(1.5)
    kw = dict(boundary_scale=d) if given else {}
    same(c, L.pseudo_huber_fn(p, t, **kw),
         huber(c, flat(c, p), flat(c, t), d), "pseudo-Huber")


@case("lool", grid=[dict(shape=s) for s in UNI + MULTI], backends=B2)
def lool_case(c, shape):
    """Leave-one-out likelihood, scaled by a positive scale and unscaled;
    one variance per prediction."""
    L = losses()
    p = c.reals("p", shape)
    t = c.reals("t", shape)
    v = c.reals("v", shape, 0.3, 2.0, pos=True)
    s = c.pos("s", 0.3, 2.0)
    P, T, V = flat(c, p), flat(c, t), flat(c, v)
    same(c, L.lool_fn_unscaled(p, t, v), lool(c, P, T, V), "unscaled")
    same(c, L.lool_fn(p, t, v, s), lool(c, P, T, [s * w for w in V]), "scaled")
    c.eq(v, np.array(V, dtype=object).reshape(shape) if c.sym
         else np.array(V).reshape(shape), "variances unchanged")


@case("loolvec", grid=[dict(b=b, r=r) for b, r in
                       ((1, 1), (2, 2), (3, 2), (2, 3), (1, 3), (70, 2), (2, 30))], backends=B2)
def loolvec(c, b, r):
    """Leave-one-out likelihood with one scale per response."""
    L = losses()
    p = c.reals("p", (b, r))
    t = c.reals("t", (b, r))
    v = c.reals("v", (b, r), 0.3, 2.0, pos=True)
    s = c.reals("s", (r,), 0.3, 2.0, pos=True)
    W = [c.raw(s)[k % r] * w for k, w in enumerate(flat(c, v))]
    same(c, L.lool_fn(p, t, v, s), lool(c, flat(c, p), flat(c, t), W), "lool")


@case("loolfull", grid=[dict(b=b, o=o) for b, o in
                        ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3),
                         (70, 2))],
      backends=B2)
def loolfull(c, b, o):
    """Leave-one-out likelihood with one full covariance per prediction:
    the sum of r^T S^-1 r + log det S."""
    L = losses()
    p = c.reals("p", (b, o))
    t = c.reals("t", (b, o))
    s = c.pos("s", 0.3, 2.0)
    # covariances through their Cholesky factors
    V = np.empty((b, o, o), dtype=object)
    for i in range(b):
        F = np.empty((o, o), dtype=object)
        for j in range(o):
            for k in range(o):
                F[j, k] = (c.pos(f"f{i}_{j}_{k}", 0.7, 1.3) if j == k else
                           c.real(f"f{i}_{j}_{k}", -0.4, 0.4) if k < j else
                           c.const(0))
        for j in range(o):
            for k in range(o):
                V[i, j, k] = dot(c, F[j], F[k])
    P, T = c.raw(p), c.raw(t)

    def want(sc):
        tot = c.const(0)
        for i in range(b):
            A = np.array([[sc * V[i, j, k] for k in range(o)]
                          for j in range(o)], dtype=object)
            res = [P[i, j] - T[i, j] for j in range(o)]
            tot = tot + dot(c, res, c.matvec(c.inv(A), res)) + c.log(c.det(A))
        return tot

    aV = c.arr(num(c, V))
    same(c, L.lool_fn_unscaled(p, t, aV), want(c.const(1)), "unscaled")
    same(c, L.lool_fn(p, t, aV, s), want(s), "scaled")


@case("looph", grid=[dict(shape=s, given=g) for s in UNI
                     for g in (False, True)], backends=B2)
def looph_case(c, shape, given):
    """Variance-regularized pseudo-Huber, default 3 and given boundary."""
    L = losses()
    p = c.reals("p", shape, -3, 3)
    t = c.reals("t", shape, -3, 3)
    v = c.reals("v", shape, 0.3, 2.0, pos=True)
    s = c.pos("s", 0.3, 2.0)
    d = c.pos("delta", 0.5, 4.0) if given else c.const(3)
    kw = dict(boundary_scale=d) if given else {}
    P, T, V = flat(c, p), flat(c, t), flat(c, v)
    same(c, L.looph_fn(p, t, v, s, **kw),
         looph(c, P, T, [s * w for w in V], d), "looph")


@case("xent", grid=[dict(b=b, r=r, form=f) for b, r in
                    ((1, 2), (2, 2), (3, 2), (1, 3), (2, 3), (3, 4), (2, 4), (40, 2),
                                 (2, 12))
                    for f in ("onehot", "centered")], backends=B2)
def xent(c, b, r, form):
    """Cross entropy: minus the log softmax probability of the true class,
    summed over the batch, for one-hot and for centered targets."""
    L = losses()
    p = c.reals("p", (b, r), -2, 2)
    lab = [(2 * i + 1) % r for i in range(b)]
    lo = 0.0 if form == "onehot" else -1.0 / r
    t = np.full((b, r), lo)
    for i, k in enumerate(lab):
        t[i, k] = 1.0 + lo
    P = c.raw(p)
    e = c.const(0)
    for i, k in enumerate(lab):
        z = c.const(0)
        for j in range(r):
            z = z + c.exp(P[i, j])
        e = e - (P[i, k] - c.log(z))
    T = c.arr(np.array([[c.const(x) for x in row] for row in t], dtype=object)
              if c.sym else t)
    same(c, L.cross_entropy_fn(p, T), e, "cross entropy")
