"""C07: multivariate models are independent univariate models."""

import numpy as np

from symx.registry import case

from .common import (
    M, cross, distinct_rows, dot, gram, idx, kernel, kval, lengths,
    num, one_value)

B2 = ("numpy", "torch")

KINDS = {
    "rbf": ("rbf", "rbf"), "half": ("m05", "m15"), "half3": ("m05", "m25", "m15"),
    "twelve": ("m25", "m05", "m15") * 4,
    "same": ("m15", "m15"), "rbf3": ("rbf", "rbf", "rbf"), "one": ("rbf",),
}


def build(c, m, kinds, d, aniso, noises, scales=None):
    """One keyword dictionary per response, and the symbolic values used."""
    args, vals = [], []
    for q, kind in enumerate(kinds):
        ls = lengths(c, d, aniso, f"ls{q}_")
        if noises[q % len(noises)] == "null":
            nz, v = m.Null(), c.const(0)
        else:
            v = c.nonneg(f"noise{q}", 0.05, 0.4)
            nz = m.Homo(v)
        a = dict(kernel=kernel(c, m, kind, ls, aniso), noise=nz)
        s = c.const(1)
        if scales == "given":
            s = c.pos(f"scale{q}", 0.5, 2.0)
            a["scale"] = m.FixedScale(val=s)
        elif scales == "fixed":
            a["scale"] = m.FixedScale()
        elif scales == "analytic":
            a["scale"] = m.AnalyticScale()
        elif scales == "start":
            s = c.pos(f"scale{q}", 0.5, 2.0)
            a["scale"] = m.AnalyticScale(val=s)
        elif scales == "mixed":
            if q % 2:
                a["scale"] = m.AnalyticScale()
            else:
                s = c.pos(f"scale{q}", 0.5, 2.0)
                a["scale"] = m.FixedScale(val=s)
        args.append(a)
        vals.append((kind, ls, v, s))
    return args, vals


def points(c, t, d, b):
    return c.reals("tr", (t, d)), c.reals("te", (b, d))


def diffs(c, gp, X, T, bi, nn):
    de = gp.models[0].kernel.deformation
    return (de.pairwise_tensor(X, idx(c, nn)),
            de.crosswise_tensor(T, X, idx(c, bi), idx(c, nn)))


SHAPES = [
    dict(kinds="rbf", b=2, n=2, d=2, aniso=False),
    dict(kinds="half", b=1, n=2, d=1, aniso=False),
    dict(kinds="half3", b=2, n=1, d=2, aniso=False),
    dict(kinds="same", b=2, n=2, d=1, aniso=False),
    dict(kinds="rbf3", b=1, n=1, d=1, aniso=False),
    dict(kinds="one", b=2, n=2, d=2, aniso=False),
    dict(kinds="rbf", b=3, n=2, d=2, aniso=True),
    dict(kinds="rbf", b=1, n=3, d=1, aniso=False),
    dict(kinds="rbf3", b=3, n=3, d=1, aniso=False),
]
# one large dimension at a time: sizes at which other code could take over
LARGE = [
    dict(kinds="twelve", b=2, n=2, d=1, aniso=False),
    dict(kinds="rbf", b=40, n=2, d=1, aniso=False),
    dict(kinds="half", b=1, n=20, d=1, aniso=False),
    dict(kinds="rbf", b=1, n=2, d=14, aniso=True),
]


@case("mean", grid=[dict(g, noise=z) for g in SHAPES + LARGE
                   for z in ("homo", "mix")],
      backends=B2)
def mean(c, kinds, b, n, d, aniso, noise):
    """Column j of the mean is the mean of model j on response j."""
    m = M()
    ks = KINDS[kinds]
    r = len(ks)
    args, vals = build(c, m, ks, d, aniso,
                       ("homo",) if noise == "homo" else ("homo", "null"))
    gp = m.MultivariateMuyGPS(*args)
    t = n + 2
    X, T = points(c, t, d, b)
    nn = distinct_rows(b, n, t)
    y = c.reals("y", (t, r))
    pd, cd = diffs(c, gp, X, T, np.arange(b), nn)
    got = gp.posterior_mean(pd, cd, y[idx(c, nn)])
    RX, RT, RY = c.raw(X), c.raw(T), c.raw(y)
    e = np.empty((b, r), dtype=object)
    for q, (kind, ls, v, _) in enumerate(vals):
        for i in range(b):
            P = RX[nn[i]]
            inv = c.inv(gram(c, kind, P, ls, aniso, v))
            w = c.matvec(inv, list(RY[nn[i], q]))
            e[i, q] = dot(c, cross(c, kind, RT[i], P, ls, aniso), w)
    c.eq(got, num(c, e), "mean")


@case("variance", grid=[dict(g, scales=s) for g in SHAPES + LARGE
                        for s in ("given", "fixed", None)],
      backends=B2)
def variance(c, kinds, b, n, d, aniso, scales):
    """Column j of the variance is the scaled variance of model j."""
    m = M()
    ks = KINDS[kinds]
    args, vals = build(c, m, ks, d, aniso, ("homo",), scales)
    gp = m.MultivariateMuyGPS(*args)
    t = n + 2
    X, T = points(c, t, d, b)
    nn = distinct_rows(b, n, t)[::-1]
    pd, cd = diffs(c, gp, X, T, np.arange(b), nn)
    e = var_oracle(c, vals, aniso, c.raw(X), c.raw(T), nn)
    c.eq(gp.posterior_variance(pd, cd), e, "variance")
    c.eq(gp.posterior_variance(pd, cd), e, "variance, asked again")


def var_oracle(c, vals, aniso, X, T, nn, scales=None):
    b = len(nn)
    e = np.empty((b, len(vals)), dtype=object)
    for q, (kind, ls, v, s) in enumerate(vals):
        if scales is not None:
            s = scales[q]
        for i in range(b):
            P = X[nn[i]]
            k = cross(c, kind, T[i], P, ls, aniso)
            w = c.matvec(c.inv(gram(c, kind, P, ls, aniso, v)), k)
            e[i, q] = s * (1 - dot(c, w, k))
    return num(c, e)


@case("scale", grid=[dict(g, scales=s) for g in SHAPES
                     if (g["b"], g["n"]) != (3, 3)
                     for s in ("analytic", "mixed", "start")],
      backends=B2)
def scale(c, kinds, b, n, d, aniso, scales):
    """Scale optimization sets each model's scale from its own response, and
    the variances use it once."""
    m = M()
    ks = KINDS[kinds]
    r = len(ks)
    args, vals = build(c, m, ks, d, aniso, ("homo",), scales)
    gp = m.MultivariateMuyGPS(*args)
    t = n + 2
    X, T = points(c, t, d, b)
    nn = distinct_rows(b, n, t)
    y = c.reals("y", (t, r))
    pd, cd = diffs(c, gp, X, T, np.arange(b), nn)
    RX, RT, RY = c.raw(X), c.raw(T), c.raw(y)
    want = []
    for q, (kind, ls, v, s) in enumerate(vals):
        if scales == "mixed" and q % 2 == 0:
            want.append(s)
            continue
        tot = c.const(0)
        for i in range(b):
            Y = list(RY[nn[i], q])
            inv = c.inv(gram(c, kind, RX[nn[i]], ls, aniso, v))
            tot = tot + dot(c, Y, c.matvec(inv, Y))
        want.append(tot / (b * n))
        c.assume(want[-1] > 0)
    ret = gp.optimize_scale(pd, y[idx(c, nn)])
    c.ok(ret is gp, "returns itself")
    for q in range(r):
        c.eq(one_value(c, gp.models[q].scale()), want[q], f"scale {q}")
    e = var_oracle(c, vals, aniso, RX, RT, nn, want)
    c.eq(gp.posterior_variance(pd, cd), e, "variance")


@case("count", grid=[dict(r=r, k=k) for r, k in ((1, 2), (3, 2), (2, 1))],
      backends=B2)
def count(c, r, k):
    """A response count different from the model count is refused."""
    m = M()
    args, _ = build(c, m, ("rbf",) * k, 2, False, ("homo",), "analytic")
    gp = m.MultivariateMuyGPS(*args)
    pd = c.reals("pd", (2, 2, 2, 2))
    y = c.reals("y", (2, 2, r))
    before = [one_value(c, g.scale()) for g in gp.models]
    try:
        gp.optimize_scale(pd, y)
        c.check(False, "accepted")
    except ValueError:
        pass
    for q in range(k):
        c.eq(one_value(c, gp.models[q].scale()), before[q], f"scale {q}")


@case("fixed", grid=[dict(free=f) for f in
                     ((), (0,), (1,), (0, 1), (2,), (0, 1, 2))], backends=B2)
def fixed(c, free):
    """A multivariate model is fixed when each of its models is."""
    m = M()
    args = []
    for q in range(3):
        v = c.real(f"v{q}", 0.2, 0.8)
        c.assume(v > 0.1)
        c.assume(v < 0.9)
        p = m.P(v, (0.1, 0.9)) if q in free else m.P(v)
        args.append(dict(kernel=m.RBF(deformation=m.Isotropy(
            m.F2, length_scale=p)), noise=m.Homo(0.0)))
    gp = m.MultivariateMuyGPS(*args)
    c.ok(gp.fixed() == (not free), "fixed", f"{gp.fixed()} with free {free}")
    c.ok(len(gp.models) == 3, "number of models")


@case("tensors", grid=[dict(kind=k, train=t) for k in ("rbf", "m15")
                       for t in (False, True)], backends=B2)
def tensors(c, kind, train):
    """The tensors are those of the deformation the models share."""
    m = M()
    t, n, d, b, r = 4, 2, 2, 2, 2
    args, vals = build(c, m, (kind, kind), d, False, ("homo",))
    gp = m.MultivariateMuyGPS(*args)
    X, T = points(c, t, d, b)
    y = c.reals("y", (t, r))
    bi = np.array([1, 0])
    nn = distinct_rows(b, n, t)[::-1]
    RX, RT, RY = c.raw(X), c.raw(T), c.raw(y)
    if train:
        cd, pd, bt, nt = gp.make_train_tensors(
            idx(c, bi), idx(c, nn), X, y)
        c.eq(bt, RY[bi], "batch targets")
        Q = RX
    else:
        cd, pd, nt = gp.make_predict_tensors(idx(c, bi), idx(c, nn), T, X, y)
        Q = RT
    c.eq(nt, RY[nn], "neighbor targets")
    # through each model's own kernel, whatever the layout of the tensors
    for q, (k, ls, _, _) in enumerate(vals):
        e = [[kval(c, k, Q[bi[i]], RX[nn[i, j]], ls) for j in range(n)]
             for i in range(b)]
        c.eq(gp.models[q].kernel(cd), num(c, e), f"cross {q}")
        e = [gram(c, k, RX[nn[i]], ls) for i in range(b)]
        c.eq(gp.models[q].kernel(pd), num(c, e), f"gram {q}")
