"""C04: posterior variance and its scale."""

import numpy as np

from symx.registry import case

from .common import (
    M, add_noise, cross, dot, gram, idx, kernel, lengths, noise_obj, num, one_value,
    simple_gp, spd_inputs)


def expected_var(c, K, k, kout, scale):
    """scale * (kout - k^T K^-1 k) for K (b, n, n), k (b, n)."""
    b, n = k.shape
    out = np.empty((b,), dtype=object)
    for t in range(b):
        w = c.matvec(c.inv(K[t]), list(k[t]))
        out[t] = scale * (kout - dot(c, w, list(k[t])))
    return out if c.sym else out.astype(float)


def noisy(c, K, diag):
    return np.array([add_noise(c, K[t], np.array(diag[t], dtype=object))
                     for t in range(len(K))])


# one large dimension at a time: sizes at which other code could take over
WIDE = [(1, 51), (300, 1), (130, 2)]
SHAPES = [(2, 2), (1, 1), (1, 3), (3, 1), (2, 3), (3, 3), (1, 2)]


@case("matrix", grid=[dict(noise=z, b=b, n=n)
                      for z in ("null", "homo", "hetero")
                      for b, n in SHAPES]
      + [dict(noise=z, b=b, n=n) for z in ("homo", "hetero")
         for b, n in WIDE],
      thorough=[dict(noise=z, b=b, n=n) for z in ("homo", "hetero")
                for b, n in ((4, 5), (2, 6), (5, 5))],
      backends=("numpy", "torch"))
def matrix(c, noise, b, n):
    """variance = scale (Kout - k^T (Kin + noise)^-1 k), any symmetric Kin."""
    m = M()
    K = spd_inputs(c, "K", b, n)
    k = c.reals("k", (b, n))
    s = c.pos("s", 0.5, 2.0)
    nz, diag = noise_obj(c, m, noise, b, n)
    gp = simple_gp(m, nz)
    aK = c.arr(K)
    before = np.array(c.raw(aK))
    one = c.const(1)
    NK = noisy(c, K, diag)
    e1 = expected_var(c, NK, c.raw(k), one, one)
    c.eq(gp.posterior_variance(aK, k), e1, "unit scale")
    c.eq(gp.get_opt_var_fn()(aK, k), e1, "objective, unit scale")
    gp.scale._set(s)
    gp._make()
    es = expected_var(c, NK, c.raw(k), one, s)
    c.eq(gp.posterior_variance(aK, k), es, "scaled")
    c.eq(gp.posterior_variance(aK, k), es, "scaled, asked again")
    c.eq(gp.get_opt_var_fn()(aK, k), e1, "objective is unscaled")
    c.eq(aK, before, "covariance unchanged")


@case("override", grid=[dict(b=2, n=2, free=True), dict(b=1, n=3, free=False),
                        dict(b=70, n=2, free=True), dict(b=1, n=31, free=True)],
      backends=("numpy", "torch"))
def override(c, b, n, free):
    """The objective's variance function takes noise by name."""
    m = M()
    K = spd_inputs(c, "K", b, n)
    k = c.reals("k", (b, n))
    v = c.nonneg("v", 0.05, 0.4)
    w = c.nonneg("w", 0.05, 0.4)
    c.assume(w <= 1)
    gp = simple_gp(m, m.Homo(w, (0.0, 1.0)) if free else m.Homo(w))
    one = c.const(1)
    got = gp.get_opt_var_fn()(c.arr(K), k, noise=v)
    c.eq(got, expected_var(c, noisy(c, K, [[v] * n] * b), c.raw(k), one, one),
         "given noise")
    got = gp.posterior_variance(c.arr(K), k)
    c.eq(got, expected_var(c, noisy(c, K, [[w] * n] * b), c.raw(k), one, one),
         "stored noise")


@case("history", grid=[dict(first=f) for f in ("given", "fixed", "analytic")],
      backends=("numpy", "torch"))
def history(c, first):
    """A scale given at construction, and one set by optimize_scale, are
    applied exactly once, whatever was asked before."""
    m = M()
    b, n = 2, 2
    K = spd_inputs(c, "K", b, n)
    k = c.reals("k", (b, n))
    v = c.pos("noise", 0.05, 0.4)
    y = c.reals("y", (b, n))
    s0 = c.pos("s0", 0.5, 2.0)
    one = c.const(1)
    NK = noisy(c, K, [[v] * n] * b)
    Y = c.raw(y)

    class Ker:
        """Kernel returning the given covariance."""

        def __init__(self, inner):
            self.inner = inner

        def __getattr__(self, q):
            return getattr(self.inner, q)

        def __call__(self, d):
            return d

    scale = dict(
        given=lambda: m.FixedScale(val=s0), fixed=lambda: m.FixedScale(),
        analytic=lambda: m.AnalyticScale())[first]()
    gp = simple_gp(m, m.Homo(v), scale=scale)
    aK = c.arr(K)
    start = s0 if first == "given" else one
    c.eq(gp.posterior_variance(aK, k),
         expected_var(c, NK, c.raw(k), one, start), "before")
    gp.kernel = Ker(gp.kernel)
    if first == "analytic":
        # a nonzero response, so that the scale is positive
        c.assume(Y[0][0] > 0.1)
        tot = c.const(0)
        for t in range(b):
            tot = tot + c.quad(Y[t], c.inv(NK[t]), Y[t])
        c.assume(tot > 0.01)
        exp = tot / (b * n)
    else:
        exp = start
    gp.optimize_scale(aK, y)
    c.eq(one_value(c, gp.scale()), exp, "optimized scale")
    for rep in range(2):
        c.eq(gp.posterior_variance(aK, k),
             expected_var(c, NK, c.raw(k), one, exp), f"after {rep}")
    gp.optimize_scale(aK, y)
    c.eq(one_value(c, gp.scale()), exp, "optimized again")
    c.eq(gp.posterior_variance(aK, k),
         expected_var(c, NK, c.raw(k), one, exp), "after again")


@case("features", grid=[dict(kind=k, aniso=a, b=b, n=n, d=d)
                        for k, a in (("rbf", False), ("m05", True),
                                     ("m15", False), ("m25", True))
                        for b, n, d in ((2, 2, 2), (1, 3, 1), (2, 1, 2))]
      + [dict(kind=k, aniso=a, b=b, n=n, d=d)
         for k, a in (("rbf", False), ("m15", True))
         for b, n, d in ((40, 2, 1), (1, 24, 1), (1, 2, 24))],
      thorough=[dict(kind=k, aniso=a, b=2, n=4, d=3)
                for k in ("rbf", "m05", "m15", "m25") for a in (False, True)],
      backends=("numpy", "torch"))
def from_features(c, kind, aniso, b, n, d):
    """Features and neighbor indices to variance."""
    m = M()
    count = n + 2
    tr = c.reals("tr", (count, d))
    te = c.reals("te", (b, d))
    y = c.reals("y", (count,))
    ls = lengths(c, d, aniso)
    v = c.pos("noise", 0.05, 0.4)
    s = c.pos("s", 0.5, 2.0)
    gp = m.MuyGPS(kernel=kernel(c, m, kind, ls, aniso), noise=m.Homo(v),
                  scale=m.FixedScale(val=s))
    nn = np.array([[(2 * t + j) % count for j in range(n)] for t in range(b)])
    cd, pd, _ = gp.make_predict_tensors(
        idx(c, np.arange(b)), idx(c, nn), te, tr, y)
    got = gp.posterior_variance(gp.kernel(pd), gp.kernel(cd))
    R, T = c.raw(tr), c.raw(te)
    K = np.array([gram(c, kind, R[nn[t]], ls, aniso, v) for t in range(b)])
    k = np.array([cross(c, kind, T[t], R[nn[t]], ls, aniso)
                  for t in range(b)], dtype=object)
    c.eq(got, expected_var(c, K, k, c.const(1), s), "posterior variance")


@case("structured", grid=[dict(b=2, i=2, n=2, o=1), dict(b=1, i=3, n=1, o=2),
                          dict(b=2, i=2, n=2, o=2), dict(b=1, i=2, n=1, o=3),
                          dict(b=66, i=2, n=1, o=2), dict(b=1, i=2, n=17, o=2)],
      thorough=[dict(b=2, i=3, n=3, o=3)], backends=("numpy", "torch"))
def structured(c, b, i, n, o):
    """Structured covariances give an (o, o) block per batch element."""
    import MuyGPyS.gp.variance as V

    m = M()
    N = i * n
    K = spd_inputs(c, "K", b, N)
    k = c.reals("k", (b, N, o))
    kout = c.reals("kout", (o, o))
    v = c.pos("noise", 0.05, 0.4)
    s = c.pos("s", 0.5, 2.0)
    fn = V.PosteriorVariance(kout, m.Homo(v), m.FixedScale(val=s))
    got = fn(c.arr(K).reshape(b, i, n, i, n), k.reshape(b, i, n, o))
    rk, ro = c.raw(k), c.raw(kout)
    e = np.empty((b, o, o), dtype=object)
    for t in range(b):
        inv = c.inv(add_noise(c, K[t], v))
        for p in range(o):
            w = c.matvec(inv, list(rk[t][:, p]))
            for q in range(o):
                e[t, p, q] = s * (ro[p, q] - dot(c, w, list(rk[t][:, q])))
    c.eq(got, e if c.sym else e.astype(float), "posterior variance")


@case("psd", grid=[dict(n=1), dict(n=2)], thorough=[dict(n=3)],
      linalg="exact", backends=("numpy", "torch"))
def bounds(c, n):
    """0 <= variance <= scaled prior variance for every positive definite
    joint covariance, given by its Cholesky factor."""
    import MuyGPyS.gp.variance as V

    m = M()
    L = np.empty((n + 1, n + 1), dtype=object)
    for i in range(n + 1):
        for j in range(n + 1):
            L[i, j] = c.const(0)
            if j < i:
                L[i, j] = c.real(f"L_{i}_{j}", -0.7, 0.7)
            elif j == i:
                L[i, j] = c.pos(f"L_{i}_{i}", 0.6, 1.3)
    J = np.array([[dot(c, L[i], L[j]) for j in range(n + 1)]
                  for i in range(n + 1)], dtype=object)
    s = c.pos("s", 0.5, 2.0)
    v = c.pos("noise", 0.05, 0.3)
    K = J[:n, :n].copy()
    for i in range(n):
        K[i, i] = K[i, i] - v
    kout = J[n, n]
    fn = V.PosteriorVariance(
        c.arr(num(c, kout)), m.Homo(v), m.FixedScale(val=s))
    got = fn(c.arr(num(c, K[None])), c.arr(num(c, J[None, n, :n])))
    got = c.raw(got)[0]
    tol = 0 if c.sym else 1e-9
    c.check(got >= 0 - tol, "nonnegative")
    c.check(got <= s * kout + tol, "at most the prior variance")
    c.eq(got, s * L[n, n] * L[n, n], "Schur complement")
