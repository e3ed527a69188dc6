"""C03: posterior mean."""

import numpy as np

from symx.registry import case

from .common import (
    M, add_noise, gram, cross, dot, idx, kernel, lengths, noise_obj,
    simple_gp, spd_inputs)


def expected_mean(c, K, k, y):
    """K (b, n, n) noisy, k (b, n), y (b, n[, r])."""
    b, n = k.shape
    r = y.shape[2] if y.ndim == 3 else None
    out = np.empty((b,) if r is None else (b, r), dtype=object)
    for t in range(b):
        w = c.matvec(c.inv(K[t]), list(k[t]))
        if r is None:
            out[t] = dot(c, w, list(y[t]))
        else:
            for q in range(r):
                out[t, q] = dot(c, w, list(y[t][:, q]))
    return out if c.sym else out.astype(float)


SHAPES = [(2, 2, 0), (1, 1, 0), (1, 3, 0), (3, 1, 0), (2, 3, 1), (2, 3, 2),
          (2, 2, 2), (3, 3, 3), (1, 2, 2), (1, 1, 1), (2, 1, 2), (3, 2, 3),
          (2, 2, 1)]
# one large dimension at a time: sizes at which other code could take over
WIDE = [(1, 51, 0), (300, 1, 0), (130, 2, 2), (2, 2, 70)]


@case("matrix", grid=[dict(noise=z, b=b, n=n, r=r)
                      for z in ("null", "homo", "hetero")
                      for b, n, r in SHAPES]
      + [dict(noise=z, b=b, n=n, r=r) for z in ("homo", "hetero")
         for b, n, r in WIDE],
      thorough=[dict(noise=z, b=b, n=n, r=r) for z in ("homo", "hetero")
                for b, n, r in ((4, 5, 0), (2, 6, 2), (5, 5, 5), (2, 4, 4))],
      backends=("numpy", "torch"))
def matrix(c, noise, b, n, r):
    """mean = Kcross (Kin + noise)^-1 Y on arbitrary symmetric Kin."""
    m = M()
    Kin = spd_inputs(c, "K", b, n)
    k = c.reals("k", (b, n))
    y = c.reals("y", (b, n, r) if r else (b, n))
    nz, diag = noise_obj(c, m, noise, b, n)
    gp = simple_gp(m, nz)
    aK = c.arr(Kin)
    before = np.array(c.raw(aK))
    got = gp.posterior_mean(aK, k, y)
    noisy = np.array([add_noise(c, Kin[t], np.array(diag[t], dtype=object))
                      for t in range(b)])
    exp = expected_mean(c, noisy, c.raw(k), c.raw(y))
    c.eq(got, exp, "posterior mean")
    c.eq(aK, before, "covariance unchanged")
    c.eq(gp.get_opt_mean_fn()(aK, k, y), exp, "objective's mean function")
    # prediction is linear in the observations
    a = c.real("a", -2, 2)
    y2 = c.reals("y2", (b, n, r) if r else (b, n))
    lin = gp.posterior_mean(aK, k, c.arr(c.raw(y) * a + c.raw(y2)))
    two = gp.posterior_mean(aK, k, y2)
    c.eq(lin, c.raw(got) * a + c.raw(two), "linearity")


@case("override", grid=[dict(b=2, n=2, r=0, free=True),
                        dict(b=1, n=3, r=2, free=False),
                        dict(b=70, n=2, r=2, free=True),
                        dict(b=1, n=31, r=0, free=True)],
      backends=("numpy", "torch"))
def override(c, b, n, r, free):
    """The mean function of the objective takes noise by name."""
    m = M()
    Kin = spd_inputs(c, "K", b, n)
    k = c.reals("k", (b, n))
    y = c.reals("y", (b, n, r) if r else (b, n))
    v = c.nonneg("v", 0.05, 0.4)
    w = c.nonneg("w", 0.05, 0.4)
    c.assume(w <= 1)
    gp = simple_gp(m, m.Homo(w, (0.0, 1.0)) if free else m.Homo(w))
    got = gp.get_opt_mean_fn()(c.arr(Kin), k, y, noise=v)
    noisy = np.array([add_noise(c, Kin[t], v) for t in range(b)])
    c.eq(got, expected_mean(c, noisy, c.raw(k), c.raw(y)), "given noise")
    got = gp.posterior_mean(c.arr(Kin), k, y)
    noisy = np.array([add_noise(c, Kin[t], w) for t in range(b)])
    c.eq(got, expected_mean(c, noisy, c.raw(k), c.raw(y)), "stored noise")


@case("kernel", grid=[dict(kind=k, aniso=a, b=b, n=n, d=d, r=r)
                      for k, a in (("rbf", False), ("m05", True),
                                   ("m15", False), ("m25", True))
                      for b, n, d, r in ((2, 2, 2, 0), (1, 3, 1, 2),
                                         (2, 2, 1, 2))]
      + [dict(kind=k, aniso=a, b=b, n=n, d=d, r=r)
         for k, a in (("rbf", False), ("m15", True))
         for b, n, d, r in ((40, 2, 1, 2), (1, 24, 1, 0), (1, 2, 24, 0),
                            (1, 2, 1, 40))],
      thorough=[dict(kind=k, aniso=a, b=2, n=4, d=3, r=2)
                for k in ("rbf", "m05", "m15", "m25") for a in (False, True)],
      backends=("numpy", "torch"))
def from_features(c, kind, aniso, b, n, d, r):
    """Features, targets and neighbor indices to prediction."""
    m = M()
    count = n + 2
    tr = c.reals("tr", (count, d))
    te = c.reals("te", (b, d))
    y = c.reals("y", (count, r) if r else (count,))
    ls = lengths(c, d, aniso)
    v = c.pos("noise", 0.05, 0.4)
    gp = m.MuyGPS(kernel=kernel(c, m, kind, ls, aniso), noise=m.Homo(v))
    nn = np.array([[(2 * t + j) % count for j in range(n)] for t in range(b)])
    cd, pd, yt = gp.make_predict_tensors(
        idx(c, np.arange(b)), idx(c, nn), te, tr, y)
    got = gp.posterior_mean(gp.kernel(pd), gp.kernel(cd), yt)
    R, T, Y = c.raw(tr), c.raw(te), c.raw(y)
    K = np.array([gram(c, kind, R[nn[t]], ls, aniso, v) for t in range(b)])
    k = np.array([cross(c, kind, T[t], R[nn[t]], ls, aniso)
                  for t in range(b)], dtype=object)
    c.eq(got, expected_mean(c, K, k, Y[nn]), "posterior mean")


@case("structured", grid=[dict(b=2, i=2, n=2, o=1), dict(b=1, i=3, n=1, o=2),
                          dict(b=2, i=2, n=2, o=2), dict(b=2, i=3, n=2, o=3)],
      thorough=[dict(b=2, i=3, n=3, o=3)], backends=("numpy", "torch"))
def structured(c, b, i, n, o):
    """Covariances with an output dimension: (b, i, n, i, n), (b, i, n, o)."""
    m = M()
    N = i * n
    K = spd_inputs(c, "K", b, N)
    k = c.reals("k", (b, N, o))
    y = c.reals("y", (b, N))
    v = c.pos("noise", 0.05, 0.4)
    gp = simple_gp(m, m.Homo(v))
    aK = c.arr(K)
    got = gp.posterior_mean(
        aK.reshape(b, i, n, i, n), k.reshape(b, i, n, o),
        y.reshape(b, i, n))
    rk, ry = c.raw(k), c.raw(y)
    e = np.empty((b, o), dtype=object)
    for t in range(b):
        inv = c.inv(add_noise(c, K[t], v))
        for q in range(o):
            e[t, q] = dot(c, c.matvec(inv, list(rk[t][:, q])), list(ry[t]))
    c.eq(got, e if c.sym else e.astype(float), "posterior mean")
