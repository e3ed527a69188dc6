"""C06: fast posterior mean from precomputed coefficients."""

import numpy as np

from symx.registry import case

from .common import (
    M, add_noise, cross, dot, gram, idx, kernel, kval, lengths, noise_obj, num,
    simple_gp, spd_inputs)

B2 = ("numpy", "torch")


def flat(c, x, shape, label):
    """x as an array of the given shape, up to unit response dimensions."""
    r = c.raw(x)
    s = np.shape(r)
    ok = s == shape or (shape[-1] == 1 and s == shape[:-1])
    c.ok(ok, f"shape of {label}", f"{s} instead of {shape}")
    return np.array(r).reshape(shape) if ok else None


def mean_shape(c, x, b, r, label):
    s = np.shape(c.raw(x))
    want = [(b,), (b, 1)] if r == 1 else ([(b,)] if not r else [(b, r)])
    c.ok(s in want, f"shape of {label}", f"{s} instead of {want}")
    return s in want


# one large dimension at a time: sizes at which other code could take over
WIDE = [(1, 51, 0), (300, 1, 0), (130, 2, 2), (2, 2, 40)]
SHAPES = [(2, 2, 0), (1, 1, 0), (1, 2, 0), (3, 1, 0), (2, 3, 1), (2, 2, 2),
          (1, 2, 2), (2, 1, 2), (1, 1, 2), (3, 2, 3), (2, 3, 2), (1, 3, 1),
          (1, 1, 1)]


@case("matrix", grid=[dict(noise=z, b=b, n=n, r=r)
                      for z in ("homo", "hetero") for b, n, r in SHAPES]
      + [dict(noise=z, b=b, n=n, r=r) for z in ("homo", "hetero")
         for b, n, r in WIDE]
      + [dict(noise="null", b=2, n=2, r=2)],
      thorough=[dict(noise=z, b=b, n=n, r=r) for z in ("homo", "hetero")
                for b, n, r in ((4, 5, 0), (2, 6, 2), (5, 5, 5))],
      backends=B2)
def matrix(c, noise, b, n, r):
    """Coefficients solve the perturbed system; the mean is their product
    with the cross-covariance and agrees with the posterior mean."""
    m = M()
    K = spd_inputs(c, "K", b, n)
    k = c.reals("k", (b, n))
    y = c.reals("y", (b, n, r) if r else (b, n))
    nz, diag = noise_obj(c, m, noise, b, n)
    gp = simple_gp(m, nz)
    aK = c.arr(K)
    co = gp.fast_coefficients(aK, y)
    R = max(r, 1)
    Y = np.array(c.raw(y), dtype=object).reshape(b, n, R)
    kk = c.raw(k)
    e = np.empty((b, n, R), dtype=object)
    for t in range(b):
        inv = c.inv(add_noise(c, K[t], np.array(diag[t], dtype=object)))
        for q in range(R):
            for i, v in enumerate(c.matvec(inv, list(Y[t][:, q]))):
                e[t, i, q] = v
    got = flat(c, co, (b, n, R), "coefficients")
    if got is not None:
        c.eq(got, num(c, e), "coefficients")
    c.eq(aK, K if c.sym else K.astype(float), "covariance unchanged")
    mean = gp.fast_posterior_mean(k, co)
    if mean_shape(c, mean, b, r, "mean"):
        w = np.empty((b, R), dtype=object)
        for t in range(b):
            for q in range(R):
                w[t, q] = dot(c, kk[t], e[t][:, q])
        c.eq(np.array(c.raw(mean)).reshape(b, R), num(c, w), "mean")


@case("update", grid=[dict(t=t, n=n) for t, n in
                      ((3, 2), (2, 2), (4, 1), (4, 3), (3, 3))],
      backends=B2)
def update(c, t, n):
    """Neighbor tables gain the point itself and lose the farthest one."""
    import MuyGPyS.gp.tensors as T

    nn = c.ints("nn", (t, n), 0, t - 1)
    R = np.array(c.raw(nn))
    e = np.empty((t, n), dtype=object)
    for i in range(t):
        e[i, 0] = c.const(i)
        for j in range(1, n):
            e[i, j] = R[i, j - 1]
    got = T.fast_nn_update(nn)
    c.eq(got, e if c.sym else e.astype(int), "updated table")
    c.eq(nn, R, "table unchanged")


@case("tensors", grid=[dict(t=t, n=n, d=d, r=r) for t, n, d, r in
                       ((4, 2, 2, 0), (3, 2, 1, 2), (4, 3, 2, 2), (3, 1, 2, 1),
                        (4, 2, 2, 2), (40, 2, 1, 2), (18, 17, 1, 0),
                        (3, 2, 30, 1), (3, 2, 1, 30))], backends=B2)
def tensors(c, t, n, d, r):
    """Tensors on the updated neighborhoods."""
    import MuyGPyS.gp.tensors as T

    tr = c.reals("tr", (t, d))
    y = c.reals("y", (t, r) if r else (t,))
    nn = np.array([[(i + 1 + j) % t for j in range(n)] for i in range(t)])
    pd, yt = T.make_fast_predict_tensors(idx(c, nn), tr, y)
    up = np.array([[i] + list(nn[i, :-1]) for i in range(t)])
    X = c.raw(tr)[up]
    c.eq(pd, X[:, :, None, :] - X[:, None, :, :], "differences")
    c.eq(yt, c.raw(y)[up], "targets")


class Lookup:
    """Neighbor queries answered from fixed tables."""

    def __init__(self, c, nn, test_nn):
        self.c, self.nn, self.tn = c, nn, test_nn
        self.train_count, self.nn_count = nn.shape

    def get_batch_nns(self, indices):
        a = np.asarray(self.c.raw(indices)).astype(int)
        return idx(self.c, self.nn[a]), None

    def get_nns(self, test):
        return idx(self.c, self.tn), None


def tables(t, n, b, shift):
    """Neighbor tables without the point itself, and test neighbors."""
    nn = []
    for i in range(t):
        rest = [(i + 1 + j * (1 + shift)) % t for j in range(t)]
        row = []
        for v in rest + list(range(t)):
            if v != i and v not in row:
                row.append(v)
        nn.append(row[:n])
    tn = np.array([[(2 * i + 1 + shift + j) % t for j in range(n)]
                   for i in range(b)])
    return np.array(nn), tn


# the recorded finding: the driver updates the neighbor table a second time
# before it forms the cross-covariance
TWICE = "mean, table updated twice"


def oracle(c, kind, ls, aniso, v, X, Y, T, nn, tn, updates=1):
    b = len(tn)
    R = Y.shape[1]
    out = np.empty((b, R), dtype=object)
    for i in range(b):
        j = tn[i, 0]
        row = [j] + list(nn[j][:-1])
        K = gram(c, kind, X[row], ls, aniso, v)
        krow = row if updates == 1 else [j] + row[:-1]
        k = cross(c, kind, T[i], X[krow], ls, aniso)
        w = c.matvec(c.inv(K).T, k)
        for q in range(R):
            out[i, q] = dot(c, w, list(Y[row][:, q]))
    return out


API = [dict(kind="rbf", t=4, n=2, b=2, d=2, r=2, shift=0),
       dict(kind="m05", t=4, n=3, b=3, d=1, r=0, shift=1),
       dict(kind="rbf", t=5, n=2, b=1, d=1, r=2, shift=1),
       dict(kind="m15", t=3, n=1, b=2, d=2, r=0, shift=0),
       dict(kind="rbf", t=3, n=2, b=3, d=1, r=1, shift=0),
       dict(kind="rbf", t=4, n=1, b=1, d=1, r=2, shift=0)]
LARGE = [dict(kind="rbf", t=40, n=2, b=2, d=1, r=0, shift=0),
         dict(kind="m15", t=4, n=2, b=70, d=1, r=1, shift=0),
         dict(kind="rbf", t=4, n=2, b=2, d=20, r=2, shift=0),
         dict(kind="rbf", t=4, n=2, b=2, d=1, r=20, shift=0),
         dict(kind="rbf", t=14, n=12, b=1, d=1, r=0, shift=0)]


@case("api", grid=[dict(g, how=h) for g in API for h in ("any", "parts")]
      + [dict(g, how="parts") for g in LARGE],
      backends=lambda p: B2 if p["how"] != "any" else ("numpy",))
def api(c, how, kind, t, n, b, d, r, shift):
    """Prediction through precomputed coefficients uses, for each test point,
    the neighborhood and coefficients of its nearest training point."""
    import MuyGPyS.examples.fast_posterior_mean as F
    import MuyGPyS.examples.from_indices as I

    m = M()
    X = c.reals("tr", (t, d))
    T = c.reals("te", (b, d))
    y = c.reals("y", (t, r) if r else (t,))
    ls = lengths(c, d, False)
    v = c.pos("noise", 0.05, 0.4)
    gp = m.MuyGPS(kernel=kernel(c, m, kind, ls), noise=m.Homo(v))
    nn, tn = tables(t, n, b, shift)
    look = Lookup(c, nn, tn)
    if how == "any":
        mean, co, _ = F.fast_posterior_mean_any(gp, T, X, look, y)
    else:
        co, nn2 = F.make_fast_regressor(gp, look, X, y)
        up = np.array([[i] + list(nn[i][:-1]) for i in range(t)])
        c.eq(nn2, up, "updated table")
        near = idx(c, tn[:, 0])
        mean = I.fast_posterior_mean_from_indices(
            gp, idx(c, np.arange(b)), nn2[near], T, X, near, co)
    R = max(r, 1)
    if mean_shape(c, mean, b, r, "mean"):
        Y = np.array(c.raw(y), dtype=object).reshape(t, R)
        e = oracle(c, kind, ls, False, v, c.raw(X), Y, c.raw(T), nn, tn)
        f = oracle(c, kind, ls, False, v, c.raw(X), Y, c.raw(T), nn, tn, 2)
        c.eq_known(np.array(c.raw(mean)).reshape(b, R), num(c, e), num(c, f),
                   "mean", TWICE)


MULTI = [g for g in API if g["r"] == 2] + [
    dict(kind="rbf", t=4, n=2, b=2, d=1, r=1, shift=0),
    dict(kind="m05", t=3, n=1, b=3, d=2, r=3, shift=0),
    dict(kind="rbf", t=4, n=3, b=1, d=1, r=1, shift=1)]


@case("multi", grid=[dict(g, how=h) for g in MULTI
                     for h in ("any", "parts", "direct")
                     # the recorded finding concerns two neighbors and more
                     if h != "any" or g["r"] == 2],
      backends=lambda p: B2 if p["how"] != "any" else ("numpy",))
def multi(c, how, kind, t, n, b, d, r, shift):
    """The same for one independent model per response."""
    import MuyGPyS.examples.fast_posterior_mean as F
    import MuyGPyS.examples.from_indices as I

    m = M()
    X = c.reals("tr", (t, d))
    T = c.reals("te", (b, d))
    y = c.reals("y", (t, r))
    kinds = (kind,) * r
    lss = [[c.pos(f"ls{q}", 0.6, 1.6)] for q in range(r)]
    vs = [c.nonneg(f"noise{q}", 0.05, 0.4) for q in range(r)]
    gp = m.MultivariateMuyGPS(*[
        dict(kernel=kernel(c, m, kinds[q], lss[q]), noise=m.Homo(vs[q]))
        for q in range(r)])
    nn, tn = tables(t, n, b, shift)
    look = Lookup(c, nn, tn)
    up = np.array([[i] + list(nn[i][:-1]) for i in range(t)])
    if how == "any":
        mean, co, _ = F.fast_posterior_mean_any(gp, T, X, look, y)
    elif how == "parts":
        co, nn2 = F.make_fast_multivariate_regressor(gp, look, X, y)
        c.eq(nn2, up, "updated table")
        near = idx(c, tn[:, 0])
        mean = I.fast_posterior_mean_from_indices(
            gp, idx(c, np.arange(b)), nn2[near], T, X, near, co)
    else:
        de = gp.models[0].kernel.deformation
        co = gp.fast_coefficients(
            de.pairwise_tensor(X, idx(c, up)), y[idx(c, up)])
        near = tn[:, 0]
        cd = de.crosswise_tensor(T, X, idx(c, np.arange(b)), idx(c, up[near]))
        mean = gp.fast_posterior_mean(cd, co[idx(c, near)])
    if mean_shape(c, mean, b, r, "mean"):
        Y = np.array(c.raw(y), dtype=object)
        e = np.empty((b, r), dtype=object)
        f = np.empty((b, r), dtype=object)
        for q in range(r):
            a = (c, kinds[q], lss[q], False, vs[q], c.raw(X), Y[:, q:q + 1],
                 c.raw(T), nn, tn)
            e[:, q] = oracle(*a)[:, 0]
            f[:, q] = oracle(*a, 2)[:, 0]
        c.eq_known(mean, num(c, e), num(c, f), "mean", TWICE)
