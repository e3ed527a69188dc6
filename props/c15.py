"""C15: neighbor queries return the nearest points, never the point itself."""

import numpy as np

from symx.registry import case

from .knn import Index, manhattan, rows, sq

NT = ("numpy", "torch")


def wrapper(c, X, n, method="exact", real=False, **kw):
    ix = Index(c)
    if c.sym or not real:
        ix.install()
    from MuyGPyS.neighbors import NN_Wrapper

    return NN_Wrapper(X, n, nn_method=method, **kw), ix


def whole(c, nn):
    """Neighbor indices as concrete integers."""
    a = np.asarray(c.raw(nn))
    if c.sym and a.dtype == object:
        a = np.array([[int(e.const()) if hasattr(e, "const") else int(e)
                       for e in r] for r in a], dtype=np.int64).reshape(
                           a.shape)
    c.ok(a.dtype.kind in "iu", "integer indices", str(a.dtype))
    return a


def nearest(c, nn, dd, X, Q, n, metric="F2", skip=None, label="query"):
    """Rows of nn and dd are the n nearest of X for the queries Q."""
    nn = whole(c, nn)
    dd = np.asarray(c.raw(dd))
    c.ok(nn.shape == (len(Q), n), f"{label}: shape", str(nn.shape))
    c.ok(dd.shape == (len(Q), n), f"{label}: shape of distances",
         str(dd.shape))
    f = manhattan if metric == "l1" else sq
    tol = 0 if c.sym else 1e-9
    for i, q in enumerate(Q):
        dist = [f(c, q, y) for y in X]
        got = list(map(int, nn[i]))
        c.ok(len(set(got)) == n and all(0 <= j < len(X) for j in got),
             f"{label}: distinct neighbors", str(got))
        if skip is not None:
            c.ok(skip[i] not in got, f"{label}: no point is its own neighbor",
                 f"{got} for point {skip[i]}")
        for k, j in enumerate(got):
            c.eq(dd[i, k], dist[j], f"{label}: distance")
        goal = [dist[a] <= dist[b] + tol for a, b in zip(got, got[1:])]
        goal += [dist[got[-1]] <= dist[j] + tol for j in range(len(X))
                 if j not in got and (skip is None or j != skip[i])]
        c.check(c.And(*goal) if goal else True, f"{label}: nearest first")


METHODS = [dict(method="exact"), dict(method="hnsw"),
           dict(method="Exact")]
SH = [dict(t=3, n=1, d=1, m=1), dict(t=3, n=2, d=2, m=1),
      dict(t=3, n=3, d=1, m=1), dict(t=3, n=2, d=1, m=2),
      dict(t=2, n=1, d=3, m=2), dict(t=4, n=2, d=1, m=1)]
BIG = [dict(t=4, n=3, d=2, m=1), dict(t=4, n=4, d=1, m=1),
       dict(t=3, n=2, d=2, m=2), dict(t=5, n=3, d=1, m=1)]


@case("test", grid=[dict(s, **e) for s in SH for e in METHODS[:2]]
      + [dict(SH[1], **METHODS[2])], backends=NT,
      thorough=[dict(s, **e) for s in BIG for e in METHODS[:2]],
      max_paths=4000, budget=200)
def test(c, t, n, d, m, method):
    """get_nns of new points."""
    X, Z = c.features("x", t, d), c.features("z", m, d)
    w, _ = wrapper(c, X, n, method)
    nn, dd = w.get_nns(Z)
    nearest(c, nn, dd, rows(c, X), rows(c, Z), n)


@case("batch", grid=[dict(t=t, n=n, d=d, b=b, **e)
                     for t, n, d, b in (
                         (3, 1, 1, [0]), (3, 2, 2, [2]), (3, 2, 1, [1]),
                         (4, 2, 1, [1]), (2, 1, 2, [1, 0]), (3, 1, 1, [2, 0]))
                     for e in METHODS[:2]], backends=NT,
      thorough=[dict(t=t, n=n, d=d, b=b, **e)
                for t, n, d, b in ((4, 3, 2, [0]), (4, 3, 1, [3]),
                                   (3, 2, 2, [2, 1]), (5, 3, 1, [2]))
                for e in METHODS[:2]], max_paths=4000)
def batch(c, t, n, d, b, method):
    """get_batch_nns of training points, also with coinciding points."""
    from .common import idx

    X = c.features("x", t, d)
    w, _ = wrapper(c, X, n, method)
    nn, dd = w.get_batch_nns(idx(c, b))
    R = rows(c, X)
    nearest(c, nn, dd, R, [R[i] for i in b], n, skip=b, label="batch")


def spread(c, t, d, m):
    """Fixed points of many, of which one may move."""
    rng = np.random.RandomState(4)
    X, Z = (rng.randint(0, 2 ** 24, (a, d)) / 2 ** 17 for a in (t, m))
    out = []
    for A, q, lab in ((X, t // 2, "x"), (Z, m // 2, "z")):
        A = A.astype(object)
        v = c.real(lab, 0, 1)
        c.assume(v >= 0)
        c.assume(v <= 1)
        A[q, 0] = A[q, 0] + v / 2 ** 17
        out.append(c.arr(A if c.sym else A.astype(float)))
    return out


@case("many", grid=[dict(t=t, n=n, d=d, m=m, **e) for t, n, d, m in (
    (60, 20, 1, 3), (12, 3, 20, 2), (7, 2, 2, 70), (130, 5, 2, 2))
    for e in METHODS[:2]], backends=NT, max_paths=400)
def many(c, t, n, d, m, method):
    """Many points, features, neighbors or queries."""
    from .common import idx

    X, Z = spread(c, t, d, m)
    w, _ = wrapper(c, X, n, method)
    R, S = rows(c, X), rows(c, Z)
    nn, dd = w.get_nns(Z)
    nearest(c, nn, dd, R, S, n, label="query")
    b = [i for i in range(t - 1, -1, -1)][:m]
    nn, dd = w.get_batch_nns(idx(c, b))
    nearest(c, nn, dd, R, [R[i] for i in b], n, skip=b, label="batch")


@case("mix", grid=[dict(method=m, t=2) for m in ("exact", "hnsw")],
      thorough=[dict(method=m, t=3) for m in ("exact", "hnsw")],
      backends=NT, max_paths=4000)
def mix(c, method, t):
    """Queries do not disturb one another."""
    from .common import idx

    n, d = 1, 1
    X, Z = c.features("x", t, d), c.features("z", 1, d)
    w, _ = wrapper(c, X, n, method)
    R, S = rows(c, X), rows(c, Z)
    nn, dd = w.get_batch_nns(idx(c, [1]))
    nearest(c, nn, dd, R, [R[1]], n, skip=[1], label="first batch")
    nn, dd = w.get_nns(Z)
    nearest(c, nn, dd, R, S, n, label="after a batch")


@case("flat", grid=[dict(t=3, n=2, m=1), dict(t=2, n=1, m=2),
                    dict(t=3, n=1, m=1, method="hnsw")], backends=NT)
def flat(c, t, n, m, method="exact"):
    """One-dimensional data given without a feature axis."""
    x, z = c.reals("x", (t,)), c.reals("z", (m,))
    w, _ = wrapper(c, x, n, method)
    nn, dd = w.get_nns(z)
    R = [[v] for v in c.raw(x)]
    nearest(c, nn, dd, R, [[v] for v in c.raw(z)], n)


@case("l1", grid=[dict(kw=k) for k in ("metric", "p")], backends=("numpy",),
      max_paths=2000)
def l1(c, kw):
    """Another metric: its own distances, not squared."""
    X, Z = c.features("x", 3, 2), c.features("z", 1, 2)
    w, _ = wrapper(c, X, 2, **(dict(metric="manhattan") if kw == "metric"
                               else dict(p=1)))
    nn, dd = w.get_nns(Z)
    nearest(c, nn, dd, rows(c, X), rows(c, Z), 2, metric="l1")


@case("options", grid=[dict(method=m) for m in ("exact", "hnsw")])
def options(c, method):
    """Arguments reach the library, foreign ones do not."""
    X = c.features("x", 3, 2)
    if method == "exact":
        w, ix = wrapper(c, X, 2, method, algorithm="ball_tree", leaf_size=7,
                        n_jobs=1, M=3)
        got = ix.log[0]
        c.ok(got["algorithm"] == "ball_tree" and got["leaf_size"] == 7
             and got["n_jobs"] == 1, "arguments", str(got))
    else:
        w, ix = wrapper(c, X, 2, method, space="l2", M=9, ef_construction=33,
                        random_seed=5, leaf_size=3)
        got = ix.log[0]
        c.ok(got["M"] == 9 and got["ef_construction"] == 33
             and got["random_seed"] == 5, "arguments", str(got))
    c.ok(w.train_count == 3 and w.feature_count == 2 and w.nn_count == 2,
         "counts")
    c.raises(lambda: wrapper(c, X, 2, "voronoi"), NotImplementedError,
             "unknown method refused")


@case("library", grid=[dict(method=m, t=t, n=n, d=d, b=b)
                       for m in ("exact", "hnsw")
                       for t, n, d, b in ((3, 2, 1, [0]), (3, 1, 2, [2]),
                                          (3, 2, 2, None))],
      backends=NT, nval=6, max_paths=4000)
def library(c, method, t, n, d, b):
    """As above; the numeric runs use the real scikit-learn (hnswlib is
    approximate and keeps single precision)."""
    from .common import idx

    X, Z = c.features("x", t, d), c.features("z", 1, d)
    w, _ = wrapper(c, X, n, method, real=method == "exact")
    R, S = rows(c, X), rows(c, Z)
    if b is None:
        nn, dd = w.get_nns(Z)
        nearest(c, nn, dd, R, S, n)
    else:
        nn, dd = w.get_batch_nns(idx(c, b))
        nearest(c, nn, dd, R, [R[i] for i in b], n, skip=b, label="batch")
