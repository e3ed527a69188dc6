"""Nearest-neighbour indexes with symbolic data.

An index answers with the true distances of the points, nearest first, and
breaks ties by an arbitrary priority of the training points.
"""

import itertools

import numpy as np

from symx import stubs


def sq(c, x, y):
    t = c.const(0)
    for a, b in zip(x, y):
        t = t + (a - b) * (a - b)
    return t


def manhattan(c, x, y):
    t = c.const(0)
    for a, b in zip(x, y):
        t = t + c.abs(a - b)
    return t


def rows(c, X):
    """A list of feature vectors."""
    r = np.asarray(c.raw(X))
    assert r.ndim == 2, f"the index got features of shape {r.shape}"
    return [[r[i, k] for k in range(r.shape[1])] for i in range(r.shape[0])]


class Priority(dict):
    """Priorities of the points of one query, drawn when points tie."""

    def __init__(self, c, q, t):
        self.new = lambda j: c.int(f"prio{q}_{j}", 0, t - 1)

    def __missing__(self, j):
        self[j] = self.new(j)
        return self[j]


def order(c, dist, prio):
    """Indices by distance, then priority, then index."""
    out = []
    for j in range(len(dist)):
        lo, hi = 0, len(out)
        while lo < hi:
            at = (lo + hi) // 2
            i = out[at]
            if c.branch(dist[j] < dist[i]) or (
                    c.branch(dist[j] <= dist[i])
                    and c.branch(prio[j] < prio[i])):
                hi = at
            else:
                lo = at + 1
        out.insert(lo, j)
    return out


class Index:
    """The two search libraries, installed with ``Index.install(c)``."""

    def __init__(self, c):
        self.c = c
        self.queries = itertools.count()
        self.log = []

    def install(self):
        self_ = self

        class Exact:
            def __init__(self, n_neighbors=5, radius=1.0, algorithm="auto",
                         leaf_size=30, metric="minkowski", p=2,
                         metric_params=None, n_jobs=None):
                self.n_neighbors = n_neighbors
                self.algorithm = algorithm
                self.metric, self.p = metric, p
                self_.log.append(dict(
                    n_neighbors=n_neighbors, algorithm=algorithm,
                    leaf_size=leaf_size, metric=metric, p=p, n_jobs=n_jobs,
                    radius=radius))

            def fit(self, X):
                self.X = rows(self_.c, X)
                return self

            def kneighbors(self, X=None, n_neighbors=None,
                           return_distance=True):
                n = n_neighbors or self.n_neighbors
                d, i = self_.answer(self.X, X, n, self.kind())
                return (d, i) if return_distance else i

            def kind(self):
                if self.metric == "manhattan" or (
                        self.metric == "minkowski" and self.p == 1):
                    return "l1"
                assert self.metric == "euclidean" or self.p == 2
                return "l2"

        class Hnsw:
            def __init__(self, space, dim):
                assert space == "l2"
                self.dim = dim
                self.X = []

            def init_index(self, max_elements, ef_construction=200, M=16,
                           random_seed=100, **k):
                self.max_elements = max_elements
                self_.log.append(dict(
                    max_elements=max_elements, M=M,
                    ef_construction=ef_construction, random_seed=random_seed))

            def add_items(self, X, ids=None, **k):
                new = rows(self_.c, X)
                assert all(len(r) == self.dim for r in new)
                self.X += new
                assert len(self.X) <= self.max_elements

            def knn_query(self, X, k=1, **kw):
                d, i = self_.answer(self.X, X, k, "F2")
                return i.astype(np.uint64), d

            def set_ef(self, ef):
                pass

        stubs.patch(self.c, "NearestNeighbors", Exact)
        stubs.patch(self.c, "hnswlib.Index", Hnsw)
        return self

    def answer(self, train, X, n, kind):
        c = self.c
        if n > len(train):
            raise ValueError(
                f"Expected n_neighbors <= n_samples_fit, but n_neighbors = "
                f"{n}, n_samples_fit = {len(train)}")
        idx, dst = [], []
        for x in rows(c, X):
            q = next(self.queries)
            if kind == "l1":
                dist = [manhattan(c, x, y) for y in train]
            else:
                dist = [sq(c, x, y) for y in train]
            prio = Priority(c, q, len(train))
            o = order(c, dist, prio)[:n]
            idx.append(o)
            dst.append([c.sqrt(dist[j]) if kind == "l2" else dist[j]
                        for j in o])
        from .common import num

        return (np.asarray(num(c, dst)) if not c.sym else c.arr(
            np.array(dst, dtype=object), "numpy"),
            np.array(idx, dtype=np.int64))
