"""C13: MPI ranks hold consecutive balanced chunks of the serial tensors."""

import numpy as np

from symx.registry import case

from .common import M, deformation, lengths, num, simple_gp

MPI = ("mpi",)
TABLE = [[1, 2, 3], [2, 0, 4], [4, 3, 1], [0, 1, 2], [3, 2, 0], [2, 1, 0],
         [1, 1, 4]]


def utils():
    import MuyGPyS._src.mpi_utils as u

    return u


def everywhere(name, grid, ranks, **kw):
    """Register a harness for several numbers of ranks."""

    def deco(fn):
        for p in ranks:
            case(f"{name}/{p}", grid=grid, backends=MPI, ranks=p, **kw)(fn)
        return fn

    return deco


def table(b, n):
    return np.array([TABLE[i % len(TABLE)][:n] for i in range(b)],
                    dtype=np.int64)


def chunks(c, parts, whole, label):
    """parts (one array per rank) are consecutive balanced pieces of whole."""
    whole = np.asarray(whole)
    n, p = whole.shape[0], len(parts)
    raws = [np.asarray(c.raw(x)) for x in parts]
    sizes = [r.shape[0] for r in raws]
    c.ok(sum(sizes) == n, f"{label}: every element once",
         f"sizes {sizes} for {n} elements")
    c.ok(max(sizes) - min(sizes) <= 1, f"{label}: balanced",
         f"sizes {sizes} for {n} elements")
    at = 0
    for r, x in enumerate(raws):
        c.eq(x, num(c, whole[at:at + sizes[r]]) if sizes[r] else
             np.zeros((0,) + whole.shape[1:]), f"{label}, rank {r} of {p}")
        at += sizes[r]


@case("sizes", grid=[dict(p=p) for p in (1, 2, 3, 4, 5, 7, 8)])
def sizes(c, p):
    """Any number of elements over p ranks (symbolic count)."""
    f = getattr(utils(), "_get_chunk_sizes", None)
    if f is None:
        c.ok(True, "no such helper")
        return
    n = c.int("count", 0, 2 ** 40)
    s = [c.raw(x) for x in f(n, p)]
    c.ok(len(s) == p, "one size per rank")
    tot = c.const(0)
    for x in s:
        tot = tot + x
        c.check(c.And(x >= 0, x * p <= n + p - 1, x * p >= n - p + 1),
                "balanced")
    c.check(tot == n, "sizes add up")


@everywhere("roundtrip", [dict(n=n, shape=s) for n in (0, 1, 2, 3, 4, 5, 7)
                          for s in ((), (2,), (1, 2))], (1, 2, 3, 4))
def roundtrip(c, n, shape):
    """Scattering and gathering returns the tensor on every rank."""
    t = c.reals("t", (n,) + shape) if n else c.arr(
        np.zeros((0,) + shape))
    want = np.asarray(c.raw(t)).reshape((n,) + shape)

    def body(rank):
        u = utils()
        mine = u._consistent_chunk_tensor(t if rank == 0 else None)
        return mine, u._consistent_unchunk_tensor(mine)

    out = c.spmd(body)
    chunks(c, [o[0] for o in out], want, "chunk")
    for r, o in enumerate(out):
        c.eq(o[1], num(c, want) if n else np.zeros((0,) + shape),
             f"gathered on rank {r}")


# more ranks and elements
everywhere("roundtrip", [dict(n=n, shape=s) for n in (6, 13, 33, 70)
                         for s in ((), (2,))], (5, 7))(roundtrip)


@everywhere("scalar", [dict()], (1, 2, 3))
def scalar(c):
    """Reducing a scalar adds the values of the ranks, on every rank."""
    vals = [c.real(f"v{k}") for k in range(8)]
    out = c.spmd(lambda r: utils()._consistent_reduce_scalar(vals[r]))
    tot = c.const(0)
    for v in vals[:len(out)]:
        tot = tot + v
    for r, o in enumerate(out):
        c.eq(o, tot, f"sum on rank {r}")


def diffs(X, Z, bi, nn):
    """Crosswise differences by the definition."""
    b, n = nn.shape
    d = X.shape[1]
    R = np.empty((b, n, d), dtype=object)
    for i, j, k in np.ndindex(b, n, d):
        R[i, j, k] = X[bi[i], k] - Z[nn[i, j], k]
    return R


def pairs(X, nn):
    b, n = nn.shape
    d = X.shape[1]
    R = np.empty((b, n, n, d), dtype=object)
    for i, j, l, k in np.ndindex(b, n, n, d):
        R[i, j, l, k] = X[nn[i, j], k] - X[nn[i, l], k]
    return R


def norm(c, D, metric):
    R = np.empty(D.shape[:-1], dtype=object)
    for i in np.ndindex(*R.shape):
        s = c.const(0)
        for v in D[i]:
            s = s + v * v
        R[i] = s if metric == "F2" else c.sqrt(s)
    return R


def deform(c, m, kind, metric, ls):
    if kind == "diff":
        return m.DifferenceIsotropy(
            m.l2 if metric == "l2" else m.F2, length_scale=m.P(ls[0]))
    return deformation(c, m, kind == "aniso", metric, ls)


DEF = [dict(kind=k, metric=q, b=b, n=n, d=d)
       for k, q in (("iso", "l2"), ("iso", "F2"), ("aniso", "l2"),
                    ("aniso", "F2"), ("diff", "F2"))
       for b, n, d in ((1, 2, 1), (2, 2, 2), (3, 1, 1), (4, 2, 1), (5, 3, 2))]


@everywhere("deformation", DEF, (1, 2, 3))
def deformation_tensors(c, kind, metric, b, n, d):
    """The tensors made by a deformation function."""
    X = c.features("X", 5, d)
    Z = c.features("Z", 6, d)
    ls = lengths(c, d, kind == "aniso")
    nn = table(b, n)
    bi = np.array([(2 * i + 1) % 6 for i in range(b)])
    Xr, Zr = np.asarray(c.raw(X)), np.asarray(c.raw(Z))
    D, E = diffs(Zr, Xr, bi, nn), pairs(Xr, nn)
    if kind == "iso":
        D, E = norm(c, D, metric), norm(c, E, metric)

    def body(rank):
        f = deform(c, M(), kind, metric, ls)
        return f.crosswise_tensor(Z, X, bi, nn), f.pairwise_tensor(X, nn)

    out = c.spmd(body)
    chunks(c, [o[0] for o in out], D, "crosswise")
    chunks(c, [o[1] for o in out], E, "pairwise")


everywhere("deformation", [
    dict(kind=k, metric=q, b=b, n=2, d=1)
    for k, q in (("iso", "F2"), ("aniso", "l2")) for b in (4, 13, 40)],
    (5,))(deformation_tensors)


@everywhere("model", [dict(kind=k, multi=mu, r=r, b=b, n=n, d=d, test=t)
                      for k, mu, r, b, n, d, t in (
                          ("iso", False, None, 3, 2, 1, "none"),
                          ("iso", False, 1, 4, 2, 2, "test"),
                          ("iso", False, 2, 2, 2, 1, "test"),
                          ("aniso", False, None, 5, 1, 2, "test"),
                          ("aniso", False, 1, 3, 3, 2, "none"),
                          ("aniso", True, 2, 3, 2, 2, "test"),
                          ("iso", True, 2, 4, 1, 1, "none"),
                          ("iso", True, 2, 1, 2, 1, "test"))], (1, 2, 3))
def model_tensors(c, kind, multi, r, b, n, d, test):
    """make_predict_tensors and make_train_tensors."""
    X = c.features("X", 5, d)
    Z = c.features("Z", 7, d) if test == "test" else X
    y = c.reals("y", (5,) if r is None else (5, r))
    ls = lengths(c, d, kind == "aniso")
    nn = table(b, n)
    bi = np.array([(3 * i + 1) % (7 if test == "test" else 5)
                   for i in range(b)])
    ti = np.array([(2 * i + 3) % 5 for i in range(b)])
    Xr, Zr, yr = (np.asarray(c.raw(v)) for v in (X, Z, y))
    P, C, T = pairs(Xr, nn), diffs(Zr, Xr, bi, nn), diffs(Xr, Xr, ti, nn)
    if kind == "iso":
        P, C, T = (norm(c, v, "F2") for v in (P, C, T))

    def body(rank):
        m = M()
        if multi:
            one = dict(kernel=m.RBF(deformation=deform(c, m, kind, "F2", ls)),
                       noise=m.Homo(1e-3))
            gp = m.MultivariateMuyGPS(one, one)
        else:
            gp = m.MuyGPS(kernel=m.RBF(
                deformation=deform(c, m, kind, "F2", ls)), noise=m.Homo(1e-3))
        return (
            gp.make_predict_tensors(bi, nn, Z if test == "test" else None, X,
                                    y),
            gp.make_train_tensors(ti, nn, X, y))

    out = c.spmd(body)
    for r, o in enumerate(out):
        c.ok(len(o[0]) == 3 and len(o[1]) == 4, f"tensor counts of rank {r}")
    chunks(c, [o[0][0] for o in out], C, "predict crosswise")
    chunks(c, [o[0][1] for o in out], P, "predict pairwise")
    chunks(c, [o[0][2] for o in out], yr[nn], "predict neighbor targets")
    chunks(c, [o[1][0] for o in out], T, "train crosswise")
    chunks(c, [o[1][1] for o in out], P, "train pairwise")
    chunks(c, [o[1][2] for o in out], yr[ti], "train batch targets")
    chunks(c, [o[1][3] for o in out], yr[nn], "train neighbor targets")


everywhere("model", [
    dict(kind=k, multi=mu, r=r, b=b, n=n, d=1, test=t)
    for k, mu, r, b, n, t in (("iso", False, None, 23, 2, "test"),
                              ("aniso", False, 2, 4, 3, "none"),
                              ("iso", True, 2, 11, 2, "test"))],
    (5,))(model_tensors)


@everywhere("features", [dict(b=b, d=d) for b in (1, 3, 4) for d in (1, 2)],
            (1, 2, 3))
def batch_features(c, b, d):
    """Feature batches and per-point noise batches."""
    X = c.features("X", 5, d)
    v = c.reals("v", (5,), 0.1, 0.5, pos=True)
    bi = np.array([(3 * i + 1) % 5 for i in range(b)])
    nn = table(b, 2)

    def body(rank):
        import MuyGPyS.gp.tensors as t

        return (t.batch_features_tensor(X, bi),
                t.make_heteroscedastic_tensor(v, nn))

    out = c.spmd(body)
    chunks(c, [o[0] for o in out], np.asarray(c.raw(X))[bi], "features")
    chunks(c, [o[1] for o in out], np.asarray(c.raw(v))[nn], "noise")
