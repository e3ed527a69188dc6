"""C01: difference / distance tensors and gathered targets."""

import numpy as np

from symx.registry import case

from .common import M, deformation, idx, lengths, sqdist


def _feats(c, name, n, d):
    """d == 0 stands for one-dimensional feature arrays."""
    if d == 0:
        return c.reals(name, (n,))
    return c.reals(name, (n, d))


def _row(r, i, d):
    return [r[i]] if d == 0 else list(r[i])


SHAPES = [
    dict(b=1, n=1, d=1), dict(b=1, n=2, d=2), dict(b=2, n=2, d=2),
    dict(b=2, n=1, d=3), dict(b=3, n=2, d=1), dict(b=2, n=3, d=2),
    dict(b=3, n=3, d=3),
]
FLAT = [dict(b=2, n=2, d=0), dict(b=1, n=3, d=0)]
# one large dimension at a time: sizes at which other code could take over
WIDE = [dict(b=130, n=2, d=1), dict(b=1, n=33, d=1), dict(b=1, n=2, d=70)]
BIG = [dict(b=5, n=6, d=4), dict(b=4, n=8, d=1), dict(b=3, n=5, d=6)]


def _indices(c, b, n, count, symbolic):
    if symbolic:
        return c.ints("nn", (b, n), 0, count - 1), c.ints(
            "bi", (b,), 0, count - 1)
    nn = (np.arange(b * n).reshape(b, n) * 7 + 3) % count
    bi = (np.arange(b) * 5 + 1) % count
    return idx(c, nn), idx(c, bi)


def _conc(c, a):
    r = c.raw(a)
    return np.array([int(v) for v in np.asarray(r).flat]).reshape(
        np.shape(r))


def _deform(c, m, kind, d):
    dd = max(d, 1)
    if kind == "aniso":
        return deformation(c, m, True, "l2", [c.pos(f"ls{k}") for k in
                                               range(dd)])
    if kind == "diffiso":
        return m.DifferenceIsotropy(m.F2, length_scale=m.P(c.pos("ls")))
    return deformation(c, m, False, kind, [c.pos("ls")])


@case("tensors", grid=[dict(kind=k, **s) for k in
                       ("l2", "F2", "aniso", "diffiso") for s in SHAPES]
      + [dict(kind=k, **s) for k in ("F2", "aniso") for s in WIDE],
      thorough=[dict(kind=k, **s) for k in ("l2", "F2", "aniso", "diffiso")
                for s in BIG],
      backends=("numpy", "torch"))
def tensors(c, kind, b, n, d):
    m = M()
    count = max(b, n) + 1
    tr = _feats(c, "tr", count, d)
    te = _feats(c, "te", count, d)
    nn, bi = _indices(c, b, n, count, False)
    de = _deform(c, m, kind, d)
    cr = c.raw(de.crosswise_tensor(te, tr, bi, nn))
    pw = c.raw(de.pairwise_tensor(tr, nn))
    _expect(c, kind, d, b, n, c.raw(tr), c.raw(te), _conc(c, nn), _conc(c, bi),
            cr, pw)


@case("tensors1d", grid=[dict(kind=k, **s) for k in
                         ("l2", "F2", "aniso", "diffiso") for s in FLAT],
      thorough=[dict(kind=k, b=6, n=4, d=0) for k in ("l2", "F2", "aniso")])
def tensors1d(c, kind, b, n, d):
    """One-dimensional feature vectors (numpy and MPI backends only)."""
    tensors(c, kind, b, n, d)


def _expect(c, kind, d, b, n, rtr, rte, nn, bi, cr, pw):
    dd = max(d, 1)
    diff = kind in ("aniso", "diffiso")
    ecr = np.empty((b, n, dd) if diff else (b, n), dtype=object)
    epw = np.empty((b, n, n, dd) if diff else (b, n, n), dtype=object)

    def f(x, y):
        if diff:
            return [x[k] - y[k] for k in range(dd)]
        s = sqdist(c, x, y)
        return c.sqrt(s) if kind == "l2" else s

    for t in range(b):
        for j in range(n):
            v = f(_row(rte, bi[t], d), _row(rtr, nn[t, j], d))
            if diff:
                ecr[t, j, :] = v
            else:
                ecr[t, j] = v
            for i in range(n):
                v = f(_row(rtr, nn[t, i], d), _row(rtr, nn[t, j], d))
                if diff:
                    epw[t, i, j, :] = v
                else:
                    epw[t, i, j] = v
    c.eq(cr, ecr if c.sym else ecr.astype(float), "crosswise")
    c.eq(pw, epw if c.sym else epw.astype(float), "pairwise")


@case("anyindex", grid=[dict(kind=k, **s) for k in ("l2", "aniso")
                        for s in (dict(b=2, n=2, d=2, count=2),
                                  dict(b=1, n=3, d=1, count=3),
                                  dict(b=2, n=1, d=0, count=3))],
      thorough=[dict(kind="F2", b=2, n=2, d=2, count=3),
                dict(kind="aniso", b=2, n=2, d=2, count=3)], max_paths=3000)
def anyindex(c, kind, b, n, d, count):
    """Arbitrary (symbolic) batch and neighbor indices."""
    m = M()
    tr = _feats(c, "tr", count, d)
    te = _feats(c, "te", count, d)
    nn, bi = _indices(c, b, n, count, True)
    de = _deform(c, m, kind, d)
    cr = c.raw(de.crosswise_tensor(te, tr, bi, nn))
    pw = c.raw(de.pairwise_tensor(tr, nn))
    _expect(c, kind, d, b, n, c.raw(tr), c.raw(te), _conc(c, nn), _conc(c, bi),
            cr, pw)


@case("scaled", grid=[dict(kind=k, b=b, n=n, d=d) for k in
                      ("l2", "F2", "aniso_l2", "aniso_F2", "diffiso")
                      for b, n, d in ((2, 2, 2), (1, 3, 1), (2, 1, 2),
                                      (3, 3, 3))]
      + [dict(kind=k, b=b, n=n, d=d) for k in ("F2", "aniso_F2", "aniso_l2")
         for b, n, d in ((70, 2, 1), (1, 20, 1), (1, 2, 24))],
      backends=("numpy", "torch"))
def scaled(c, kind, b, n, d):
    """Applying a deformation = metric of coordinates / length scales."""
    m = M()
    aniso = kind.startswith("aniso")
    count = max(b, n) + 1
    tr = c.reals("tr", (count, d))
    te = c.reals("te", (count, d))
    nn, bi = _indices(c, b, n, count, False)
    ls = lengths(c, d, aniso)
    metric = "F2" if kind in ("F2", "aniso_F2", "diffiso") else "l2"
    if kind == "diffiso":
        de = m.DifferenceIsotropy(m.F2, length_scale=m.P(ls[0]))
    else:
        de = deformation(c, m, aniso, metric, ls)
    cr = c.raw(de(de.crosswise_tensor(te, tr, bi, nn)))
    pw = c.raw(de(de.pairwise_tensor(tr, nn)))
    rtr, rte, nn, bi = c.raw(tr), c.raw(te), _conc(c, nn), _conc(c, bi)
    ecr = np.empty((b, n), dtype=object)
    epw = np.empty((b, n, n), dtype=object)

    def f(x, y):
        s = sqdist(c, x, y, ls, aniso)
        return c.sqrt(s) if metric == "l2" else s

    for t in range(b):
        for j in range(n):
            ecr[t, j] = f(rte[bi[t]], rtr[nn[t, j]])
            for i in range(n):
                epw[t, i, j] = f(rtr[nn[t, i]], rtr[nn[t, j]])
    if not c.sym:
        ecr, epw = ecr.astype(float), epw.astype(float)
    c.eq(cr, ecr, "crosswise")
    c.eq(pw, epw, "pairwise")
    # the same length scales given at call time
    names = {f"length_scale{k}": ls[k] for k in range(d)} if aniso else {
        "length_scale": ls[0]}
    other = [c.pos(f"o{k}", 0.5, 2.0) for k in range(len(ls))]
    if kind == "diffiso":
        de2 = m.DifferenceIsotropy(m.F2, length_scale=m.P(other[0]))
    else:
        de2 = deformation(c, m, aniso, metric, other)
    pw2 = c.raw(de2(de2.pairwise_tensor(tr, idx(c, nn)), **names))
    c.eq(pw2, epw, "pairwise with length scales given at call time")


@case("gather", grid=[dict(b=b, n=n, d=d, r=r, tr=t, te=e)
                      for b, n, d, r, t, e in
                      ((2, 3, 2, 0, 5, 3), (2, 2, 2, 1, 4, 4),
                       (3, 2, 1, 2, 5, 4), (1, 1, 1, 0, 3, 2),
                       (2, 2, 2, 2, 4, 2), (1, 3, 2, 3, 5, 2),
                       (3, 2, 2, 0, 3, 3), (2, 2, 2, 0, 2, 5),
                       (4, 3, 1, 1, 4, 4), (2, 1, 2, 0, 1, 2),
                       (130, 2, 1, 1, 140, 150), (1, 30, 1, 0, 40, 3),
                       (2, 2, 1, 40, 4, 5), (2, 2, 40, 0, 4, 5))],
      backends=("numpy", "torch"))
def gather(c, b, n, d, r, tr, te):
    """make_train_tensors / make_predict_tensors."""
    m = M()
    count, tcount = tr, te
    tr = c.reals("tr", (count, d))
    te = c.reals("te", (tcount, d))
    y = c.reals("y", (count, r) if r else (count,))
    model = m.MuyGPS(
        kernel=m.RBF(deformation=m.Isotropy(m.F2, length_scale=m.P(1.0))),
        noise=m.Homo(1e-3))
    nn = (np.arange(b * n).reshape(b, n) * 3 + 1) % count
    bi = (np.arange(b) * 2 + 1) % min(count, tcount)
    cd, pd, bt, bnt = model.make_train_tensors(idx(c, bi), idx(c, nn), tr, y)
    cd2, pd2, bnt2 = model.make_predict_tensors(
        idx(c, bi), idx(c, nn), te, tr, y)
    cd3, pd3, bnt3 = model.make_predict_tensors(
        idx(c, bi), idx(c, nn), None, tr, y)
    rtr, rte, ry = c.raw(tr), c.raw(te), c.raw(y)
    c.eq(bt, ry[bi], "batch targets")
    c.eq(bnt, ry[nn], "neighbor targets")
    c.eq(bnt2, ry[nn], "neighbor targets (predict)")
    c.eq(bnt3, ry[nn], "neighbor targets (predict, no test features)")
    e1 = zeros2(c, lambda t, j: sqdist(c, rtr[bi[t]], rtr[nn[t, j]]), b, n)
    e2 = zeros2(c, lambda t, j: sqdist(c, rte[bi[t]], rtr[nn[t, j]]), b, n)
    c.eq(cd, e1, "train crosswise")
    c.eq(cd2, e2, "predict crosswise")
    c.eq(cd3, e1, "predict crosswise without test features")
    e = np.empty((b, n, n), dtype=object)
    for t in range(b):
        for i in range(n):
            for j in range(n):
                e[t, i, j] = sqdist(c, rtr[nn[t, i]], rtr[nn[t, j]])
    if not c.sym:
        e = e.astype(float)
    c.eq(pd, e, "train pairwise")
    c.eq(pd2, e, "predict pairwise")
    c.eq(pd3, e, "predict pairwise without test features")


def zeros2(c, f, b, n):
    e = np.empty((b, n), dtype=object)
    for t in range(b):
        for j in range(n):
            e[t, j] = f(t, j)
    return e if c.sym else e.astype(float)


@case("helpers", grid=[dict(b=2, n=3, d=2), dict(b=1, n=1, d=1),
                       dict(b=3, n=2, d=1), dict(b=200, n=3, d=2),
                       dict(b=2, n=70, d=1)], backends=("numpy", "torch"))
def helpers(c, b, n, d):
    """batch_features_tensor and make_heteroscedastic_tensor gather rows."""
    from MuyGPyS.gp.tensors import (
        batch_features_tensor, make_heteroscedastic_tensor)

    count = n + 2
    tr = c.reals("tr", (count, d))
    nz = c.reals("nz", (count,), 0.01, 0.2, pos=True)
    nn = (np.arange(b * n).reshape(b, n) * 3 + 1) % count
    bi = (np.arange(b) * 2 + 1) % count
    c.eq(batch_features_tensor(tr, idx(c, bi)), c.raw(tr)[bi], "features")
    c.eq(make_heteroscedastic_tensor(nz, idx(c, nn)), c.raw(nz)[nn], "noise")
