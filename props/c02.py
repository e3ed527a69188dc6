"""C02: kernel values."""

import itertools

import numpy as np

from symx.registry import case

from .common import (
    M, SMOOTH, deformation, gram, idx, kernel, kfn, kval, lengths, sqdist)

KINDS = ("rbf", "m05", "m15", "m25", "minf")


def _tensors(c, b, n, d):
    count = b + n
    tr = c.reals("tr", (count, d))
    te = c.reals("te", (b, d))
    nn = (np.arange(b * n).reshape(b, n) * 3 + 1) % count
    nn = np.array([[(3 * t + j) % count for j in range(n)] for t in range(b)])
    bi = np.arange(b)
    return tr, te, nn, bi


def _grids(c, kind, tr, te, nn, ls, aniso):
    b, n = nn.shape
    rtr, rte = c.raw(tr), c.raw(te)
    ecr = np.empty((b, n), dtype=object)
    epw = np.empty((b, n, n), dtype=object)
    for t in range(b):
        for j in range(n):
            ecr[t, j] = kval(c, kind, rte[t], rtr[nn[t, j]], ls, aniso)
            for i in range(n):
                epw[t, i, j] = kval(
                    c, kind, rtr[nn[t, i]], rtr[nn[t, j]], ls, aniso)
    if not c.sym:
        ecr, epw = ecr.astype(float), epw.astype(float)
    return ecr, epw


WIDE = ((66, 2, 1), (1, 24, 1), (1, 2, 24))
SH = ((2, 2, 2), (1, 3, 1), (2, 1, 3))


@case("closed", grid=[dict(kind=k, aniso=a, b=b, n=n, d=d)
                      for k in KINDS for a in (False, True)
                      for b, n, d in SH]
      + [dict(kind=k, aniso=a, b=b, n=n, d=d) for k in ("rbf", "m15")
         for a in (False, True) for b, n, d in WIDE],
      thorough=[dict(kind=k, aniso=a, b=3, n=4, d=3) for k in KINDS
                for a in (False, True)],
      backends=("numpy", "torch"))
def closed(c, kind, aniso, b, n, d):
    """Kernel tensors from features equal the documented closed forms."""
    m = M()
    tr, te, nn, bi = _tensors(c, b, n, d)
    ls = lengths(c, d, aniso)
    k = kernel(c, m, kind, ls, aniso)
    de = k.deformation
    cd = de.crosswise_tensor(te, tr, idx(c, bi), idx(c, nn))
    pd = de.pairwise_tensor(tr, idx(c, nn))
    c0, p0 = np.array(c.raw(cd)), np.array(c.raw(pd))
    kc, kp = k(cd), k(pd)
    ecr, epw = _grids(c, kind, tr, te, nn, ls, aniso)
    c.eq(kc, ecr, "cross covariance")
    c.eq(kp, epw, "covariance")
    c.eq(cd, c0, "distances unchanged by the kernel (cross)")
    c.eq(pd, p0, "distances unchanged by the kernel (pair)")
    c.eq(k(pd), epw, "second evaluation")
    r = c.raw(kp)
    for t in range(b):
        for i in range(n):
            c.eq(r[t, i, i], c.const(1), f"unit diagonal {t},{i}")
            for j in range(i):
                c.eq(r[t, i, j], r[t, j, i], f"symmetry {t},{i},{j}")
    c.eq(k.Kout(), c.const(1), "prior variance")
    fn = k.get_opt_fn()
    c.eq(fn(pd), epw, "function handed to the optimiser")


@case("diffiso", grid=[dict(kind=k, b=b, n=n, d=d) for k in ("rbf", "m15")
                       for b, n, d in ((2, 2, 2), (1, 3, 1))],
      backends=("numpy", "torch"))
def diffiso(c, kind, b, n, d):
    m = M()
    tr, te, nn, bi = _tensors(c, b, n, d)
    ls = lengths(c, d, False)
    de = m.DifferenceIsotropy(m.F2 if kind == "rbf" else m.l2,
                              length_scale=m.P(ls[0]))
    k = m.RBF(deformation=de) if kind == "rbf" else m.Matern(
        smoothness=m.P(SMOOTH[kind]), deformation=de)
    cd = de.crosswise_tensor(te, tr, idx(c, bi), idx(c, nn))
    pd = de.pairwise_tensor(tr, idx(c, nn))
    ecr, epw = _grids(c, kind, tr, te, nn, ls, False)
    c.eq(k(cd), ecr, "cross covariance")
    c.eq(k(pd), epw, "covariance")
    l2 = c.pos("other", 0.6, 1.6)
    ecr2, _ = _grids(c, kind, tr, te, nn, [l2], False)
    c.eq(k(cd, length_scale=l2), ecr2, "length scale given at call time")


@case("bounds", grid=[dict(kind=k, d=d) for k in KINDS for d in (1, 2)],
      backends=("numpy",))
def bounds(c, kind, d):
    """0 < k <= 1 for every pair of points."""
    m = M()
    tr = c.reals("tr", (2, d), -1.5, 1.5)
    ls = lengths(c, d, False)
    k = kernel(c, m, kind, ls)
    pd = k.deformation.pairwise_tensor(tr, idx(c, [[0, 1]]))
    K = c.raw(k(pd))
    v = K[0, 0, 1]
    c.check(v > 0, "positive")
    if kind in ("m15", "m25"):
        # lemma instance: exp(x) >= 1 + x (+ x^2/2) for x >= 0
        s = sqdist(c, c.raw(tr)[0], c.raw(tr)[1], ls)
        x = c.sqrt(s) * c.sqrt(c.const(3 if kind == "m15" else 5))
        e = c.exp(-x)
        if kind == "m15":
            c.assume((1 + x) * e <= 1)
        else:
            c.assume((1 + x + x * x / 2) * e <= 1)
    c.check(v <= 1, "at most the prior variance")


@case("override", grid=[dict(kind=k, d=d) for k in ("rbf", "m05", "m25")
                        for d in (2, 3)], backends=("numpy", "torch"))
def override(c, kind, d):
    """Length scales given by name bind to their own dimension."""
    m = M()
    n = 2
    tr = c.reals("tr", (n + 1, d))
    nn = np.array([[0, 1], [2, 0]])
    ls = [c.pos(f"ls{k}", 0.6, 1.6) for k in range(d)]
    new = [c.pos(f"new{k}", 0.6, 1.6) for k in range(d)]
    k = kernel(c, m, kind, ls, True)
    pd = k.deformation.pairwise_tensor(tr, idx(c, nn))
    rtr = c.raw(tr)
    fn = k.get_opt_fn()

    def expect(l):
        e = np.empty((2, n, n), dtype=object)
        for t in range(2):
            for i in range(n):
                for j in range(n):
                    e[t, i, j] = kval(c, kind, rtr[nn[t, i]], rtr[nn[t, j]],
                                      l, True)
        return e if c.sym else e.astype(float)

    for sub in itertools.chain.from_iterable(
        itertools.permutations(range(d), r) for r in range(1, d + 1)
    ):
        kw = {f"length_scale{q}": new[q] for q in sub}
        l = [new[q] if q in sub else ls[q] for q in range(d)]
        name = "".join(map(str, sub))
        c.eq(k(pd, **kw), expect(l), f"given {name}")
        c.eq(fn(pd, **kw), expect(l), f"optimiser function given {name}")
    c.eq(k(pd), expect(ls), "stored length scales afterwards")


@case("manyscales", grid=[dict(kind=k, d=d) for k in ("rbf", "m15")
                          for d in (11, 13, 21)],
      backends=("numpy", "torch"))
def manyscales(c, kind, d):
    """More than ten length scales: names that are prefixes of others."""
    m = M()
    tr = c.reals("tr", (3, d))
    nn = np.array([[0, 1], [2, 0]])
    ls = [c.pos(f"ls{k}", 0.6, 1.6) for k in range(d)]
    new = [c.pos(f"new{k}", 0.6, 1.6) for k in range(d)]
    k = kernel(c, m, kind, ls, True)
    pd = k.deformation.pairwise_tensor(tr, idx(c, nn))
    R = c.raw(tr)

    def expect(l):
        e = np.array([[[kval(c, kind, R[i], R[j], l, True) for j in row]
                       for i in row] for row in nn], dtype=object)
        return e if c.sym else e.astype(float)

    for sub in ((1,), (10,), (10, 1), (d - 1, 0, 2), range(d),
                range(d - 1, -1, -1)):
        kw = {f"length_scale{q}": new[q] for q in sub}
        l = [new[q] if q in sub else ls[q] for q in range(d)]
        name = "-".join(map(str, sub))
        c.eq(k(pd, **kw), expect(l), f"given {name}")
        c.eq(k.get_opt_fn()(pd, **kw), expect(l), f"optimiser, {name}")
    c.eq(k(pd), expect(ls), "stored length scales afterwards")
    names, _, _ = k.get_opt_params()
    c.check(list(names) == [], "nothing is free")


@case("override_iso", grid=[dict(kind=k) for k in KINDS],
      backends=("numpy", "torch"))
def override_iso(c, kind):
    m = M()
    n, d = 3, 2
    tr = c.reals("tr", (n, d))
    nn = np.array([[0, 1, 2]])
    ls = lengths(c, d, False)
    new = c.pos("new", 0.6, 1.6)
    k = kernel(c, m, kind, ls)
    pd = k.deformation.pairwise_tensor(tr, idx(c, nn))
    R = c.raw(tr)
    e = gram(c, kind, R, [new])[None]
    e0 = gram(c, kind, R, ls)[None]
    if not c.sym:
        e, e0 = e.astype(float), e0.astype(float)
    c.eq(k(pd, length_scale=new), e, "length scale given at call time")
    c.eq(k(pd), e0, "stored length scale")
    # other hyperparameters passed along do not matter
    c.eq(k(pd, length_scale=new, noise=c.pos("z", 0.1, 0.5)), e, "with noise")


def _gen_expect(c, x, nu):
    """2^(1-nu)/Gamma(nu) t^nu K_nu(t), t = sqrt(2 nu) x."""
    t = c.sqrt(2 * nu) * x
    if c.sym:
        from symx import core

        return (core.power(core.lift(2), 1 - nu) / c.uf("_gamma1", nu)
                * core.power(t, nu) * c.uf("_kv1", nu, t))
    return 2 ** (1 - nu) / c.uf("gamma", nu) * t**nu * c.uf("kv", nu, t)


@case("general", grid=[dict(n=n, opt=o) for n in (2, 3)
                       for o in (False, True)])
def general(c, n, opt):
    """Arbitrary smoothness (numpy only)."""
    m = M()
    d = 1
    rows = [[c.real("tr0", -2.0, 2.0)]]
    for i in range(1, n):
        # decreasing positions: distinct points
        rows.append([rows[-1][0] - c.pos(f"gap{i}", 0.1, 1.0)])
    tr = c.arr(rows)
    R = c.raw(tr)
    nu = c.pos("nu", 0.6, 2.9)
    nu0 = c.pos("nu0", 0.5, 3.0)
    c.assume(nu0 > 0.2)
    c.assume(nu0 < 5)
    ls = lengths(c, d, False)
    k = m.Matern(
        smoothness=m.P(nu0, (0.1, 5.0)) if opt else m.P(nu),
        deformation=deformation(c, m, False, "l2", ls))
    if not opt:
        c.assume(c.Not(nu == c.const(1.5)))
        c.assume(c.Not(nu == c.const(2.5)))
        c.assume(c.Not(nu == c.const(0.5)))
    de = k.deformation
    nn = np.arange(n)[None]
    pd = de.pairwise_tensor(tr, idx(c, nn))
    p0 = np.array(c.raw(pd))
    K = c.raw(k.get_opt_fn()(pd, smoothness=nu) if opt else k(pd))
    for i in range(n):
        for j in range(n):
            if i == j:
                if not c.sym:
                    c.check(abs(K[0, i, i] - 1) < 1e-6, "unit diagonal")
                continue
            x = c.abs(R[i][0] - R[j][0]) / ls[0]
            c.eq(K[0, i, j], _gen_expect(c, x, nu), f"value {i}{j}")
    c.eq(pd, p0, "distances unchanged by the kernel")


@case("half", grid=[dict(nu=v) for v in (0.5, 1.5, 2.5)])
def half(c, nu):
    """The general form agrees with the closed forms at half integers."""
    m = M()
    x0 = c.real("x0", -1.0, 1.0)
    tr = c.arr([[x0], [x0 - c.pos("gap", 0.1, 1.5)]])
    R = c.raw(tr)
    ls = lengths(c, 1, False)
    de = deformation(c, m, False, "l2", ls)
    free = m.Matern(smoothness=m.P(c.const(nu), (0.1, 5.0)), deformation=de)
    kind = {0.5: "m05", 1.5: "m15", 2.5: "m25"}[nu]
    pd = de.pairwise_tensor(tr, idx(c, [[0, 1]]))
    K = c.raw(free(pd))
    c.eq(K[0, 0, 1], kval(c, kind, R[0], R[1], ls), "free smoothness")
    fixed = m.Matern(smoothness=m.P(nu), deformation=de)
    c.eq(c.raw(fixed(pd))[0, 0, 1], kval(c, kind, R[0], R[1], ls), "fixed")


@case("defaults", backends=("numpy", "torch"))
def defaults(c):
    """Default kernels: unit length scale, RBF on squared distances, Matern
    with smoothness 1/2 on distances."""
    m = M()
    tr = c.reals("tr", (3, 2))
    R = c.raw(tr)
    one = [c.const(1)]
    for k, kind in ((m.RBF(), "rbf"), (m.Matern(), "m05")):
        pd = k.deformation.pairwise_tensor(tr, idx(c, [[0, 1, 2]]))
        e = gram(c, kind, R, one)[None]
        c.eq(k(pd), e if c.sym else e.astype(float), kind)
