"""C05: noise models perturb exactly the diagonal."""

import numpy as np

from symx.registry import case

from .common import M, idx, num

B2 = ("numpy", "torch")


def mats(c, b, n, name="K"):
    """Arbitrary (not symmetric) matrices."""
    return c.reals(name, (b, n, n))


def plus(c, K, diag):
    """K (b, n, n) plus diag[b][n]."""
    b, n, _ = K.shape
    e = np.array(K, dtype=object)
    for t in range(b):
        for i in range(n):
            e[t, i, i] = e[t, i, i] + diag[t][i]
    return num(c, e)


def probe(K, *args, **kwargs):
    return K, args, kwargs


# one large dimension at a time: sizes at which other code could take over
SHAPES = [(200, 2), (1, 60), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3)]


@case("homo", grid=[dict(b=b, n=n) for b, n in SHAPES],
      thorough=[dict(b=4, n=5), dict(b=5, n=5)], backends=B2)
def homo(c, b, n):
    """Kin + v I, stored or given variance, input unchanged."""
    m = M()
    K = mats(c, b, n)
    R = np.array(c.raw(K))
    v = c.nonneg("v", 0.01, 0.9)
    w = c.nonneg("w", 0.01, 0.9)
    nz = m.Homo(v)
    c.eq(nz(), v, "value")
    ev = plus(c, R, [[v] * n] * b)
    ew = plus(c, R, [[w] * n] * b)
    c.eq(nz.perturb(K), ev, "perturb")
    c.eq(nz.perturb(K, noise=w), ew, "perturb with noise")
    fn = nz.perturb_fn(probe)
    got, args, kw = fn(K, 3, other=4)
    c.eq(got, ev, "perturb_fn")
    c.ok(args == (3,) and kw == {"other": 4}, "arguments are passed on")
    got, args, kw = fn(K, 3, other=4, noise=w)
    c.eq(got, ew, "perturb_fn with noise")
    c.ok(args == (3,) and kw == {"other": 4}, "noise is consumed")
    c.eq(K, R, "input unchanged")


@case("structured", grid=[dict(b=b, i=i, n=n, shear=s)
                          for s in (False, True)
                          for b, i, n in ((1, 3, 1), (2, 3, 2), (3, 3, 3),
                                          (1, 3, 2))]
      + [dict(b=2, i=2, n=2, shear=False), dict(b=1, i=2, n=3, shear=False),
         dict(b=2, i=1, n=2, shear=False)]
      + [dict(b=b, i=3, n=n, shear=s) for s in (False, True)
         for b, n in ((70, 1), (1, 20))],
      backends=B2)
def structured(c, b, i, n, shear):
    """5-d covariances: v on the flattened diagonal; the shear model puts
    2 v on the convergence block."""
    m = M()
    N = i * n
    K = mats(c, b, N)
    R = np.array(c.raw(K))
    v = c.nonneg("v", 0.01, 0.9)
    w = c.nonneg("w", 0.01, 0.9)
    nz = (m.ShearNoise if shear else m.Homo)(v)
    K5 = K.reshape(b, i, n, i, n)
    for val, kw in ((v, {}), (w, {"noise": w})):
        diag = [[val * 2 if shear and q < n else val for q in range(N)]] * b
        e = plus(c, R, diag).reshape(b, i, n, i, n)
        c.eq(nz.perturb(K5, **kw), e, f"perturb {len(kw)}")
        c.eq(nz.perturb_fn(probe)(K5, **kw)[0], e, f"perturb_fn {len(kw)}")
    c.eq(K, R, "input unchanged")


@case("hetero", grid=[dict(b=b, n=n) for b, n in SHAPES],
      thorough=[dict(b=4, n=5), dict(b=5, n=5)], backends=B2)
def hetero(c, b, n):
    """Each neighborhood gets its own per-neighbor variances."""
    import MuyGPyS.gp.tensors as T

    m = M()
    K = mats(c, b, n)
    R = np.array(c.raw(K))
    count = n + 2
    meas = c.arr(num(c, [c.nonneg(f"v{q}", 0.0, 0.9) for q in range(count)]))
    nn = np.array([[(2 * t + j) % count for j in range(n)] for t in range(b)])
    val = T.make_heteroscedastic_tensor(meas, idx(c, nn))
    rv = c.raw(meas)
    c.eq(val, rv[nn], "noise tensor")
    nz = m.Hetero(val)
    e = plus(c, R, [[rv[nn[t, j]] for j in range(n)] for t in range(b)])
    c.eq(nz.perturb(K), e, "perturb")
    got, args, kw = nz.perturb_fn(probe)(K, 3, other=4)
    c.eq(got, e, "perturb_fn")
    c.ok(args == (3,) and kw == {"other": 4}, "arguments are passed on")
    c.eq(nz.perturb(K), e, "perturb again")
    c.eq(K, R, "input unchanged")
    c.eq(meas, rv, "measurements unchanged")
    c.ok(nz.fixed() is True, "never optimized")


@case("null", grid=[dict(b=2, n=2), dict(b=1, n=1)], backends=B2)
def null(c, b, n):
    m = M()
    K = mats(c, b, n)
    R = np.array(c.raw(K))
    nz = m.Null()
    c.eq(nz.perturb(K), R, "perturb")
    c.eq(nz.perturb_fn(probe)(K)[0], R, "perturb_fn")
    c.eq(nz(), 0.0, "value")


@case("nullmodel", backends=B2)
def nullmodel(c):
    """A model without noise has no noise parameter to optimize."""
    m = M()
    gp = m.MuyGPS(kernel=m.RBF(deformation=m.Isotropy(
        m.F2, length_scale=m.P(1.0, (0.5, 2.0)))), noise=m.Null())
    c.ok(gp.fixed() is False, "length scale is free")
    names, _, bounds = gp.get_opt_params()
    c.ok(list(names) == ["length_scale"], "names")
    c.eq(bounds, np.array([[0.5, 2.0]]), "bounds")
    gp = m.MuyGPS(kernel=m.RBF(deformation=m.Isotropy(
        m.F2, length_scale=m.P(1.0))), noise=m.Null())
    c.ok(gp.fixed() is True, "nothing is free")


@case("negative", grid=[dict(at=k) for k in range(4)], backends=B2)
def negative(c, at):
    """A negative heteroscedastic variance anywhere is rejected."""
    m = M()
    v = np.empty((2, 2), dtype=object)
    for k, (i, j) in enumerate(np.ndindex(2, 2)):
        v[i, j] = (-c.pos("bad", 0.001, 1.0) if k == at
                   else c.real(f"v{k}", 0.0, 1.0))
    c.raises(lambda: m.Hetero(c.arr(num(c, v))), ValueError, "rejected")
    lo = c.real("lo", -2.0, 2.0)
    hi = lo + c.pos("gap", 0.1, 1.0)
    val = lo + (hi - lo) / 2
    if c.branch(lo < 0):
        c.raises(lambda: m.Homo(val, (lo, hi)), ValueError,
                 "negative optimization bounds rejected")
    else:
        nz = m.Homo(val, (lo, hi))
        c.eq(nz(), val, "value kept")


@case("shape", grid=[dict(shear=False, s=(2, 2)), dict(shear=True, s=(2, 2, 2)),
                     dict(shear=False, s=(2, 2, 2, 2))], backends=B2)
def shape(c, shear, s):
    """Unsupported shapes are rejected rather than mangled."""
    m = M()
    K = c.reals("K", s)
    nz = (m.ShearNoise if shear else m.Homo)(0.1)
    c.raises(lambda: nz.perturb(K), ValueError, "rejected")
