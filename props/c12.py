"""C12: scale optimization sets the documented closed form."""

import numpy as np

from symx import stubs
from symx.registry import case

from .common import (
    M, add_noise, dot, gram, idx, noise_obj, num, one_value, simple_gp,
    spd_inputs)

B2 = ("numpy", "torch")


def quad(c, K, y):
    """y^T K^-1 y."""
    return dot(c, list(y), c.matvec(c.inv(K), list(y)))


def iterate(c, s0, k):
    """The documented iteration: half the sum of the current value and the
    value found with the covariance scaled by it."""
    s = s0
    for _ in range(1, k):
        s = (s + s0 / s) / 2
    return s


@case("analytic", grid=[dict(noise=z, b=b, n=n, k=k)
                        for z in ("null", "homo", "hetero")
                        for b, n in ((1, 1), (2, 2), (1, 3), (3, 1), (3, 2),
                                     (2, 3), (4, 4))
                        for k in (1, 2)]
      + [dict(noise=z, b=b, n=n, k=1) for z in ("homo", "hetero")
         for b, n in ((70, 2), (1, 17), (9, 5))]
      + [dict(noise="homo", b=2, n=2, k=k) for k in (3, 4)], backends=B2)
def analytic(c, noise, b, n, k):
    """sigma^2 = 1/(b n) sum_i y_i^T (K_i + eps_i)^-1 y_i, any covariance."""
    m = M()
    K = spd_inputs(c, "K", b, n)
    y = c.reals("y", (b, n))
    nz, add = noise_obj(c, m, noise, b, n)
    gp = simple_gp(m, nz, scale=m.AnalyticScale(iteration_count=k))
    Kin = c.arr(K)
    Y = c.raw(y)
    s0 = c.const(0)
    for i in range(b):
        s0 = s0 + quad(c, add_noise(c, K[i], add[i]), Y[i])
    s0 = s0 / (b * n)
    fn = gp.scale.get_opt_fn(gp)
    for lab in ("first", "again"):
        c.eq(one_value(c, fn(Kin, y)), iterate(c, s0, k), f"scale, {lab}")
    c.eq(Kin, num(c, K), "covariance unchanged")
    c.eq(y, Y, "targets unchanged")
    c.eq(one_value(c, gp.scale()), c.const(1), "stored scale not touched")


@case("structured", grid=[dict(b=b, o=o, n=n, noise=z)
                          for b, o, n in ((1, 2, 2), (2, 2, 1), (2, 1, 2),
                                          (2, 3, 1), (2, 2, 2))
                          for z in ("null", "homo")]
      + [dict(b=30, o=2, n=2, noise="homo"), dict(b=1, o=3, n=5, noise="homo")],
      backends=B2)
def structured(c, b, o, n, noise):
    """With structured outputs (b, o, n, o, n) the quadratic form runs over
    all o*n values and is divided by their number."""
    m = M()
    K = spd_inputs(c, "K", b, o * n)
    y = c.reals("y", (b, o, n))
    nz, add = noise_obj(c, m, noise, b, o * n)
    gp = simple_gp(m, nz, scale=m.AnalyticScale())
    Kin = c.arr(K.reshape((b, o, n, o, n)))
    Y = c.raw(y).reshape(b, o * n)
    s = c.const(0)
    for i in range(b):
        s = s + quad(c, add_noise(c, K[i], add[i]), Y[i])
    c.eq(one_value(c, gp.scale.get_opt_fn(gp)(Kin, y)), s / (b * o * n),
         "scale")


@case("model", grid=[dict(noise=z, start=s, times=t, k=k)
                     for z in ("null", "homo", "hetero")
                     for s in (False, True) for t in (1, 2) for k in (1, 2)],
      backends=B2)
def model(c, noise, start, times, k):
    """optimize_scale stores the value, whatever it was before, returns the
    same model, and a second run on the other data replaces it."""
    m = M()
    b, n, d = 2, 2, 1
    ls = c.pos("ls", 0.6, 1.6)
    nz, add = noise_obj(c, m, noise, b, n)
    kw = dict(val=c.pos("s0", 0.4, 2.0)) if start else {}
    gp = m.MuyGPS(kernel=m.RBF(deformation=m.Isotropy(
        m.F2, length_scale=m.P(ls))), noise=nz,
        scale=m.AnalyticScale(iteration_count=k, **kw))
    bi = np.arange(b)
    nn = np.array([[1, 2], [2, 0]])
    c.ok(gp.scale.trained is False, "untrained")
    for t in range(times):
        X = c.features(f"X{t}", 3, d)
        y = c.reals(f"y{t}", (3,))
        cd, pd, bt, nt = gp.make_train_tensors(idx(c, bi), idx(c, nn), X, y)
        old = one_value(c, gp.scale())
        Xr, Y = c.raw(X), c.raw(y)
        s0 = c.const(0)
        for i in range(b):
            s0 = s0 + quad(c, gram(c, "rbf", Xr[nn[i]], [ls], noise=list(
                add[i])), Y[nn[i]])
        s = iterate(c, s0 / (b * n), k)
        try:
            ret = gp.optimize_scale(pd, nt)
        except (ValueError, ZeroDivisionError):
            # responses that are all zero have no positive scale
            c.check(c.Or(s <= 0, s0 <= 0), "refused only without a positive "
                    "scale")
            c.eq(one_value(c, gp.scale()), old, "scale kept")
            return
        c.ok(ret is gp, "same model")
        c.ok(gp.scale.trained is True, "trained")
        c.eq(one_value(c, gp.scale()), s, f"scale {t}")
        c.eq(one_value(c, gp.kernel.deformation.length_scale()), ls,
             "length scale kept")


@case("still", grid=[dict(start=s) for s in (False, True)], backends=B2)
def still(c, start):
    """A fixed scale keeps its value."""
    m = M()
    v = c.pos("s0", 0.4, 2.0) if start else c.const(1)
    gp = simple_gp(m, m.Homo(c.pos("noise", 0.1, 0.4)),
                   scale=m.FixedScale(val=v) if start else m.FixedScale())
    X = c.features("X", 3, 1)
    y = c.reals("y", (3,))
    _, pd, _, nt = gp.make_train_tensors(
        idx(c, [0, 1]), idx(c, [[1, 2], [2, 0]]), X, y)
    gp.optimize_scale(pd, nt)
    c.eq(one_value(c, gp.scale()), v, "value")


@case("down", grid=[dict(noise=z, b=b, n=n, down=d, it=i)
                    for z, b, n, d, i in (
                        ("homo", 1, 2, 1, 1), ("homo", 2, 3, 2, 1),
                        ("homo", 2, 3, 1, 2), ("hetero", 2, 3, 2, 1),
                        ("null", 1, 3, 2, 2), ("homo", 1, 2, 1, 3),
                        ("hetero", 3, 2, 1, 2))], backends=B2, max_paths=600)
def down(c, noise, b, n, down, it):
    """The median over the iterations of the closed form on a sample of the
    neighbors, the same for the whole batch, without replacement."""
    m = M()
    K = spd_inputs(c, "K", b, n)
    y = c.reals("y", (b, n))
    nz, add = noise_obj(c, m, noise, b, n)
    gp = simple_gp(m, nz, scale=m.DownSampleScale(
        down_count=down, iteration_count=it))
    Y = c.raw(y)
    drawn = []

    def choice(a, size=None, replace=True, p=None):
        c.ok(replace is False, "sampled without replacement")
        pool = list(range(int(a))) if np.ndim(a) == 0 else list(np.array(
            a).tolist())
        c.ok(pool == list(range(n)), "sampled among all neighbors", str(pool))
        c.ok(int(size) == down, "sample size", str(size))
        k = len(drawn)
        out = []
        for j in range(down):
            left = [x for x in pool if x not in out]
            q = c.int(f"pick{k}_{j}", 0, len(left) - 1)
            for h, x in enumerate(left):
                if h == len(left) - 1 or c.branch(q == h):
                    out.append(x)
                    break
        drawn.append(out)
        return np.array(out)

    stubs.patch(c, "random.choice", choice)
    got = one_value(c, gp.scale.get_opt_fn(gp)(c.arr(K), y))
    c.ok(len(drawn) == it, "iterations", str(len(drawn)))
    vals = []
    for out in drawn:
        s = c.const(0)
        for i in range(b):
            A = add_noise(c, K[i], add[i])
            A = A[np.ix_(out, out)]
            s = s + quad(c, A, Y[i][out])
        vals.append(s / (b * down))
    if it == 1:
        e = vals[0]
    elif it == 2:
        e = (vals[0] + vals[1]) / 2
    else:
        lo = c.min(c.min(vals[0], vals[1]), vals[2])
        hi = c.max(c.max(vals[0], vals[1]), vals[2])
        e = vals[0] + vals[1] + vals[2] - lo - hi
    c.eq(got, e, "scale")


@case("toofew", grid=[dict(n=n, down=d) for n, d in ((2, 2), (2, 3), (1, 1))],
      backends=B2)
def toofew(c, n, down):
    """A sample as large as the neighborhood is refused."""
    m = M()
    K = spd_inputs(c, "K", 1, n)
    gp = simple_gp(m, m.Homo(0.1), scale=m.DownSampleScale(
        down_count=down, iteration_count=1))
    c.raises(lambda: gp.scale.get_opt_fn(gp)(c.arr(K), c.reals("y", (1, n))),
             ValueError, "refused")
