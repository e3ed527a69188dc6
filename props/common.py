"""Oracles and builders shared by the harnesses.

The oracles are written from the documented mathematics (the class and
function docstrings and docs/), on scalars, and do not call the package.
"""

import itertools
from types import SimpleNamespace

import numpy as np


def M():
    """The public names of the package used by the harnesses."""
    import MuyGPyS.gp as gp
    import MuyGPyS.gp.deformation as d
    import MuyGPyS.gp.hyperparameter as h
    import MuyGPyS.gp.kernels as k
    import MuyGPyS.gp.noise as n

    return SimpleNamespace(
        MuyGPS=gp.MuyGPS, MultivariateMuyGPS=gp.MultivariateMuyGPS,
        Isotropy=d.Isotropy, DifferenceIsotropy=d.DifferenceIsotropy,
        Anisotropy=d.Anisotropy, l2=d.l2, F2=d.F2,
        P=h.ScalarParam, VP=h.VectorParam, FixedScale=h.FixedScale,
        AnalyticScale=h.AnalyticScale, DownSampleScale=h.DownSampleScale,
        RBF=k.RBF, Matern=k.Matern, Homo=n.HomoscedasticNoise,
        Hetero=n.HeteroscedasticNoise, Null=n.NullNoise,
        ShearNoise=n.ShearNoise33,
    )


SMOOTH = {"m05": 0.5, "m15": 1.5, "m25": 2.5, "minf": float("inf")}


def deformation(c, m, aniso, metric, ls):
    met = m.l2 if metric == "l2" else m.F2
    if aniso:
        return m.Anisotropy(met, length_scale=m.VP(*[m.P(v) for v in ls]))
    return m.Isotropy(met, length_scale=m.P(ls[0]))


def kernel(c, m, kind, ls, aniso=False):
    """kind: rbf, m05, m15, m25, minf."""
    if kind == "rbf":
        return m.RBF(deformation=deformation(c, m, aniso, "F2", ls))
    return m.Matern(
        smoothness=m.P(SMOOTH[kind]),
        deformation=deformation(c, m, aniso, "l2", ls),
    )


def lengths(c, d, aniso, name="ls"):
    if aniso:
        return [c.pos(f"{name}{k}", 0.6, 1.6) for k in range(d)]
    return [c.pos(name, 0.6, 1.6)]


# -- oracle: metrics and kernels on scalars -------------------------------


def sqdist(c, x, y, ls=None, aniso=False):
    """Squared distance of feature vectors after dividing by length scales."""
    tot = c.const(0)
    for k in range(len(x)):
        d = x[k] - y[k]
        if ls is not None and aniso:
            d = d / ls[k]
        tot = tot + d * d
    if ls is not None and not aniso:
        tot = tot / (ls[0] * ls[0])
    return tot


def kfn(c, kind, s):
    """Kernel value from the squared scaled distance s."""
    if kind in ("rbf", "minf"):
        return c.exp(-(s / 2))
    d = c.sqrt(s)
    if kind == "m05":
        return c.exp(-d)
    if kind == "m15":
        k = c.sqrt(c.const(3)) * d
        return (1 + k) * c.exp(-k)
    if kind == "m25":
        k = c.sqrt(c.const(5)) * d
        return (1 + k + k * k / 3) * c.exp(-k)
    raise AssertionError(kind)


def kval(c, kind, x, y, ls, aniso=False):
    return kfn(c, kind, sqdist(c, x, y, ls, aniso))


def zeros(c, *shape):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = c.const(0)
    return a


def gram(c, kind, X, ls, aniso=False, noise=None):
    """Kernel matrix of a list of feature vectors plus diagonal noise."""
    n = len(X)
    K = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            K[i, j] = kval(c, kind, X[i], X[j], ls, aniso)
            if i == j and noise is not None:
                v = noise[i] if isinstance(noise, (list, np.ndarray)) else noise
                K[i, j] = K[i, j] + v
    return K


def cross(c, kind, x, X, ls, aniso=False):
    return [kval(c, kind, x, X[j], ls, aniso) for j in range(len(X))]


def dot(c, u, v):
    tot = c.const(0)
    for a, b in zip(u, v):
        tot = tot + a * b
    return tot


def add_noise(c, K, noise):
    """K (n, n) plus scalar or per-point noise on the diagonal."""
    K = np.array(K, dtype=object)
    n = K.shape[0]
    R = K.copy()
    for i in range(n):
        R[i, i] = K[i, i] + (noise[i] if np.ndim(noise) else noise)
    return R


def spd_inputs(c, name, b, n, extra=0):
    """A batch of symmetric matrices with dominant diagonals (n, n)."""
    K = np.empty((b, n, n), dtype=object)
    for t in range(b):
        for i in range(n):
            for j in range(i + 1):
                if i == j:
                    v = c.real(f"{name}_{t}_{i}_{i}", 1.0, 2.0, pos=True)
                else:
                    v = c.real(f"{name}_{t}_{i}_{j}", -0.3, 0.3)
                K[t, i, j] = v
                K[t, j, i] = v
    return K


def nn_table(b, n, count, start=0):
    """A neighbor table with distinct entries per row."""
    return np.array(
        [[(start + t + k * 1 + (t * k) % 2) % count for k in range(n)]
         for t in range(b)], dtype=np.int64)


def distinct_rows(b, n, count):
    """Neighbor rows with distinct entries, varied across rows."""
    out = []
    for t in range(b):
        row = [(t + k) % count for k in range(n)]
        if t % 2:
            row = row[::-1]
        out.append(row)
    return np.array(out, dtype=np.int64)


def idx(c, a):
    """Index arrays for the backend in use."""
    a = np.array(a, dtype=np.int64, order="C")
    if c.backend == "torch":
        if c.sym:
            from symx import torchshim

            a = torchshim.tensor(a)
        else:
            import torch

            a = torch.tensor(a)
    return c.track(a) if hasattr(c, "track") else a


def perms(n):
    return list(itertools.permutations(range(n)))


def noise_obj(c, m, kind, b, n):
    """(noise object, diagonal additions [b][n])."""
    if kind == "null":
        return m.Null(), [[c.const(0)] * n for _ in range(b)]
    if kind == "homo":
        v = c.nonneg("noise", 0.05, 0.4)
        return m.Homo(v), [[v] * n for _ in range(b)]
    if kind == "hetero":
        v = c.reals("noise", (b, n), 0.05, 0.4, pos=True)
        return m.Hetero(v), c.raw(v)
    raise AssertionError(kind)


def simple_gp(m, noise, **kw):
    """A model whose kernel does not matter."""
    kw.setdefault("scale", m.FixedScale())
    return m.MuyGPS(kernel=m.RBF(deformation=m.Isotropy(
        m.F2, length_scale=m.P(1.0))), noise=noise, **kw)


def num(c, a):
    """Object array of scalars, as floats in numeric runs."""
    a = np.array(a, dtype=object)
    return a if c.sym else a.astype(float)


def one_value(c, x):
    """The value of a scalar or of an array holding exactly one entry."""
    r = c.raw(x)
    if isinstance(r, np.ndarray):
        c.ok(r.size == 1, "a single value", f"shape {r.shape}")
        r = r.reshape(-1)[0]
    return r
