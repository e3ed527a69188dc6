"""scipy.special / sklearn / optimizer functions as seen symbolically."""

import math

import numpy as np

from . import arr, core
from .arr import has_sym, obj, wrap
from .core import Fraction, Sym, lift, uf


def _sqrtpi():
    return uf("sqrtpi", (), lambda: math.sqrt(math.pi), sign="pos")


def _gamma1(x):
    x = lift(x)
    c = x.const()
    if c is not None:
        t = Fraction(c) - Fraction(1, 2)
        if t.denominator == 1 and 0 <= t <= 6:
            n = int(t)
            return lift(Fraction(math.factorial(2 * n),
                                 4**n * math.factorial(n))) * _sqrtpi()
        return lift(math.gamma(float(c)))
    import scipy.special as sp

    return uf("gamma", (x,), lambda v: float(sp.gamma(v)), sign="pos")


def _kv1(nu, x):
    nu, x = lift(nu), lift(x)
    c = nu.const()
    if c is not None:
        t = Fraction(c) - Fraction(1, 2)
        if t.denominator == 1 and 0 <= t <= 6:
            # half-integer orders have a closed form
            n = int(t)
            tot = lift(0)
            for k in range(n + 1):
                co = Fraction(
                    math.factorial(n + k),
                    math.factorial(k) * math.factorial(n - k) * 2**k,
                )
                tot = tot + lift(co) / x**k
            return (
                _sqrtpi() * core.sqrt(lift(Fraction(1, 2)) / x)
                * core.exp(-x) * tot
            )
    import scipy.special as sp

    return uf("kv", (nu, x), lambda a, b: float(sp.kv(a, b)), sign="pos")


def gamma(x):
    if not has_sym(x):
        import scipy.special as sp

        r = sp.gamma(x)
        return r
    if isinstance(x, Sym):
        return _gamma1(x)
    return wrap(np.asarray(np.frompyfunc(_gamma1, 1, 1)(obj(x)), dtype=object))


def kv(nu, x):
    if not has_sym(x) and not has_sym(nu):
        import scipy.special as sp

        return sp.kv(nu, x)
    if isinstance(x, Sym) and not isinstance(nu, np.ndarray):
        return _kv1(nu, x)
    return wrap(np.asarray(
        np.frompyfunc(_kv1, 2, 1)(obj(nu), obj(x)), dtype=object))


def gammaln(x):
    raise core.Unsupported("gammaln")


def softmax(x, axis=None):
    x = arr.symarray(x)
    e = np.exp(x)
    return e / np.sum(e, axis=axis, keepdims=True)


def log_softmax(x, axis=None):
    x = arr.symarray(x)
    return x - logsumexp(x, axis=axis, keepdims=True)


def logsumexp(x, axis=None, keepdims=False, **k):
    return np.log(np.sum(np.exp(arr.symarray(x)), axis=axis, keepdims=keepdims))


def expit(x):
    return 1 / (1 + np.exp(-arr.symarray(x)))


def log_loss(y_true, y_pred, *, eps="auto", normalize=True,
             sample_weight=None, labels=None):
    """sklearn.metrics.log_loss for rows that are probability vectors.

    Contract modelled: y_true is a label indicator or a binary label vector;
    y_pred holds probabilities (clipping by machine epsilon is outside the
    model); the loss is the sum or the mean of -log p(true class).
    """
    if sample_weight is not None or labels is not None and has_sym(labels):
        raise core.Unsupported("log_loss arguments")
    y = arr.symarray(y_true)
    p = arr.symarray(y_pred)
    if not p.size or not y.size:
        raise ValueError("Found array with 0 sample(s)")
    if y.ndim == 1:
        cls = sorted({lift(e).const() for e in obj(y)}) if all(
            lift(e).const() is not None for e in obj(y)) else None
        if labels is not None:
            cls = sorted(labels)
        if cls is None:
            raise core.Unsupported("log_loss with symbolic label vectors")
        y = arr.symarray([[1 if lift(e).const() == k else 0 for k in cls]
                          for e in obj(y)])
    if p.ndim == 1:
        p = p.reshape(-1, 1)
    if p.shape[1] == 1:
        p = np.concatenate([1 - p, p], axis=1)
    if y.shape[1] == 1:
        y = np.concatenate([1 - y, y], axis=1)
    tot = lift(0)
    for i in range(p.shape[0]):
        s = lift(0)
        for j in range(p.shape[1]):
            s = s + p[i, j]
        for j in range(p.shape[1]):
            yj = lift(y[i, j])
            c = yj.const()
            if c == 0:
                continue
            tot = tot - yj * (core.log(p[i, j]) - core.log(s))
    return tot / p.shape[0] if normalize else tot
