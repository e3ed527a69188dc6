"""scipy.linalg routines a linear-algebra rewrite might use."""

import numpy as np

from . import arr, npshim
from .arr import obj, symarray, wrap


def cho_factor(a, lower=False, **k):
    return ("chol-of", a), lower


def cho_solve(c, b, **k):
    (tag, a), _ = c
    a, b = obj(a), obj(b)
    return wrap(arr.matmul(arr.inverse(a), b))


def solve(a, b, **k):
    a, b = obj(a), obj(b)
    return wrap(arr.matmul(arr.inverse(a), b))


def cholesky(a, lower=False, **k):
    L = arr.cholesky(a)
    return wrap(L if lower else np.swapaxes(L, -1, -2))


def solve_triangular(a, b, trans=0, lower=False, **k):
    a = obj(a)
    if trans:
        a = a.T
    return wrap(arr.matmul(arr.inverse(a), obj(b)))


def cdist(a, b, metric="euclidean", **k):
    a, b = symarray(a), symarray(b)
    d = a[:, None, :] - b[None, :, :]
    s = np.sum(d * d, axis=-1)
    return np.sqrt(s) if metric == "euclidean" else s


def table():
    return dict(cho_factor=cho_factor, cho_solve=cho_solve, solve=solve,
                cholesky=cholesky, solve_triangular=solve_triangular,
                inv=lambda a, **k: wrap(arr.inverse(a)),
                det=lambda a, **k: wrap(arr.det(a)),
                norm=npshim.OVERRIDES["linalg.norm"])
