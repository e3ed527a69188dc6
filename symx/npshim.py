"""numpy seen by the code under test: real numpy plus symbolic overrides."""

import math
import types

import numpy as np

from . import arr, core
from .arr import SymArray, base, fix_index, has_sym, obj, symarray, wrap
from .core import Sym, SymBool, Unsupported, ite, lift

OVERRIDES = {}


def over(*names):
    def d(f):
        for n in names:
            OVERRIDES[n] = f
        return f

    return d


def dispatch(cls, func, args, kwargs):
    name = func.__name__
    mod = getattr(func, "__module__", "") or ""
    key = "linalg." + name if mod.startswith("numpy.linalg") else name
    f = OVERRIDES.get(key)
    if f is not None:
        return f(*args, **kwargs)
    if key.startswith("linalg."):
        raise Unsupported(f"numpy.linalg.{name}")

    # run numpy's own implementation on the object array
    def strip(x):
        if isinstance(x, (list, tuple)):
            return type(x)(strip(e) for e in x) if not hasattr(
                x, "_fields") else x
        if isinstance(x, SymArray):
            return base(x)
        return x

    if name in SAFE:
        kwargs = {k: strip(v) for k, v in kwargs.items() if k != "dtype"}
        r = func(*strip(tuple(args)), **kwargs)
        return wrap(r, cls)
    r = np.ndarray.__array_function__(
        args[0] if isinstance(args[0], SymArray) else symarray([0]),
        func, (cls,), args, kwargs,
    )
    return wrap(r, cls)


# purely structural functions: run on the base object arrays
SAFE = set(
    """concatenate stack vstack hstack dstack column_stack reshape ravel
    transpose swapaxes moveaxis rollaxis expand_dims squeeze broadcast_to
    broadcast_arrays repeat tile diagonal diag flip fliplr flipud roll rot90
    split array_split hsplit vsplit atleast_1d atleast_2d atleast_3d copy
    tril triu append delete insert trace ndim shape size meshgrid
    diagflat row_stack resize pad block fill_diagonal diag_indices_from
    array_repr array_str trim_zeros""".split()
)


def _ax(a, axis):
    return a


@over("mean")
def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if not isinstance(a, np.ndarray):
        a = symarray(a)
    s = np.add.reduce(np.asanyarray(a), axis=axis, keepdims=keepdims)
    if axis is None:
        n = a.size
    elif isinstance(axis, tuple):
        n = int(np.prod([a.shape[i] for i in axis]))
    else:
        n = a.shape[axis]
    return s / n


@over("average")
def average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return mean(a, axis)
    w = np.broadcast_to(obj(weights), a.shape) if np.ndim(weights) else weights
    if np.ndim(weights) == 1 and a.ndim > 1:
        shp = [1] * a.ndim
        shp[axis] = -1
        w = obj(weights).reshape(shp)
    w = symarray(w)
    return (a * w).sum(axis=axis) / symarray(
        np.broadcast_to(base(w), a.shape)).sum(axis=axis)


@over("var")
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = symarray(a) if not isinstance(a, SymArray) else a
    m = mean(a, axis=axis, keepdims=True) if axis is not None else mean(a)
    d = a - m
    s = (d * d).sum(axis=axis, keepdims=keepdims)
    n = a.size if axis is None else a.shape[axis]
    return s / (n - ddof)


@over("std")
def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return np.sqrt(var(a, axis=axis, ddof=ddof, keepdims=keepdims))


@over("median")
def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    b = obj(a)
    if axis is None:
        b = b.reshape(-1)
        axis = 0
    b = np.moveaxis(b, axis, -1)
    r = np.empty(b.shape[:-1], dtype=object)
    n = b.shape[-1]
    for i in np.ndindex(*b.shape[:-1]):
        s = net_sort(list(b[i]))
        r[i] = s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / lift(2)
    if keepdims:
        r = np.expand_dims(r, axis)
    return wrap(r)


def net_sort(xs):
    """Sorting with if-then-else terms (no forks)."""
    xs = [lift(x) for x in xs]
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            lo, hi = arr.e_min(xs[j], xs[j + 1]), arr.e_max(xs[j], xs[j + 1])
            xs[j], xs[j + 1] = lo, hi
    return xs


@over("sort")
def sort(a, axis=-1, kind=None, order=None):
    a = np.asanyarray(a)
    if axis is None:
        return sort(a.reshape(-1), 0)
    b = np.moveaxis(obj(a), axis, -1)
    r = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        r[i] = net_sort(list(b[i]))
    return wrap(np.moveaxis(r, -1, axis), type(a))


def _argsort1(xs):
    """Stable argsort by forking comparisons."""
    idx = []
    for i, x in enumerate(xs):
        j = len(idx)
        while j > 0 and bool(lift(x) < lift(xs[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return idx


@over("argsort")
def argsort(a, axis=-1, kind=None, order=None, **k):
    b = np.moveaxis(obj(a), axis, -1)
    r = np.empty(b.shape, dtype=np.int64)
    for i in np.ndindex(*b.shape[:-1]):
        r[i] = _argsort1(list(b[i]))
    return np.moveaxis(r, -1, axis)


@over("argpartition")
def argpartition(a, kth, axis=-1, **k):
    return argsort(a, axis)


def _arg(a, axis, better):
    b = obj(a)
    if axis is None:
        b = b.reshape(-1)
        axis = 0
    b = np.moveaxis(b, axis, -1)
    r = np.empty(b.shape[:-1], dtype=np.int64)
    if b.shape[-1] == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    for i in np.ndindex(*b.shape[:-1]):
        best = 0
        for j in range(1, b.shape[-1]):
            if bool(better(lift(b[i][j]), lift(b[i][best]))):
                best = j
        r[i] = best
    return r if r.ndim else np.int64(r[()])


@over("argmax")
def argmax(a, axis=None, out=None, keepdims=False, **k):
    r = _arg(a, axis, lambda x, y: x > y)
    return np.expand_dims(r, axis) if keepdims else r


@over("argmin")
def argmin(a, axis=None, out=None, keepdims=False, **k):
    r = _arg(a, axis, lambda x, y: x < y)
    return np.expand_dims(r, axis) if keepdims else r


@over("clip")
def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = a
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return r


@over("round", "around", "round_")
def round_(a, decimals=0, out=None):
    if decimals:
        raise Unsupported("round to decimals")
    return np.rint(a)


@over("where")
def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    if not has_sym(c):
        c_ = np.broadcast_arrays(np.asarray(c), obj(x), obj(y))
        r = np.empty(c_[0].shape, dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = c_[1][i] if c_[0][i] else c_[2][i]
    else:
        r = np.frompyfunc(ite, 3, 1)(obj(c), obj(x), obj(y))
    return wrap(np.asarray(r, dtype=object))


@over("choose")
def choose(a, choices, **k):
    if not has_sym(a):
        a_ = np.asarray(a)
        ch = np.broadcast_arrays(a_, *[obj(c) for c in choices])
        r = np.empty(ch[0].shape, dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = ch[1 + int(ch[0][i])][i]
        return wrap(r)
    ch = np.broadcast_arrays(obj(a), *[obj(c) for c in choices])
    r = np.empty(ch[0].shape, dtype=object)
    for i in np.ndindex(*r.shape):
        v = ch[-1][i]
        for j in range(len(choices) - 2, -1, -1):
            v = ite(lift(ch[0][i]) == j, ch[1 + j][i], v)
        r[i] = v
    return wrap(r)


@over("select")
def select(conds, choices, default=0):
    r = default
    for c, v in list(zip(conds, choices))[::-1]:
        r = where(c, v, r)
    return r


@over("nonzero", "flatnonzero", "argwhere")
def nonzero(a):
    return np.nonzero(arr.fork_mask(np.frompyfunc(core._b, 1, 1)(obj(a))))


@over("argwhere")
def argwhere(a):
    return np.argwhere(arr.fork_mask(np.frompyfunc(core._b, 1, 1)(obj(a))))


@over("flatnonzero")
def flatnonzero(a):
    return nonzero(np.ravel(a))[0]


@over("count_nonzero")
def count_nonzero(a, axis=None, **k):
    b = wrap(np.frompyfunc(lambda e: ite(core._b(e), 1, 0), 1, 1)(obj(a)))
    return np.sum(b, axis=axis)


@over("isclose")
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np.frompyfunc(lambda x, y: arr.e_isclose(x, y, rtol, atol), 2, 1)(
        obj(a), obj(b)
    )
    return wrap(np.asarray(r, dtype=object))


@over("allclose")
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return bool(np.all(r))


@over("array_equal")
def array_equal(a, b, **k):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return bool(core.band(*[lift(x) == lift(y) for x, y in zip(a.flat, b.flat)]))


@over("unique")
def unique(a, return_index=False, return_inverse=False, return_counts=False,
           axis=None, **k):
    if axis is not None:
        raise Unsupported("unique with axis")
    xs = list(obj(a).reshape(-1))
    order = _argsort1(xs)
    groups = []
    for i in order:
        if groups and bool(lift(xs[groups[-1][0]]) == lift(xs[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    vals = obj([xs[g[0]] for g in groups])
    out = [wrap(vals)]
    if return_index:
        out.append(np.array([min(g) for g in groups]))
    if return_inverse:
        inv = np.empty(len(xs), dtype=np.int64)
        for j, g in enumerate(groups):
            inv[g] = j
        out.append(inv)
    if return_counts:
        out.append(np.array([len(g) for g in groups]))
    return out[0] if len(out) == 1 else tuple(out)


@over("einsum")
def einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported("einsum interleaved format")
    spec = spec.replace(" ", "")
    ops = [obj(o) for o in ops]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins, out = spec, None
    ins = ins.split(",")
    # expand ellipses
    nell = 0
    letters = [c for c in
               "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
               if c not in spec]
    if "..." in spec:
        for s, o in zip(ins, ops):
            if "..." in s:
                nell = max(nell, o.ndim - (len(s) - 3))
        ell = "".join(letters[:nell])
        new = []
        for s, o in zip(ins, ops):
            if "..." in s:
                m = o.ndim - (len(s) - 3)
                s = s.replace("...", ell[nell - m:])
            new.append(s)
        ins = new
        if out is not None:
            out = out.replace("...", ell)
    if out is None:
        allc = "".join(ins)
        body = "".join(sorted(c for c in set(allc) if allc.count(c) == 1
                              and (nell == 0 or c not in ell)))
        out = (ell if nell else "") + body
    if len(ins) != len(ops):
        raise ValueError("einsum operand count")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string: wrong dimensions")
        for c, n in zip(s, o.shape):
            if dims.get(c, n) != n and 1 not in (dims[c], n):
                raise ValueError("operands could not be broadcast together")
            dims[c] = max(dims.get(c, 1), n) if n else 0
    if len(ops) == 1 and set(out) == set(ins[0]) and len(set(out)) == len(out):
        # a view of the operand, as numpy gives
        return wrap(np.einsum(f"{ins[0]}->{out}", ops[0]))
    summed = [c for c in dims if c not in out]
    r = np.empty([dims[c] for c in out], dtype=object)
    for i in np.ndindex(*r.shape):
        env = dict(zip(out, i))
        acc = {}
        for j in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, j))
            t = None
            for s, o in zip(ins, ops):
                e = lift(o[tuple(
                    env[c] if o.shape[x] != 1 else 0 for x, c in enumerate(s)
                )])
                t = e.p if t is None else core.pmul(t, e.p)
                if not t:
                    break
            if t:
                acc = core.padd(acc, t)
        r[i] = Sym(acc)
    return wrap(r)


@over("dot")
def dot(a, b, out=None):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return wrap(np.asarray(arr.pyufunc("multiply")(a, b), dtype=object))
    if b.ndim <= 2 or a.ndim == 1:
        if b.ndim > 2:
            raise Unsupported("dot of high-dimensional operands")
        if a.ndim <= 2:
            r = arr.matmul(a, b)
        else:
            r = arr.matmul(a, b)
        if not isinstance(r, np.ndarray):
            r = obj(r)
        return wrap(r)
    return tensordot(a, b, axes=([a.ndim - 1], [b.ndim - 2]))


@over("vdot")
def vdot(a, b):
    return dot(obj(a).reshape(-1), obj(b).reshape(-1))


@over("inner")
def inner(a, b):
    return tensordot(a, b, axes=([np.ndim(a) - 1], [np.ndim(b) - 1]))


@over("tensordot")
def tensordot(a, b, axes=2):
    a, b = obj(a), obj(b)
    if isinstance(axes, int):
        ax = list(range(a.ndim - axes, a.ndim))
        bx = list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    L = "abcdefghijklmnopqrstuvwxyz"
    sa = list(L[:a.ndim])
    sb = list(L[a.ndim:a.ndim + b.ndim])
    for x, y in zip(ax, bx):
        sb[y % b.ndim] = sa[x % a.ndim]
    con = {sa[x % a.ndim] for x in ax}
    out = [c for c in sa + sb if c not in con]
    return einsum("".join(sa) + "," + "".join(sb) + "->" + "".join(out), a, b)


@over("outer")
def outer(a, b, out=None):
    return np.multiply.outer(
        symarray(a).reshape(-1), symarray(b).reshape(-1)
    )


@over("kron")
def kron(a, b):
    a, b = obj(a), obj(b)
    k = max(a.ndim, b.ndim)
    a = a.reshape((1,) * (k - a.ndim) + a.shape)
    b = b.reshape((1,) * (k - b.ndim) + b.shape)
    r = arr.pyufunc("multiply").outer(a, b)
    r = r.transpose([x for q in range(k) for x in (q, k + q)])
    return wrap(r.reshape([p * q for p, q in zip(a.shape, b.shape)]))


@over("nansum")
def nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _sum(a, axis, keepdims=keepdims)


@over("nanmean")
def nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return mean(a, axis, keepdims=keepdims)


@over("linalg.matrix_power")
def matrix_power(a, n):
    if n < 1:
        raise Unsupported("matrix_power")
    r = obj(a)
    for _ in range(n - 1):
        r = arr.matmul(r, obj(a))
    return wrap(r)


@over("trapz")
def trapz(y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(symarray(obj(y)), axis, -1)
    if x is not None:
        dx = np.diff(symarray(obj(x)))
    return ((y[..., 1:] + y[..., :-1]) / 2 * dx).sum(-1)


@over("cumsum")
def cumsum(a, axis=None, dtype=None, out=None):
    b = obj(a)
    if axis is None:
        b = b.reshape(-1)
        axis = 0
    return wrap(arr.pyufunc("add").accumulate(b, axis=axis))


@over("diff")
def diff(a, n=1, axis=-1, **k):
    b = np.moveaxis(obj(a), axis, -1)
    for _ in range(n):
        b = obj(symarray(b[..., 1:]) - symarray(b[..., :-1]))
    return wrap(np.moveaxis(b, -1, axis))


@over("cov")
def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    x = symarray(m)
    if x.ndim == 1:
        x = x.reshape(1, -1)
    if not rowvar and x.shape[0] != 1:
        x = x.T
    if y is not None:
        raise Unsupported("cov with y")
    d = x - mean(x, axis=1, keepdims=True)
    dd = (0 if bias else 1) if ddof is None else ddof
    r = wrap(arr.matmul(d, base(d).T)) / (x.shape[1] - dd)
    return r.reshape(()) [()] if r.size == 1 else r


@over("corrcoef")
def corrcoef(x, y=None, rowvar=True, **k):
    c = cov(x, y, rowvar)
    if isinstance(c, Sym):
        return lift(1)
    d = np.sqrt(wrap(np.diagonal(base(c))))
    return c / np.multiply.outer(d, d)


@over("linalg.norm")
def norm(x, ord=None, axis=None, keepdims=False):
    x = symarray(x)
    if ord not in (None, 2, "fro"):
        if ord == 1 and (x.ndim == 1 or isinstance(axis, int)):
            return np.sum(np.abs(x), axis=axis, keepdims=keepdims)
        raise Unsupported("norm order")
    if ord == 2 and x.ndim != 1 and not isinstance(axis, int):
        raise Unsupported("spectral norm")
    return np.sqrt(np.sum(x * x, axis=axis, keepdims=keepdims))


@over("linalg.solve")
def solve(a, b):
    a, b = obj(a), obj(b)
    return wrap(arr.solve_vec(a, b, b.ndim == a.ndim - 1))


@over("linalg.inv", "linalg.pinv")
def inv(a, **k):
    return wrap(arr.inverse(a))


@over("linalg.det")
def det(a):
    return wrap(arr.det(a))


@over("linalg.slogdet")
def slogdet(a):
    s, l = arr.slogdet(a)
    res = np.linalg.linalg.SlogdetResult if hasattr(
        np.linalg.linalg, "SlogdetResult") else tuple
    s, l = wrap(np.asarray(s, dtype=object)), wrap(np.asarray(l, dtype=object))
    return res(s, l) if res is not tuple else (s, l)


@over("linalg.cholesky")
def cholesky(a):
    return wrap(arr.cholesky(a))


@over("linalg.lstsq")
def lstsq(a, b, rcond=None):
    a_ = obj(a)
    if a_.shape[-1] != a_.shape[-2]:
        raise Unsupported("least squares")
    return solve(a, b), None, None, None


@over("linalg.multi_dot")
def multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = dot(r, x)
    return r


@over("take_along_axis")
def take_along_axis(a, idx, axis):
    return wrap(np.take_along_axis(obj(a), fix_index(np.asanyarray(idx)), axis))


@over("take")
def take(a, idx, axis=None, **k):
    return wrap(obj(a).take(fix_index(idx), axis=axis))


@over("isin", "in1d")
def isin(a, b, **k):
    if not has_sym(a) and not has_sym(b):
        return np.isin(base(a), base(b), **k)
    bs = list(obj(b).reshape(-1))
    f = np.frompyfunc(lambda x: core.bor(*[lift(x) == lift(y) for y in bs]), 1, 1)
    r = f(obj(a))
    if k.get("invert"):
        r = np.frompyfunc(core.bnot, 1, 1)(r)
    return wrap(np.asarray(r, dtype=object))


@over("zeros_like")
def zeros_like(a, dtype=None, *r, shape=None, **k):
    return _full(shape if shape is not None else np.shape(a), 0, dtype)


@over("ones_like")
def ones_like(a, dtype=None, *r, shape=None, **k):
    return _full(shape if shape is not None else np.shape(a), 1, dtype)


@over("empty_like")
def empty_like(a, dtype=None, *r, shape=None, **k):
    return _full(shape if shape is not None else np.shape(a), 0, dtype)


@over("full_like")
def full_like(a, v, dtype=None, *r, shape=None, **k):
    return _full(shape if shape is not None else np.shape(a), v, dtype)


@over("copyto")
def copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        dst[...] = globals()["where"](where, src, dst)


@over("result_type", "can_cast", "iscomplexobj", "isrealobj")
def _rt(*a, **k):
    return np.dtype(float)


@over("nan_to_num", "real", "real_if_close")
def _same(a, *x, **k):
    return a


@over("may_share_memory", "shares_memory")
def _mem(a, b, *x):
    return np.may_share_memory(base(a), base(b))


@over("max", "amax")
def _amax(a, axis=None, out=None, keepdims=False, **k):
    return np.maximum.reduce(np.asanyarray(a), axis=axis, keepdims=keepdims, **k)


@over("min", "amin")
def _amin(a, axis=None, out=None, keepdims=False, **k):
    return np.minimum.reduce(np.asanyarray(a), axis=axis, keepdims=keepdims, **k)


@over("sum")
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return np.add.reduce(np.asanyarray(a), axis=axis, keepdims=keepdims, **k)


@over("prod", "product")
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return np.multiply.reduce(np.asanyarray(a), axis=axis, keepdims=keepdims, **k)


# -- constructors (never dispatch on their own) -----------------------------

_ISINT = "iub"


def _isintdtype(dtype):
    if dtype is None:
        return False
    if dtype is object:
        return False
    try:
        return np.dtype(dtype).kind in _ISINT
    except TypeError:
        return False


def _full(shape, v, dtype=None):
    if dtype is not None and dtype is not object:
        kind = np.dtype(dtype).kind
        if kind in _ISINT and not has_sym(v):
            return np.full(fixshape(shape), v, dtype=dtype)
        if kind in "SU":
            return np.full(fixshape(shape), v, dtype=dtype)
    if isinstance(v, np.ndarray):
        r = np.empty(fixshape(shape), dtype=object)
        r[...] = obj(v)
        return np.ndarray.view(r, SymArray)
    r = np.empty(fixshape(shape), dtype=object)
    if isinstance(v, float) and not math.isfinite(v):
        r[...] = v
    elif isinstance(v, (bool, np.bool_, SymBool)) and (
        dtype is None or dtype is bool
    ):
        r[...] = v
        return wrap(r)
    else:
        r[...] = lift(v)
    return np.ndarray.view(r, SymArray)


def fixshape(s):
    if isinstance(s, (Sym, int, np.integer)):
        return int(s)
    return tuple(int(x) for x in s)


def zeros(shape, dtype=None, order="C", **k):
    return _full(shape, 0, dtype)


def ones(shape, dtype=None, order="C", **k):
    return _full(shape, 1, dtype)


def empty(shape, dtype=None, order="C", **k):
    return _full(shape, 0, dtype)


def full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is None and isinstance(fill_value, (int, np.integer)) and not (
        isinstance(fill_value, bool)
    ):
        return np.full(fixshape(shape), fill_value)
    return _full(shape, fill_value, dtype)


def eye(N, M=None, k=0, dtype=None, **kw):
    e = np.eye(int(N), None if M is None else int(M), k,
               dtype=dtype if _isintdtype(dtype) else float)
    return e if _isintdtype(dtype) else symarray(e)


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, (Sym, SymBool)):
        r = obj(x)
        return np.ndarray.view(r, SymArray) if not ndmin else np.ndarray.view(
            r.reshape((1,) * ndmin), SymArray)
    if has_sym(x) or _deep_sym(x):
        r = symarray(_flat(x))
        if _isintdtype(dtype):
            return r.astype(dtype)
        if ndmin > r.ndim:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r
    a = np.array(_flat(x), dtype=None if dtype is object else dtype, ndmin=ndmin)
    if a.dtype.kind == "f":
        return symarray(a) if a.ndim else np.ndarray.view(
            symarray(a), SymArray)
    return plain(a)


def _flat(x):
    if isinstance(x, (list, tuple)):
        return [_flat(e) for e in x]
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, types.GeneratorType):
        return x
    return x


def _deep_sym(x):
    return isinstance(x, (list, tuple)) and any(
        has_sym(e) or _deep_sym(e) for e in x
    )


def asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and not _isintdtype(dtype):
        return x
    if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind in _ISINT:
        if dtype is None:
            return x
        if _isintdtype(dtype):
            return np.asarray(x, dtype=dtype)
    return array(x, dtype=dtype)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
             axis=0, **k):
    num = int(num)
    d = num - 1 if endpoint else num
    start, stop = lift(start), lift(stop)
    xs = [start + (stop - start) * lift(i) / lift(max(d, 1)) for i in range(num)]
    return symarray(xs)


def arange(*a, dtype=None, **k):
    a = [int(x) if isinstance(x, Sym) else x for x in a]
    r = np.arange(*a, dtype=dtype, **k)
    return symarray(r) if r.dtype.kind == "f" else plain(r)


def plain(r):
    """Concrete numbers that can be indexed with symbolic masks."""
    return np.ndarray.view(r, SymArray) if r.dtype.kind in "iu" and r.ndim \
        else r


def fromiter(it, dtype=None, count=-1, **k):
    return array(list(it), dtype=dtype)


def diag(v, k=0):
    if has_sym(v):
        b = obj(v)
        if b.ndim == 1:
            n = len(b) + abs(k)
            r = np.full((n, n), lift(0), dtype=object)
            for i, e in enumerate(b):
                r[i + max(-k, 0), i + max(k, 0)] = e
            return np.ndarray.view(r, SymArray)
        return wrap(np.diag(b, k))
    return np.diag(v, k)


def _scalar_or(name):
    """A ufunc that also accepts bare symbolic scalars."""
    real = getattr(np, name)
    return real


class UfuncProxy:
    """A ufunc accepting symbolic scalars as well as arrays."""

    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        n = self._u.nin
        ins, rest = list(a[:n]), a[n:]
        if has_sym(ins) or _deep_sym(ins):
            ins = [
                obj(x).view(SymArray)
                if isinstance(x, (Sym, SymBool, list, tuple)) else x
                for x in ins
            ]
            if rest:
                k["out"] = rest[0]
            k.pop("dtype", None)
            return self._u(*ins, **k)
        if self._u.__name__ in ("sqrt", "exp", "log") and all(
            isinstance(x, (int, float, np.number)) for x in ins
        ) and not rest and not k:
            return self._u(*ins)
        return self._u(*a, **k)

    def outer(self, a, b, **k):
        a, b = (
            obj(x).view(SymArray) if has_sym(x) else x for x in (a, b)
        )
        return self._u.outer(a, b, **k)

    def reduce(self, a, *x, **k):
        if has_sym(a):
            a = obj(a).view(SymArray)
        return self._u.reduce(a, *x, **k)

    def __getattr__(self, n):
        return getattr(self._u, n)


def choice(*a, **k):
    return arr.ENV["random.choice"](*a, **k)


class Proxy(types.ModuleType):
    """Module proxy: overrides first, the real module otherwise."""

    def __init__(self, name, real, table):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_table"] = table
        self.__dict__["__path__"] = getattr(real, "__path__", [])
        self.__dict__["__file__"] = getattr(real, "__file__", None)

    def __getattr__(self, n):
        t = self.__dict__["_table"]
        if n in t:
            return t[n]
        v = getattr(self.__dict__["_real"], n)
        if isinstance(v, np.ufunc):
            v = UfuncProxy(v)
        t[n] = v
        return v

    def __dir__(self):
        return dir(self.__dict__["_real"])


def _kind(a, r):
    """numpy functions of a tensor give tensors."""
    if a and isinstance(r, np.ndarray) and hasattr(a[0], "requires_grad"):
        from . import torchshim

        return torchshim.tt(r)
    return r


def _entry(name):
    """Override accepting lists/scalars that hold symbolic values."""
    f = OVERRIDES[name]
    mod, _, short = name.rpartition(".")
    real = getattr(np.linalg if mod else np, short)

    def call(*a, **k):
        if any(has_sym(x) or _deep_sym(x) for x in a) or any(
            has_sym(x) for x in k.values()
        ):
            return _kind(a, f(*a, **k))
        return real(*a, **k)

    call.__name__ = short
    return call


def _structural(name):
    real = getattr(np, name)

    def call(*a, **k):
        if any(has_sym(x) or _deep_sym(x) for x in a):
            a = tuple(
                obj(x) if isinstance(x, (Sym, SymBool)) else x for x in a
            )
            r = real(*arr_strip(a), **{
                q: v for q, v in k.items() if q != "dtype"})
            return _kind(a, wrap(r))
        return real(*a, **k)

    call.__name__ = name
    return call


def arr_strip(x):
    if isinstance(x, (list, tuple)):
        return type(x)(arr_strip(e) for e in x)
    if isinstance(x, SymArray):
        return base(x)
    return x


def stub(name):
    def call(*a, **k):
        f = arr.ENV.get(name)
        if f is None:
            raise Unsupported(f"environment call {name} without a stub")
        return f(*a, **k)

    call.__name__ = name
    return call


def make_numpy():
    """Build the numpy proxy."""
    lin = {
        n.split(".")[1]: _entry(n) for n in OVERRIDES if n.startswith("linalg.")
    }
    linp = Proxy("numpy.linalg", np.linalg, lin)
    rnd = {
        n: stub("random." + n)
        for n in (
            "choice normal uniform randn rand randint random permutation "
            "shuffle multivariate_normal standard_normal default_rng "
            "RandomState"
        ).split()
    }
    rnd["seed"] = lambda *a: None
    rndp = Proxy("numpy.random", np.random, rnd)
    t = {}
    for n in OVERRIDES:
        if "." not in n and hasattr(np, n):
            t[n] = _entry(n)
    for n in SAFE:
        if hasattr(np, n):
            t[n] = _structural(n)
    t.update(
        zeros=zeros, ones=ones, empty=empty, full=full, eye=eye,
        identity=identity, array=array, asarray=asarray,
        asanyarray=asarray, ascontiguousarray=asarray, linspace=linspace,
        arange=arange, fromiter=fromiter, diag=diag, linalg=linp, random=rndp,
        zeros_like=_like(zeros_like), ones_like=_like(ones_like),
        empty_like=_like(empty_like), full_like=full_like,
        all=_red("logical_and"), any=_red("logical_or"),
        vectorize=vectorize,
        finfo=lambda t=float: np.finfo(_dt(t)),
        iinfo=lambda t=int: np.iinfo(_dt(t)),
    )
    return Proxy("numpy", np, t)


def vectorize(f, otypes=None, **k):
    def call(*a):
        if not any(has_sym(x) for x in a):
            return np.vectorize(f, otypes=otypes, **k)(*a)
        return wrap(np.asarray(np.frompyfunc(f, len(a), 1)(
            *[obj(x) for x in a]), dtype=object))

    return call


def _dt(t):
    return getattr(t, "_base", t)


def _like(f):
    def call(a, dtype=None, *r, **k):
        if dtype is None and isinstance(a, np.ndarray) and a.dtype.kind in "iub":
            dtype = a.dtype
        return f(a, dtype, *r, **k)

    return call


def _red(name):
    u = getattr(np, name)

    def call(a, axis=None, out=None, keepdims=False, **k):
        if not isinstance(a, np.ndarray):
            a = array(a)
        if a.dtype != object:
            f = np.all if name == "logical_and" else np.any
            return f(base(a), axis=axis, keepdims=keepdims)
        return u.reduce(a if isinstance(a, SymArray) else symarray(a),
                        axis=axis, keepdims=keepdims)

    return call
