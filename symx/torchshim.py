"""A torch stand-in over symbolic arrays (the functions the package uses)."""

import collections
import math
import types

import numpy as np

from . import arr, core, npshim
from .arr import SymArray, base, fix_index, has_sym, obj, symarray
from .core import Sym, SymBool, Unsupported, lift

NP = None


class Size(tuple):
    def numel(self):
        return int(np.prod(self, dtype=np.int64)) if len(self) else 1

    def __getitem__(self, k):
        r = tuple.__getitem__(self, _ix(k))
        return Size(r) if isinstance(k, slice) else r

    def __add__(self, o):
        return Size(tuple.__add__(self, tuple(o)))

    def __radd__(self, o):
        return Size(tuple(o) + tuple(self))


class Track:
    """Automatic differentiation's view of the functions called: values taken
    out of the graph (detached, converted to Python or computed without
    gradients) are constants to it, so each becomes an unknown of its own,
    ``cut(value)``; ``root`` sees the arguments of square roots, whose
    gradients are not finite at zero."""

    def __init__(self, cut, root):
        self.cut, self.root, self.off = cut, root, 0

    def __enter__(self):
        global TRACK
        TRACK = self

    def __exit__(self, *a):
        global TRACK
        TRACK = None
        return False


TRACK = None


def _cut(x):
    """x (an array or scalar) as a constant of the graph."""
    if TRACK is None:
        return x
    if isinstance(x, Sym):
        return x if x.const() is not None else TRACK.cut(x)
    b = base(x)
    if b.dtype != object or not any(
            isinstance(e, Sym) and e.const() is None for e in b.flat):
        return x
    r = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape):
        e = b[i]
        r[i] = TRACK.cut(e) if isinstance(e, Sym) and e.const() is None else e
    return np.ndarray.view(r, SymTensor)


def _root(x):
    if TRACK is not None and isinstance(x, SymTensor):
        b = base(x)
        if b.dtype == object and any(
                isinstance(e, Sym) and e.const() is None for e in b.flat):
            for e in b.flat:
                TRACK.root(e)


def _ix(k):
    if isinstance(k, slice):
        f = lambda v: v if v is None else int(v)
        return slice(f(k.start), f(k.stop), f(k.step))
    return int(k)


Pair = collections.namedtuple("Pair", ["values", "indices"])
SlogDet = collections.namedtuple("SlogDet", ["sign", "logabsdet"])


def _int(x):
    return int(x) if not isinstance(x, Sym) else x.__index__()


class SymTensor(SymArray):
    __array_priority__ = 200

    @classmethod
    def _num(cls, x):
        x = np.ndarray.view(np.asarray(x), np.ndarray)
        if x.dtype.kind == "f":
            return tt(symarray(x))
        return np.ndarray.view(x, SymTensor)

    @classmethod
    def _scalar(cls, x):
        return tt(x)

    @property
    def shape(self):
        return Size(np.ndarray.shape.__get__(self))

    def __array_finalize__(self, o):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if not any(has_sym(x) for x in inputs) and not any(
            isinstance(x, float) for x in inputs
        ) and ufunc.__name__ in _INTOPS:
            r = getattr(ufunc, method)(*[base(x) for x in inputs], **kw)
            r = np.asarray(r)
            if out:
                base(out[0])[...] = r
                return out[0]
            return tt(r)
        r = arr.apply_ufunc(SymTensor, ufunc, method, inputs, out, kw)
        return tt(r)

    def __array_function__(self, func, types, args, kwargs):
        r = npshim.dispatch(SymArray, func, _arg(args),
                            {k: _arg(v) for k, v in kwargs.items()})
        return tt(r)

    def __index__(self):
        if self.size != 1:
            raise TypeError("only integer tensors of a single element can be "
                            "converted to an index")
        e = base(self).reshape(-1)[0]
        return e.__index__()

    def __getitem__(self, k):
        r = base(self)[fix_index(k)]
        return tt(r)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        return iter([self[i] for i in range(len(self))])

    def __hash__(self):
        return id(self)

    # -- torch methods ---------------------------------------------------
    def numel(self):
        return self.size

    def dim(self):
        return self.ndim

    def clone(self):
        return tt(base(self).copy())

    def detach(self):
        return _cut(self)

    @property
    def data(self):
        return _cut(self)

    @data.setter
    def data(self, v):
        base(self)[...] = obj(v) if base(self).dtype == object else base(v)

    def tolist(self):
        return base(_cut(self)).tolist()

    def __pow__(self, o):
        if isinstance(o, float) and o != int(o):
            _root(self)
        return np.ndarray.__pow__(self, o)

    def data_ptr(self):
        return base(self).ctypes.data

    def cpu(self):
        return self

    def contiguous(self):
        return self

    def requires_grad_(self, *a):
        return self

    requires_grad = False
    grad = None
    device = "cpu"

    def numpy(self):
        b = base(self)
        return np.ndarray.view(b, SymArray) if b.dtype == object else b

    def item(self):
        if self.size != 1:
            raise RuntimeError("a Tensor with several elements cannot be "
                               "converted to Scalar")
        return _cut(base(self).reshape(-1)[0])

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        return tt(base(self).reshape(tuple(_int(s) for s in shape)))

    view = reshape

    def flatten(self, start_dim=0, end_dim=-1):
        s = np.ndarray.shape.__get__(self)
        e = end_dim % max(len(s), 1)
        new = s[:start_dim] + (int(np.prod(s[start_dim:e + 1])),) + s[e + 1:]
        return tt(base(self).reshape(new).copy())

    def ravel(self):
        return self.flatten()

    def repeat(self, *reps):
        if len(reps) == 1 and isinstance(reps[0], (tuple, list)):
            reps = reps[0]
        return tt(np.tile(base(self), tuple(_int(r) for r in reps)))

    def tile(self, *reps):
        return self.repeat(*reps)

    def repeat_interleave(self, n, dim=None):
        return tt(np.repeat(base(self), _int(n), axis=dim))

    def squeeze(self, dim=None):
        return squeeze(self, dim)

    def unsqueeze(self, dim):
        return unsqueeze(self, dim)

    def swapaxes(self, a, b):
        return tt(base(self).swapaxes(a, b))

    swapdims = swapaxes

    def transpose(self, a, b):
        return tt(base(self).swapaxes(a, b))

    def permute(self, *d):
        if len(d) == 1 and isinstance(d[0], (tuple, list)):
            d = d[0]
        return tt(base(self).transpose(d))

    def movedim(self, a, b):
        return tt(np.moveaxis(base(self), a, b))

    def t(self):
        return tt(base(self).T)

    @property
    def T(self):
        return tt(base(self).T)

    @property
    def mT(self):
        return tt(base(self).swapaxes(-1, -2))

    def expand(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = s[0]
        own = (1,) * (len(s) - self.ndim) + tuple(self.shape)
        return tt(np.broadcast_to(
            base(self), tuple(o if n == -1 else n for n, o in zip(s, own))))

    def softmax(self, dim=None):
        return softmax(self, dim)

    def log_softmax(self, dim=None):
        return log_softmax(self, dim)

    def logsumexp(self, dim, keepdim=False):
        return logsumexp(self, dim, keepdim)

    def sigmoid(self):
        return sigmoid(self)

    def diagonal(self, offset=0, dim1=0, dim2=1):
        return writable_diagonal(self, offset, dim1, dim2)

    def size_(self, dim=None):
        return self.shape if dim is None else self.shape[dim]

    def to(self, *a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, np.dtype) or isinstance(x, type):
                return astype(self, x)
        return self

    def type(self, dt=None):
        return self if dt is None else astype(self, dt)

    def astype(self, *a, **k):
        raise AttributeError("'Tensor' object has no attribute 'astype'")

    def double(self):
        return astype(self, np.float64)

    def float(self):
        return astype(self, np.float64)

    def long(self):
        return astype(self, np.int64)

    int = long

    def bool(self):
        return astype(self, bool)

    def copy_(self, o):
        base(self)[...] = obj(o) if base(self).dtype == object else base(o)
        return self

    def fill_(self, v):
        self[...] = v
        return self

    def masked_fill(self, m, v):
        return where(m, tensor(v), self)

    def backward(self, *a, **k):
        raise Unsupported("backward")

    def copy(self, *a, **k):
        raise AttributeError("'Tensor' object has no attribute 'copy'")

    def __deepcopy__(self, memo):
        return tt(base(self).copy())

    def __bool__(self):
        if self.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one "
                               "value is ambiguous")
        return bool(base(self).reshape(-1)[0])


for _n in ("sum prod mean max min all any argmax argmin std var abs sqrt exp "
           "log pow norm cumsum eq ne lt le gt ge add sub mul div matmul "
           "argsort sort clamp clip round floor ceil isclose allclose "
           "count_nonzero median topk mm bmm dot square").split():

    def _m(self, *a, _n=_n, **k):
        return globals()["F"][_n](self, *a, **k)

    _m.__name__ = _n
    setattr(SymTensor, _n, _m)

_INTOPS = set(
    "add subtract multiply negative remainder floor_divide maximum minimum "
    "equal not_equal less less_equal greater greater_equal logical_and "
    "logical_or logical_not bitwise_and bitwise_or invert absolute".split())


def tt(x):
    if TRACK is not None and TRACK.off and isinstance(x, np.ndarray) and (
            x.base is None):
        off, TRACK.off = TRACK.off, 0
        try:
            return _cut(tt(x))
        finally:
            TRACK.off = off
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(tt(e) for e in x)
    if isinstance(x, list):
        return [tt(e) for e in x]
    if isinstance(x, np.ndarray):
        b = base(x)
        if b.dtype.kind == "f":
            b = base(symarray(b))
        elif b.dtype == object and b.size and all(
            isinstance(e, (bool, np.bool_)) for e in b.flat
        ):
            b = b.astype(bool)
        return np.ndarray.view(b, SymTensor)
    if isinstance(x, (bool, np.bool_)):
        return np.ndarray.view(np.array(bool(x)), SymTensor)
    if isinstance(x, (int, np.integer)):
        return np.ndarray.view(np.array(int(x)), SymTensor)
    if isinstance(x, (Sym, SymBool, float, np.floating)):
        a = np.empty((), dtype=object)
        a[()] = x if isinstance(x, (Sym, SymBool)) or not math.isfinite(
            x) else lift(float(x))
        return np.ndarray.view(a, SymTensor)
    return x


def _arg(x):
    """Arguments for the numpy implementations."""
    if isinstance(x, SymTensor):
        b = base(x)
        return np.ndarray.view(b, SymArray) if b.dtype == object else b
    if isinstance(x, (list, tuple)) and not isinstance(x, Size):
        return type(x)(_arg(e) for e in x) if not hasattr(x, "_fields") else x
    if isinstance(x, Size):
        return tuple(x)
    return x


def _need(*xs):
    for x in xs:
        if not isinstance(x, SymTensor):
            raise TypeError(
                f"argument must be Tensor, not {type(x).__name__}")


def astype(x, dt):
    b = base(x)
    kind = np.dtype(dt).kind
    if kind == "f":
        return tt(symarray(b))
    if b.dtype != object:
        return tt(b.astype(dt))
    return tt(np.ndarray.view(b, SymArray).astype(dt))


def tensor(x, dtype=None, device=None, requires_grad=False, **k):
    if isinstance(x, SymTensor):
        r = x.clone()
    elif isinstance(x, (Sym, SymBool, bool, int, float, np.generic)):
        r = tt(x)
    elif isinstance(x, np.ndarray):
        r = tt(base(x).copy())
    else:
        r = tt(npshim.array(_arg(_nest(x))))
        if r.dtype != object and r.size == 0:
            r = tt(symarray(np.asarray(base(r), dtype=float)))
    r = _cut(r)
    return r if dtype is None else astype(r, dtype)


def _nest(x):
    if isinstance(x, (list, tuple)):
        return [_nest(e) for e in x]
    if isinstance(x, SymTensor) and x.ndim == 0:
        return base(x)[()]
    return x


def as_tensor(x, dtype=None, **k):
    if isinstance(x, SymTensor) and dtype is None:
        return x
    return tensor(x, dtype=dtype)


def from_numpy(x):
    if not isinstance(x, np.ndarray) or isinstance(x, SymTensor):
        raise TypeError(f"expected np.ndarray (got {type(x).__name__})")
    return tt(x)


def _np(name, *a, **k):
    f = NP
    for p in name.split("."):
        f = getattr(f, p)
    return tt(f(*[_arg(x) for x in a], **{q: _arg(v) for q, v in k.items()}))


def _axis(dim, axis):
    d = axis if dim is None else dim
    return tuple(d) if isinstance(d, list) else d


def _red(name):
    def f(x, dim=None, keepdim=False, *, axis=None, dtype=None, keepdims=None):
        _need(x)
        if keepdims is not None:
            keepdim = keepdims
        return _np(name, x, axis=_axis(dim, axis), keepdims=keepdim)

    f.__name__ = name
    return f


sum_ = _red("sum")
prod = _red("prod")
mean = _red("mean")
all_ = _red("all")
any_ = _red("any")


def var(x, dim=None, unbiased=True, keepdim=False, *, correction=None,
        axis=None):
    _need(x)
    dd = (1 if unbiased else 0) if correction is None else correction
    return _np("var", x, axis=_axis(dim, axis), ddof=dd, keepdims=keepdim)


def std(x, *a, **k):
    return sqrt(var(x, *a, **k))


def _ext(name):
    def f(x, dim=None, keepdim=False, *, axis=None):
        _need(x)
        if isinstance(dim, SymTensor):
            return _np("maximum" if name == "max" else "minimum", x, dim)
        d = _axis(dim, axis)
        if d is None:
            return _np(name, x)
        return Pair(_np(name, x, axis=d, keepdims=keepdim),
                    _np("arg" + name, x, axis=d, keepdims=keepdim))

    return f


max_, min_ = _ext("max"), _ext("min")


def argmax(x, dim=None, keepdim=False, *, axis=None):
    _need(x)
    return _np("argmax", x, axis=_axis(dim, axis), keepdims=keepdim)


def argmin(x, dim=None, keepdim=False, *, axis=None):
    _need(x)
    return _np("argmin", x, axis=_axis(dim, axis), keepdims=keepdim)


def median(x, dim=None, keepdim=False):
    _need(x)
    if dim is not None:
        raise Unsupported("torch.median with dim")
    s = npshim.net_sort(list(obj(x).reshape(-1)))
    return tt(s[(len(s) - 1) // 2])


def un(name):
    def f(x, *, out=None):
        _need(x)
        r = _np(name, x)
        return r

    f.__name__ = name
    return f


def sqrt(x, *, out=None):
    _need(x)
    _root(x)
    return _np("sqrt", x)


def binop(name):
    def f(a, b, *, alpha=1, rounding_mode=None, out=None):
        if not isinstance(a, SymTensor):
            _need(b)
            if name in ("divide", "matmul"):
                _need(a)
        if name == "divide" and rounding_mode:
            raise Unsupported("rounding_mode")
        if alpha != 1:
            b = b * alpha
        return _np(name, a, b)

    f.__name__ = name
    return f


def matmul(a, b):
    _need(a, b)
    return _np("matmul", a, b)


def squeeze(x, dim=None):
    _need(x)
    b = base(x)
    if dim is None:
        return tt(b.squeeze())
    dims = dim if isinstance(dim, (tuple, list)) else (dim,)
    dims = tuple(d % max(b.ndim, 1) for d in dims)
    return tt(b.reshape(tuple(
        n for i, n in enumerate(b.shape) if not (i in dims and n == 1))))


def unsqueeze(x, dim):
    _need(x)
    return tt(np.expand_dims(base(x), dim))


def cat(xs, dim=0, *, axis=None):
    _need(*xs)
    d = dim if axis is None else axis
    if any(has_sym(x) for x in xs):
        xs = [symarray(x) for x in xs]
    return tt(np.concatenate([base(x) for x in xs], axis=d))


def stack(xs, dim=0, *, axis=None):
    _need(*xs)
    d = dim if axis is None else axis
    if any(has_sym(x) for x in xs):
        xs = [symarray(x) for x in xs]
    return tt(np.stack([base(x) for x in xs], axis=d))


def hstack(xs):
    _need(*xs)
    return tt(np.hstack([obj(x) if any(map(has_sym, xs)) else base(x)
                         for x in xs]))


def vstack(xs):
    _need(*xs)
    return tt(np.vstack([obj(x) if any(map(has_sym, xs)) else base(x)
                         for x in xs]))


def _atleast(n):
    def f(*xs):
        if len(xs) == 1 and isinstance(xs[0], SymTensor):
            return tt(getattr(np, f"atleast_{n}d")(base(xs[0])))
        if len(xs) == 1 and not isinstance(xs[0], (list, tuple)):
            raise TypeError(f"atleast_{n}d(): argument must be Tensor or tuple "
                            f"of Tensors, not {type(xs[0]).__name__}")
        return tuple(f(x) for x in (xs[0] if len(xs) == 1 else xs))

    return f


def reshape(x, shape):
    _need(x)
    return x.reshape(shape)


def where(c, *xy):
    if not xy:
        return tuple(tt(i) for i in NP.nonzero(_arg(c)))
    _need(c)
    return _np("where", c, *xy)


def norm(x, p="fro", dim=None, keepdim=False, *, axis=None, ord=None):
    _need(x)
    o = p if ord is None else ord
    d = _axis(dim, axis)
    if isinstance(d, tuple) and len(d) == 1:
        d = d[0]
    return _np("linalg.norm", x if d is not None else x.flatten(),
               None if o in ("fro", 2, 2.0, None) else o, axis=d,
               keepdims=keepdim)


def tl_norm(x, ord=None, dim=None, keepdim=False):
    return norm(x, "fro" if ord is None else ord, dim, keepdim)


def solve(A, B, *, left=True):
    _need(A, B)
    vec = B.ndim == 1 or (
        A.ndim - 1 == B.ndim and tuple(B.shape) == tuple(A.shape[:-1]))
    r = arr.solve_vec(_arg(A), _arg(B), vec)
    return tt(np.asarray(r))


def slogdet(A):
    _need(A)
    s, l = arr.slogdet(_arg(A))
    return SlogDet(tt(np.asarray(s, dtype=object)),
                   tt(np.asarray(l, dtype=object)))


def softmax(x, dim=None, **k):
    _need(x)
    e = _np("exp", x)
    return e / sum_(e, dim, True)


def logsumexp(x, dim, keepdim=False, **k):
    _need(x)
    return _np("log", sum_(_np("exp", x), dim, keepdim))


def log_softmax(x, dim=None, **k):
    _need(x)
    return x - logsumexp(x, dim, True)


def sigmoid(x):
    _need(x)
    return 1 / (1 + _np("exp", -x))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    _need(a, b)
    return _np("isclose", a, b, rtol, atol)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    _need(a, b)
    return bool(NP.allclose(_arg(a), _arg(b), rtol, atol))


def equal(a, b):
    _need(a, b)
    return bool(NP.array_equal(_arg(a), _arg(b)))


def count_nonzero(x, dim=None):
    _need(x)
    b = base(x)
    if b.dtype != object:
        return tt(np.asarray(np.count_nonzero(b, axis=dim)))
    return _np("count_nonzero", x, axis=dim)


def tile(x, dims):
    _need(x)
    return tt(np.tile(base(x), dims))


def repeat_interleave(x, n, dim=None):
    _need(x)
    return tt(np.repeat(base(x), base(n) if isinstance(n, np.ndarray)
                        else _int(n), axis=dim))


def unique(x, sorted=True, return_inverse=False, return_counts=False,
           dim=None):
    _need(x)
    return tt(NP.unique(_arg(x), return_inverse=return_inverse,
                        return_counts=return_counts))


def einsum(spec, *ops):
    _need(*ops)
    return tt(npshim.einsum(spec, *[_arg(o) for o in ops]))


def diag(x, diagonal=0):
    _need(x)
    return tt(npshim.diag(_arg(x), diagonal))


def diagonal(x, offset=0, dim1=0, dim2=1, dtype=None):
    _need(x)
    return tt(np.diagonal(base(x), offset, dim1, dim2))


def sort(x, dim=-1, descending=False, **k):
    i = argsort(x, dim, descending)
    return Pair(tt(np.take_along_axis(base(x), base(i), dim)), i)


def argsort(x, dim=-1, descending=False, **k):
    _need(x)
    return _np("argsort", -x if descending else x, axis=dim)


def clamp(x, min=None, max=None):
    _need(x)
    return _np("clip", x, min, max)


def _ctor(f):
    def g(*shape, dtype=None, device=None, requires_grad=False):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        return tt(f(tuple(_int(s) for s in shape), dtype=dtype))

    return g


def full(size, fill_value, dtype=None, **k):
    if isinstance(fill_value, SymTensor):
        fill_value = base(fill_value).reshape(-1)[0]
    return tt(npshim.full(tuple(size) if not isinstance(size, int) else
                          (size,), fill_value, dtype=dtype))


def eye(n, m=None, dtype=None, **k):
    return tt(npshim.eye(_int(n), m, dtype=dtype))


def arange(*a, dtype=None, **k):
    a = [_int(x) if isinstance(x, SymTensor) else x for x in a]
    r = npshim.arange(*a)
    r = tt(r)
    return r if dtype is None else astype(r, dtype)


def linspace(a, b, steps, dtype=None, **k):
    return tt(npshim.linspace(a, b, steps))


def like(f):
    def g(x, dtype=None, **k):
        _need(x)
        return tt(f(_arg(x), dtype))

    return g


def cov(x, *, correction=1, **k):
    _need(x)
    return _np("cov", x, ddof=correction)


def corrcoef(x):
    _need(x)
    return _np("corrcoef", x)


def outer(a, b):
    _need(a, b)
    return _np("outer", a, b)


def topk(x, k, dim=-1, largest=True, sorted=True):
    v, i = sort(x, dim, descending=largest)
    sl = [slice(None)] * x.ndim
    sl[dim] = slice(0, k)
    return Pair(v[tuple(sl)], i[tuple(sl)])


def tpow(x, p):
    return _np("power", x, p)


F = {}


def diag_embed(x, offset=0, dim1=-2, dim2=-1):
    _need(x)
    if offset:
        raise Unsupported("diag_embed with an offset")
    b = symarray(obj(x)) if has_sym(x) else base(x)
    n = b.shape[-1]
    r = np.array(np.broadcast_to(np.zeros((), dtype=int), b.shape + (n,)),
                 dtype=object if has_sym(x) else b.dtype)
    for i in range(n):
        r[..., i, i] = base(b)[..., i]
    return tt(np.moveaxis(symarray(r) if has_sym(x) else r, (-2, -1),
                          (dim1, dim2)))


def writable_diagonal(x, offset=0, dim1=0, dim2=1):
    _need(x)
    r = np.diagonal(base(x), offset, dim1, dim2)
    if base(x).flags.writeable:
        r.flags.writeable = True
    return tt(r)


def index_select(x, dim, index):
    _need(x, index)
    return tt(base(x).take(fix_index(index), axis=dim))


def narrow(x, dim, start, length):
    _need(x)
    sl = [slice(None)] * x.ndim
    sl[dim] = slice(_int(start), _int(start) + _int(length))
    return x[tuple(sl)]


def unbind(x, dim=0):
    _need(x)
    return tuple(tt(e) for e in np.moveaxis(base(x), dim, 0))


def split(x, size, dim=0):
    _need(x)
    n = x.shape[dim]
    if isinstance(size, (int, np.integer)):
        sizes = [min(size, n - i) for i in range(0, n, size)]
    else:
        sizes = list(size)
    at = np.cumsum([0] + sizes)
    return tuple(narrow(x, dim, int(a), int(k)) for a, k in zip(at, sizes))


def chunk(x, chunks, dim=0):
    return split(x, -(-x.shape[dim] // chunks), dim)


def tensor_split(x, parts, dim=0):
    _need(x)
    return tuple(tt(e) for e in np.array_split(base(x), parts, axis=dim))


def baddbmm(c, a, b, *, beta=1, alpha=1):
    return beta * c + alpha * matmul(a, b)


def cdist(a, b, p=2.0, **k):
    _need(a, b)
    d = a.unsqueeze(-2) - b.unsqueeze(-3)
    if p == 1:
        return abs(d).sum(-1)
    if p != 2:
        raise Unsupported("cdist")
    return norm(d, dim=-1)


def take_along_dim(x, index, dim=None):
    _need(x, index)
    if dim is None:
        return tt(base(x).reshape(-1)[fix_index(index)].reshape(index.shape))
    return tt(np.take_along_axis(base(x), np.asarray(fix_index(index)), dim))


def tensordot(a, b, dims=2):
    _need(a, b)
    return _np("tensordot", a, b, axes=dims)


def trace(x):
    _need(x)
    return tt(np.asarray(base(x).trace()))


def addcmul(x, a, b, *, value=1):
    return x + value * (a * b)


def addcdiv(x, a, b, *, value=1):
    return x + value * (a / b)


def lerp(a, b, w):
    return a + w * (b - a)


def meshgrid(*xs, indexing="ij"):
    xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (tuple, list)) else xs
    return tuple(tt(e) for e in np.meshgrid(*[base(x) for x in xs],
                                            indexing=indexing))


def mse_loss(a, b, reduction="mean"):
    d = (a - b) ** 2
    return getattr(d, reduction)() if reduction != "none" else d


def one_hot(x, num_classes=-1):
    b = base(x)
    if b.dtype == object:
        raise Unsupported("one_hot of symbolic labels")
    n = int(b.max()) + 1 if num_classes < 0 else num_classes
    return tt((b[..., None] == np.arange(n)).astype(int))


class Module:
    def __init__(self, *a, **k):
        self.training = True

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def named_parameters(self, prefix=""):
        for n, v in vars(self).items():
            if isinstance(v, SymTensor) and getattr(v, "is_param", False):
                yield prefix + n, v
            elif isinstance(v, Module):
                yield from v.named_parameters(prefix + n + ".")

    def parameters(self):
        return (p for _, p in self.named_parameters())

    def train(self, mode=True):
        self.training = mode
        return self

    def eval(self):
        return self.train(False)

    def zero_grad(self):
        pass

    def to(self, *a, **k):
        return self

    def double(self):
        return self


def Parameter(x, requires_grad=True):
    x = _cut(tt(x)) if isinstance(x, SymTensor) else tensor(x)
    x = np.ndarray.view(x, SymTensor)
    x.is_param = True
    return x


def _method(f, n):
    def m(self, *a, **k):
        return f(self, *a, **k)

    m.__name__ = n
    return m


def _inplace(n):
    def m(self, *a, **k):
        r = getattr(self, n)(*a, **k)
        base(self)[...] = obj(r) if base(self).dtype == object else base(r)
        return self

    m.__name__ = n + "_"
    return m


for _n in ("add sub mul div clamp exp log sqrt square neg pow abs clip "
           "masked_fill").split():
    setattr(SymTensor, _n + "_", _inplace(_n))
SymTensor.zero_ = lambda self: self.fill_(0)
SymTensor.new_zeros = lambda self, *s, **k: _ctor(npshim.zeros)(*s)
SymTensor.new_ones = lambda self, *s, **k: _ctor(npshim.ones)(*s)
SymTensor.new_empty = lambda self, *s, **k: _ctor(npshim.empty)(*s)
SymTensor.new_full = lambda self, s, v, **k: full(s, v)
SymTensor.new_tensor = lambda self, x, **k: tensor(x)
SymTensor.view_as = lambda self, x: self.reshape(*x.shape)
SymTensor.expand_as = lambda self, x: self.expand(*x.shape)
SymTensor.type_as = lambda self, x: self
SymTensor.mH = SymTensor.mT
SymTensor.fill_diagonal_ = lambda self, v: (
    writable_diagonal(self).fill_(v), self)[1]


def modules():
    global NP
    if NP is None:
        NP = npshim.make_numpy()
    t = types.ModuleType("torch")
    t.__path__ = []
    U = {n: un(m) for n, m in dict(
        sqrt="sqrt", exp="exp", log="log", abs="abs", square="square",
        neg="negative", sign="sign", floor="floor", ceil="ceil",
        log1p="log1p", expm1="expm1", reciprocal="reciprocal", tanh="tanh",
        log2="log2", log10="log10", round="rint", sin="sin", cos="cos",
        isnan="isnan", isfinite="isfinite", isinf="isinf",
        logical_not="logical_not").items()}
    B = {n: binop(m) for n, m in dict(
        add="add", sub="subtract", subtract="subtract", mul="multiply",
        multiply="multiply", div="divide", divide="divide",
        true_divide="divide", maximum="maximum", minimum="minimum", eq="equal",
        ne="not_equal", lt="less", le="less_equal", gt="greater",
        ge="greater_equal", less="less", greater="greater",
        greater_equal="greater_equal", less_equal="less_equal",
        logical_and="logical_and", logical_or="logical_or",
        bitwise_and="bitwise_and", bitwise_or="bitwise_or",
        remainder="remainder", fmod="fmod", hypot="hypot").items()}
    F.update(U)
    F.update(B)
    F.update(
        sum=sum_, prod=prod, mean=mean, all=all_, any=any_, var=var, std=std,
        max=max_, min=min_, amax=_red("max"), amin=_red("min"),
        argmax=argmax, argmin=argmin,
        median=median, matmul=matmul, mm=matmul, bmm=matmul, dot=matmul,
        squeeze=squeeze, unsqueeze=unsqueeze, cat=cat, concat=cat,
        concatenate=cat, stack=stack, hstack=hstack, vstack=vstack,
        atleast_1d=_atleast(1), atleast_2d=_atleast(2), atleast_3d=_atleast(3),
        reshape=reshape, where=where, norm=norm, softmax=softmax,
        log_softmax=log_softmax, logsumexp=logsumexp, sigmoid=sigmoid,
        isclose=isclose, allclose=allclose, equal=equal,
        count_nonzero=count_nonzero, tile=tile,
        repeat_interleave=repeat_interleave, unique=unique, einsum=einsum,
        diag=diag, diagonal=writable_diagonal, sort=sort, argsort=argsort, clamp=clamp,
        clip=clamp, zeros=_ctor(npshim.zeros), ones=_ctor(npshim.ones),
        empty=_ctor(npshim.empty), full=full, eye=eye, arange=arange,
        linspace=linspace, zeros_like=like(npshim.zeros_like),
        ones_like=like(npshim.ones_like), empty_like=like(npshim.empty_like),
        full_like=lambda x, v, dtype=None, **k: tt(
            npshim.full_like(_arg(x), v, dtype)),
        cov=cov, corrcoef=corrcoef, outer=outer, topk=topk, pow=tpow,
        clone=lambda x: x.clone(), numel=lambda x: x.numel(),
        flatten=lambda x, *a: x.flatten(*a), swapaxes=lambda x, a, b:
        x.swapaxes(a, b), transpose=lambda x, a, b: x.swapaxes(a, b),
        permute=lambda x, d: x.permute(d), movedim=lambda x, a, b:
        x.movedim(a, b), cumsum=lambda x, dim: _np("cumsum", x, axis=dim),
        broadcast_to=lambda x, s: x.expand(*s), flip=lambda x, dims: tt(
            np.flip(base(x), dims)),
        nonzero=lambda x, as_tuple=False: tuple(
            tt(i) for i in NP.nonzero(_arg(x))) if as_tuple else tt(
            NP.argwhere(_arg(x))),
        is_tensor=lambda x: isinstance(x, SymTensor),
        rand=npshim.stub("torch.rand"), randn=npshim.stub("torch.randn"),
        randperm=npshim.stub("torch.randperm"),
        gather=lambda x, dim, index: tt(np.take_along_axis(
            base(x)[tuple(
                slice(None) if q == dim % x.ndim else slice(0, n)
                for q, n in enumerate(index.shape))], base(index), dim)),
        tril=lambda x, k=0: tt(np.tril(base(x), k)),
        triu=lambda x, k=0: tt(np.triu(base(x), k)),
        diag_embed=diag_embed, index_select=index_select, narrow=narrow,
        unbind=unbind, split=split, chunk=chunk, tensor_split=tensor_split,
        select=lambda x, dim, i: tt(base(x).take(_int(i), axis=dim)),
        baddbmm=baddbmm, addmm=baddbmm, cdist=cdist, mv=matmul, vdot=matmul,
        take_along_dim=take_along_dim, tensordot=tensordot, trace=trace,
        inner=lambda a, b: _np("inner", a, b),
        kron=lambda a, b: _np("kron", a, b),
        addcmul=addcmul, addcdiv=addcdiv, lerp=lerp, meshgrid=meshgrid,
        rsqrt=lambda x: 1 / sqrt(x), negative=F["neg"],
        exp2=lambda x: _np("power", 2.0, x), float_power=tpow,
        clamp_min=lambda x, v: clamp(x, v), clamp_max=lambda x, v: clamp(
            x, None, v),
        fmax=F["maximum"], fmin=F["minimum"],
        ravel=lambda x: x.flatten(), moveaxis=lambda x, a, b: x.movedim(a, b),
        swapdims=lambda x, a, b: x.swapaxes(a, b),
        roll=lambda x, k, dims=None: tt(np.roll(base(x), k, dims)),
        column_stack=lambda xs: _np("column_stack", [_arg(x) for x in xs]),
        dstack=lambda xs: _np("dstack", [_arg(x) for x in xs]),
        masked_fill=lambda x, m, v: x.masked_fill(m, v),
        masked_select=lambda x, m: x[m],
        diff=lambda x, n=1, dim=-1: _np("diff", x, n, axis=dim),
        detach=lambda x: x.detach(), asarray=as_tensor, scalar_tensor=tensor,
        is_floating_point=lambda x: base(x).dtype.kind in "fO",
        unflatten=lambda x, dim, sizes: x.reshape(
            *x.shape[:dim % x.ndim], *sizes, *x.shape[dim % x.ndim + 1:]),
        logdet=lambda A: slogdet(A)[1], slogdet=slogdet,
        logaddexp=lambda a, b: _np("log", _np("exp", a) + _np("exp", b)),
        inverse=lambda A: tt(arr.inverse(_arg(A))),
        det=lambda A: tt(np.asarray(arr.det(_arg(A)))),
        broadcast_tensors=lambda *xs: tuple(
            tt(e) for e in np.broadcast_arrays(*[base(x) for x in xs])),
    )
    for n in ("amax amin broadcast_to chunk clamp_max clamp_min cos diag "
              "diag_embed diff exp2 expm1 flip float_power fmax fmin gather "
              "hypot index_select inner isfinite isnan kron lerp log1p "
              "logical_and logical_or masked_select maximum minimum moveaxis "
              "multiply mv narrow neg negative outer reciprocal remainder "
              "roll rsqrt select sign sin split subtract take_along_dim tanh "
              "tensor_split tril triu true_divide unbind unflatten unique "
              "vdot trace baddbmm addmm addcmul addcdiv swapdims tensordot "
              "divide logdet slogdet logaddexp inverse det masked_select nonzero floor "
              "not_equal").split():
        if n in F and not hasattr(SymTensor, n):
            setattr(SymTensor, n, _method(F[n], n))
    SymTensor.nonzero = _method(F["nonzero"], "nonzero")
    SymTensor.where = lambda self, cond, other: where(cond, self, other)
    t.__dict__.update(F)
    t.tensor, t.as_tensor, t.from_numpy = tensor, as_tensor, from_numpy
    t.Tensor = SymTensor
    t.finfo = lambda d=None: np.finfo(np.float64)
    t.iinfo = lambda d=None: np.iinfo(np.int64)
    t.Size = Size
    t.inf, t.pi, t.nan, t.e = math.inf, math.pi, math.nan, math.e
    t.float64 = t.double = np.dtype(np.float64)
    t.float32 = t.float = np.dtype(np.float64)
    t.int64 = t.long = np.dtype(np.int64)
    t.int32 = t.int = np.dtype(np.int64)
    t.bool = np.dtype(bool)
    t.manual_seed = lambda *a: None
    t.set_default_dtype = lambda *a: None
    t.get_default_dtype = lambda: np.dtype(np.float64)
    t.is_grad_enabled = lambda: False

    class _NoGrad:
        step = 1

        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            if TRACK is not None:
                TRACK.off += self.step
            return self

        def __exit__(self, *a):
            if TRACK is not None:
                TRACK.off -= self.step
            return False

        def __call__(self, f):
            def g(*a, **k):
                with self:
                    return f(*a, **k)

            return g

    class _Grad(_NoGrad):
        step = 0

    t.no_grad = t.inference_mode = _NoGrad
    t.enable_grad = _Grad
    t.set_grad_enabled = lambda on=True: (_Grad if on else _NoGrad)()
    lin = types.ModuleType("torch.linalg")
    lin.__dict__.update(
        solve=solve, slogdet=slogdet, norm=tl_norm, vector_norm=tl_norm,
        inv=lambda A: tt(arr.inverse(_arg(A))),
        det=lambda A: tt(np.asarray(arr.det(_arg(A)))),
        cholesky=lambda A, **k: tt(arr.cholesky(_arg(A))),
        solve_triangular=lambda A, B, upper=None, **k: solve(A, B),
        cholesky_ex=lambda A, **k: (tt(arr.cholesky(_arg(A))), tensor(0)),
        inv_ex=lambda A, **k: (tt(arr.inverse(_arg(A))), tensor(0)),
        vecdot=lambda a, b, dim=-1: (a * b).sum(dim),
        diagonal=lambda A, offset=0, dim1=-2, dim2=-1: writable_diagonal(
            A, offset, dim1, dim2),
        matmul=matmul, multi_dot=lambda xs: tt(npshim.multi_dot(
            [_arg(x) for x in xs])),
    )
    t.linalg = lin
    t.inverse = lin.inv
    t.slogdet = slogdet
    t.det = lin.det
    t.logdet = lambda A: slogdet(A)[1]
    t.cholesky = lin.cholesky
    t.cholesky_solve = lambda b, L, upper=False: tt(arr.matmul(
        arr.inverse(arr.matmul(_arg(L), np.swapaxes(obj(L), -1, -2))),
        _arg(b)))
    fn = types.ModuleType("torch.nn.functional")
    fn.softmax = softmax
    fn.log_softmax = log_softmax
    fn.mse_loss, fn.one_hot = mse_loss, one_hot
    fn.l1_loss = lambda a, b, reduction="mean": getattr(abs(a - b), reduction)()
    fn.relu = lambda x, **k: clamp(x, 0)
    fn.sigmoid = sigmoid
    nn = types.ModuleType("torch.nn")
    nn.__path__ = []

    def loss(name):
        class L(Module):
            def forward(self, *a):
                raise Unsupported(f"torch.nn.{name}")

        return L

    nn.__dict__.update(
        Module=Module, Parameter=Parameter, functional=fn,
        **{n: loss(n) for n in (
            "MSELoss L1Loss BCELoss CrossEntropyLoss Linear Dropout PReLU ELU "
            "ReLU Sequential").split()})
    t.nn = nn
    opt = types.ModuleType("torch.optim")
    opt.__path__ = []
    opt.Adam = npshim.stub("torch.optim.Adam")
    sch = types.ModuleType("torch.optim.lr_scheduler")
    sch.ExponentialLR = npshim.stub("ExponentialLR")
    opt.lr_scheduler = sch
    t.optim = opt
    cuda = types.ModuleType("torch.cuda")
    cuda.is_available = lambda: False
    cuda.empty_cache = lambda: None
    t.cuda = cuda
    return {
        "torch": t, "torch.linalg": lin, "torch.nn": nn,
        "torch.nn.functional": fn, "torch.optim": opt,
        "torch.optim.lr_scheduler": sch, "torch.cuda": cuda,
    }
