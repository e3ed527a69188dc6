"""Symbolic arrays: an ndarray subclass holding Sym/SymBool/number objects."""

import math
from fractions import Fraction

import numpy as np

from . import core
from .core import Sym, SymBool, Unsupported, ite, lift

ENV = {}  # environment stubs installed by the harness


def has_sym(x):
    """Does a nested structure contain symbolic values?"""
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def unbox(x):
    if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
        return np.ndarray.item(np.ndarray.view(x, np.ndarray))
    return x


def base(x):
    """Plain ndarray view of an array-like."""
    if isinstance(x, SymArray):
        return np.ndarray.view(x, np.ndarray)
    if isinstance(x, np.ndarray):
        return x
    return x


def obj(x):
    """Object ndarray (base class) from anything array-like."""
    if isinstance(x, np.ndarray):
        b = base(x)
        return b if b.dtype == object else b.astype(object)
    if isinstance(x, (Sym, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        parts = [obj(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object)
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError("inhomogeneous shape")
        a = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            a[i] = p if shp else p[()]
        return a
    a = np.empty((), dtype=object)
    a[()] = x.item() if isinstance(x, np.generic) else x
    return a


def wrap(x, cls=None):
    """Wrap results: SymArray for object arrays, scalars for 0-d."""
    cls = cls or SymArray
    if isinstance(x, tuple):
        return tuple(wrap(e, cls) for e in x)
    if isinstance(x, list):
        return [wrap(e, cls) for e in x]
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return cls._num(x)
        b = np.ndarray.view(x, np.ndarray)
        if b.size and all(isinstance(e, (bool, np.bool_)) for e in b.flat):
            return cls._num(b.astype(bool))
        if b.ndim == 0:
            return cls._scalar(b[()])
        return np.ndarray.view(b, cls)
    if isinstance(x, (Sym, SymBool)):
        return cls._scalar(x)
    return x


def wrap0(x):
    a = np.empty((1,), dtype=object)
    a[0] = x
    return np.ndarray.view(a, SymArray)


def fork_mask(x):
    """Concretise a boolean object array by forking."""
    b = obj(x)
    return np.array([bool(e) for e in b.flat], dtype=bool).reshape(b.shape)


def fix_index(k):
    if isinstance(k, tuple):
        return tuple(fix_index(e) for e in k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, slice):
        f = lambda v: v.__index__() if isinstance(v, Sym) else v
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, np.ndarray):
        if k.dtype != object:
            return base(k)
        b = base(k)
        if b.size and all(isinstance(e, (bool, SymBool, np.bool_)) for e in b.flat):
            return fork_mask(b)
        if b.size == 0:
            return b.astype(np.int64)
        return np.array(
            [lift(e).__index__() for e in b.flat], dtype=np.int64
        ).reshape(b.shape)
    if isinstance(k, list) and has_sym(k):
        return fix_index(obj(k))
    return k


# -- elementwise operations -------------------------------------------------


def _n(x):
    return isinstance(x, (int, float, Fraction, np.generic)) and not isinstance(
        x, (bool, np.bool_)
    )


def e_max(a, b):
    c = _cmpv(a, b, ">=")
    return a if c is True else (b if c is False else ite(c, a, b))


def e_min(a, b):
    c = _cmpv(a, b, "<=")
    return a if c is True else (b if c is False else ite(c, a, b))


def _cmpv(a, b, rel):
    a_, b_ = (lift(v) if not isinstance(v, float) else v for v in (a, b))
    r = a_ >= b_ if rel == ">=" else a_ <= b_
    return r if isinstance(r, SymBool) else bool(r)


def e_sqrt(x):
    return core.sqrt(lift(x))


def e_sign(x):
    x = lift(x)
    return ite(x > 0, 1, ite(x < 0, -1, 0))


def e_uf(name, fn):
    def f(x):
        x = lift(x)
        c = x.const()
        if c is not None and c == 0:
            return lift(float(fn(0.0)))
        return core.uf(name, (x,), fn)

    return f


def e_div(a, b):
    return lift(a) / lift(b)


def e_pow(a, b):
    return lift(a) ** lift(b)


def e_isclose(a, b, rtol=1e-5, atol=1e-8):
    if isinstance(b, float) and math.isinf(b):
        return False
    return abs(lift(a) - lift(b)) <= lift(atol) + lift(rtol) * abs(lift(b))


UFUNC = {
    "add": lambda a, b: _arith(a, b, "+"),
    "subtract": lambda a, b: _arith(a, b, "-"),
    "multiply": lambda a, b: _arith(a, b, "*"),
    "true_divide": e_div,
    "divide": e_div,
    "floor_divide": lambda a, b: lift(a) // lift(b),
    "remainder": lambda a, b: lift(a) % lift(b),
    "fmod": lambda a, b: lift(a) - lift(b) * core.trunc(lift(a) / lift(b)),
    "power": e_pow,
    "float_power": e_pow,
    "negative": lambda a: -lift(a),
    "positive": lambda a: a,
    "absolute": lambda a: abs(lift(a)),
    "fabs": lambda a: abs(lift(a)),
    "conjugate": lambda a: a,
    "sqrt": e_sqrt,
    "square": lambda a: lift(a) * lift(a),
    "cbrt": lambda a: lift(a) ** Fraction(1, 3),
    "reciprocal": lambda a: e_div(1, a),
    "exp": lambda a: core.exp(a),
    "exp2": lambda a: core.exp(lift(a) * core.log(lift(2))),
    "expm1": lambda a: core.exp(a) - 1,
    "log": lambda a: core.log(a),
    "log2": lambda a: core.log(a) / core.log(lift(2)),
    "log10": lambda a: core.log(a) / core.log(lift(10)),
    "log1p": lambda a: core.log(lift(a) + 1),
    "sin": e_uf("sin", math.sin),
    "cos": e_uf("cos", math.cos),
    "tan": e_uf("tan", math.tan),
    "tanh": lambda a: (lambda e: (e - 1) / (e + 1))(core.exp(2 * lift(a))),
    "arctan": e_uf("arctan", math.atan),
    "hypot": lambda a, b: core.sqrt(lift(a) ** 2 + lift(b) ** 2),
    "maximum": e_max,
    "minimum": e_min,
    "fmax": e_max,
    "fmin": e_min,
    "sign": e_sign,
    "heaviside": lambda a, b: ite(lift(a) > 0, 1, ite(lift(a) < 0, 0, b)),
    "floor": lambda a: core.floor(a),
    "ceil": lambda a: -core.floor(-lift(a)),
    "trunc": lambda a: core.trunc(a),
    "rint": lambda a: _rint(a),
    "less": lambda a, b: _rel(a, b, "<"),
    "less_equal": lambda a, b: _rel(a, b, "<="),
    "greater": lambda a, b: _rel(b, a, "<"),
    "greater_equal": lambda a, b: _rel(b, a, "<="),
    "equal": lambda a, b: _rel(a, b, "=="),
    "not_equal": lambda a, b: _rel(a, b, "!="),
    "logical_and": lambda a, b: core.band(a, b),
    "logical_or": lambda a, b: core.bor(a, b),
    "logical_not": lambda a: core.bnot(a),
    "logical_xor": lambda a, b: core.bor(
        core.band(a, core.bnot(b)), core.band(core.bnot(a), b)
    ),
    "bitwise_and": lambda a, b: _bit(a, b, "and"),
    "bitwise_or": lambda a, b: _bit(a, b, "or"),
    "bitwise_xor": lambda a, b: _bit(a, b, "xor"),
    "invert": lambda a: core.bnot(a) if _isb(a) else -lift(a) - 1,
    "isnan": lambda a: isinstance(a, float) and a != a,
    "isinf": lambda a: isinstance(a, float) and math.isinf(a),
    "isfinite": lambda a: not (
        isinstance(a, float) and (a != a or math.isinf(a))
    ),
}


def _isb(a):
    return isinstance(a, (bool, SymBool, np.bool_))


def _bit(a, b, op):
    if _isb(a) and _isb(b):
        if op == "and":
            return core.band(a, b)
        if op == "or":
            return core.bor(a, b)
        return UFUNC["logical_xor"](a, b)
    raise Unsupported("bitwise operation on symbolic integers")


def _rint(a):
    a = lift(a)
    if a.isint():
        return a
    c = a.const()
    if c is not None:
        return lift(round(Fraction(c)))
    f = core.floor(a)
    d = a - f
    half = Fraction(1, 2)
    even = (f % 2) == 0
    return ite(
        d < half, f, ite(d > half, f + 1, ite(even, f, f + 1))
    )


def _rel(a, b, rel):
    if _isb(a) and _isb(b) and rel in ("==", "!="):
        x = UFUNC["logical_xor"](a, b)
        return core.bnot(x) if rel == "==" else x
    na, nb = _nonfinite(a), _nonfinite(b)
    if na is not None or nb is not None:
        # symbolic values are finite reals
        x = na if na is not None else (a if isinstance(a, (int, float)) else 0.0)
        y = nb if nb is not None else (b if isinstance(b, (int, float)) else 0.0)
        return {"<": x < y, "<=": x <= y, "==": x == y, "!=": x != y}[rel]
    return core.cmp(rel, a, b)


def _nonfinite(a):
    if not isinstance(a, (Sym, SymBool)) and hasattr(a, "item"):
        try:
            a = a.item()
        except (ValueError, TypeError):
            return None
    if isinstance(a, float) and not math.isfinite(a):
        return a
    return None


def _arith(a, b, op):
    if isinstance(a, float) and not math.isfinite(a) or (
        isinstance(b, float) and not math.isfinite(b)
    ):
        raise Unsupported("arithmetic with a non-finite constant")
    a = lift(a)
    b = lift(b)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    return a * b


_FP = {}


def pyufunc(name):
    f = _FP.get(name)
    if f is None:
        fn = UFUNC[name]
        nin = fn.__code__.co_argcount
        f = np.frompyfunc(fn, nin, 1)
        _FP[name] = f
    return f


IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def apply_ufunc(cls, ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    where = kw.pop("where", True)
    if name == "matmul":
        res = matmul(*inputs)
    elif name not in UFUNC:
        raise Unsupported(f"ufunc {name}")
    else:
        f = pyufunc(name)
        if method == "__call__":
            if not (where is True):
                w = obj(where)
                prev = obj(out[0]) if out else None
                r = f(*[obj(x) for x in inputs])
                if prev is None:
                    raise Unsupported("ufunc where= without out=")
                res = np.frompyfunc(ite, 3, 1)(w, r, prev)
            else:
                res = f(*[obj(x) for x in inputs])
        elif method == "reduce":
            a = obj(inputs[0])
            axis = kw.get("axis", 0)
            keep = kw.get("keepdims", False)
            init = kw.get("initial", None)
            if init is np._NoValue:
                init = None
            if where is not True and where is not np._NoValue:
                ident = IDENT[name]
                a = np.frompyfunc(ite, 3, 1)(obj(where), a, ident)
            res = reduce(f, name, a, axis, keep, init)
        elif method == "accumulate":
            res = f.accumulate(obj(inputs[0]), axis=kw.get("axis", 0))
        elif method == "outer":
            res = f.outer(obj(inputs[0]), obj(inputs[1]))
        elif method == "at":
            a, idx, v = inputs
            a = base(a)
            at = np.arange(a.size).reshape(a.shape)[fix_index(idx)]
            it = np.broadcast_to(obj(v), at.shape)
            for q, x in zip(at.flat, it.flat):
                i = np.unravel_index(q, a.shape)
                a[i] = UFUNC[name](a[i], x)
            return None
        elif method == "reduceat":
            a, at = obj(inputs[0]), list(inputs[1])
            if kw.get("axis", 0) != 0:
                raise Unsupported("reduceat along another axis")
            res = np.array([
                f.reduce(a[i:(at[q + 1] if q + 1 < len(at) else None)]
                         if q + 1 == len(at) or i < at[q + 1] else a[i:i + 1],
                         axis=0) for q, i in enumerate(at)], dtype=object)
        else:
            raise Unsupported(f"ufunc {name}.{method}")
    if isinstance(res, tuple):
        return tuple(wrap(np.asarray(r), cls) for r in res)
    if not isinstance(res, np.ndarray):
        a = np.empty((), dtype=object)
        a[()] = res
        res = a
    if out:
        o = out[0]
        if o is not None:
            ob = base(o)
            if ob.dtype == object:
                ob[...] = res
            else:
                wr = wrap(res)
                if has_sym(wr):
                    raise Unsupported(
                        "in-place store of symbolic values in a numeric array"
                    )
                ob[...] = wr
            return o
    return wrap(res, cls)


def reduce(f, name, a, axis, keep, init):
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(int(x) % a.ndim for x in axis)
    else:
        if a.ndim == 0:
            axes = ()
        else:
            if not -a.ndim <= int(axis) < a.ndim:
                raise np.AxisError(int(axis), a.ndim)
            axes = (int(axis) % a.ndim,)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + sorted(axes))
    shp = tuple(a.shape[i] for i in rest)
    b = b.reshape(shp + (-1,)) if b.size else b.reshape(
        shp + (int(np.prod([a.shape[i] for i in axes])),)
    )
    n = b.shape[-1]
    ident = IDENT.get(name)
    out = np.empty(shp, dtype=object)
    fn = UFUNC[name]
    for i in np.ndindex(*shp):
        row = b[i]
        if init is not None:
            acc, st = init, 0
        elif n == 0:
            if ident is None:
                raise ValueError(
                    "zero-size array to reduction operation "
                    f"{name} which has no identity"
                )
            acc, st = ident, 0
        else:
            acc, st = row[0], 1
            if name in ("add", "multiply"):
                acc = lift(acc)
            elif name.startswith("logical"):
                acc = core._b(acc)
        for x in row[st:]:
            acc = fn(acc, x)
        out[i] = acc
    if keep:
        out = out.reshape(
            tuple(1 if i in axes else a.shape[i] for i in range(a.ndim))
        )
    return out


def _dotadd(u, v):
    """Sum of products accumulated in one dictionary."""
    acc = {}
    for x, y in zip(u, v):
        x, y = lift(x), lift(y)
        if x.p and y.p:
            acc = core.padd(acc, core.pmul(x.p, y.p))
    return Sym(acc)


def matmul(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: 0-d operand")
    av, bv = a.ndim == 1, b.ndim == 1
    if av:
        a = a[None, :]
    if bv:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError(
            "matmul: Input operand 1 has a mismatch in its core dimension 0, "
            f"with gufunc signature (n?,k),(k,m?)->(n?,m?) (size {b.shape[-2]}"
            f" is different from {a.shape[-1]})"
        )
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(a, lead + a.shape[-2:])
    B = np.broadcast_to(b, lead + b.shape[-2:])
    r = np.empty(lead + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(*lead):
        for x in range(a.shape[-2]):
            for y in range(b.shape[-1]):
                r[i + (x, y)] = _dotadd(A[i][x], B[i][:, y])
    if av:
        r = r[..., 0, :]
    if bv:
        r = r[..., 0]
    return r


def inverse(a):
    a = obj(a)
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError(
            "Last 2 dimensions of the array must be square"
        )
    n = a.shape[-1]
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-2]):
        rows = [[lift(a[i][x, y]) for y in range(n)] for x in range(n)]
        inv = core.mat_inverse(rows)
        for x in range(n):
            for y in range(n):
                r[i + (x, y)] = inv[x][y]
    return r


def solve_vec(a, b, vec):
    a, b = obj(a), obj(b)
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError(
            "Last 2 dimensions of the array must be square"
        )
    if vec:
        if b.shape[-1] != a.shape[-1]:
            raise ValueError("solve: mismatch in core dimension")
        return matmul(inverse(a), b[..., None])[..., 0]
    if b.shape[-2] != a.shape[-1]:
        raise ValueError(
            "solve: Input operand 1 has a mismatch in its core dimension 0"
        )
    return matmul(inverse(a), b)


def det(a):
    a = obj(a)
    n = a.shape[-1]
    r = np.empty(a.shape[:-2], dtype=object)
    for i in np.ndindex(*a.shape[:-2]):
        rows = [[lift(a[i][x, y]) for y in range(n)] for x in range(n)]
        r[i] = core.det(rows)
    return r


def slogdet(a):
    d = det(a)
    sgn = np.frompyfunc(e_sign, 1, 1)(d)
    for i in np.ndindex(*d.shape):
        core.EX and core.EX.domain(core.cmp("<", 0, d[i]), "determinant > 0")
        sgn[i] = lift(1)
    return sgn, np.frompyfunc(lambda x: core.log(x), 1, 1)(d)


def cholesky(a):
    a = obj(a)
    n = a.shape[-1]
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-2]):
        A = a[i]
        L = [[lift(0)] * n for _ in range(n)]
        for x in range(n):
            for y in range(x + 1):
                s = lift(A[x, y]) - _dotadd(L[x][:y], L[y][:y])
                L[x][y] = core.sqrt(s) if x == y else s / L[y][y]
        for x in range(n):
            for y in range(n):
                r[i + (x, y)] = L[x][y]
    return r


class SymArray(np.ndarray):
    __array_priority__ = 100

    @classmethod
    def _num(cls, x):
        """Numeric results."""
        return np.ndarray.view(x, np.ndarray)

    @classmethod
    def _scalar(cls, x):
        return x

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return apply_ufunc(type(self), ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim

        return npshim.dispatch(type(self), func, args, kwargs)

    def __array_wrap__(self, a, context=None):
        return wrap(a, type(self))

    def __getitem__(self, k):
        k = fix_index(k)
        r = base(self)[k]
        if isinstance(r, np.ndarray):
            if r.dtype == object and r.ndim == 0:
                return type(self)._scalar(r[()])
            return np.ndarray.view(r, type(self))
        return type(self)._scalar(r)

    def __setitem__(self, k, v):
        b = base(self)
        k = fix_index(k)
        if isinstance(v, np.ndarray):
            v = base(v)
            if v.ndim == 0:
                v = v[()]
        elif isinstance(v, (list, tuple)):
            v = obj(v)
        if b.dtype != object and has_sym(v):
            raise Unsupported("store of symbolic values in a numeric array")
        b[k] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(len(self)))

    def __contains__(self, v):
        return bool(np.any(self == v))

    def __bool__(self):
        if self.size != 1:
            raise ValueError(
                "The truth value of an array with more than one element is "
                "ambiguous. Use a.any() or a.all()"
            )
        return bool(base(self).flat[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted")
        return float(base(self).flat[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted")
        return int(base(self).flat[0])

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *a):
        return base(self).item(*a)

    def tolist(self):
        return base(self).tolist()

    def astype(self, dtype, copy=True, **k):
        if base(self).dtype != object:
            return type(self)._num(base(self).astype(dtype))
        kind = "O" if dtype is object else np.dtype(dtype).kind
        if kind in "iu":
            r = np.frompyfunc(core.trunc, 1, 1)(base(self))
            r = obj(r)
            if all(
                isinstance(e, (int, np.integer)) or (
                    isinstance(e, Sym) and e.const() is not None)
                for e in r.flat
            ):
                return np.array([int(e) for e in r.flat], dtype=dtype).reshape(
                    r.shape
                )
            return wrap(r, type(self))
        if kind == "b":
            return wrap(
                np.frompyfunc(core._b, 1, 1)(base(self)), type(self)
            )
        return wrap(np.frompyfunc(lift, 1, 1)(base(self)).copy()
                    if self.size else base(self).copy(), type(self))

    def copy(self, order="C"):
        return np.ndarray.view(base(self).copy(), type(self))

    def _call(self, name, *a, **k):
        from . import npshim

        return npshim.OVERRIDES[name](self, *a, **k)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.add.reduce(self, axis=axis, keepdims=keepdims, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.multiply.reduce(self, axis=axis, keepdims=keepdims, **k)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np.maximum.reduce(self, axis=axis, keepdims=keepdims, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np.minimum.reduce(self, axis=axis, keepdims=keepdims, **k)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_and.reduce(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_or.reduce(self, axis=axis, keepdims=keepdims)

    def mean(self, *a, **k):
        return self._call("mean", *a, **k)

    def var(self, *a, **k):
        return self._call("var", *a, **k)

    def std(self, *a, **k):
        return self._call("std", *a, **k)

    def argmax(self, *a, **k):
        return self._call("argmax", *a, **k)

    def argmin(self, *a, **k):
        return self._call("argmin", *a, **k)

    def clip(self, *a, **k):
        return self._call("clip", *a, **k)

    def round(self, *a, **k):
        return self._call("round", *a, **k)

    def dot(self, b, **k):
        return self._call("dot", b)

    def cumsum(self, axis=None, **k):
        return self._call("cumsum", axis=axis)

    def sort(self, axis=-1, **k):
        self[...] = self._call("sort", axis=axis)

    def argsort(self, axis=-1, **k):
        return self._call("argsort", axis=axis)

    def nonzero(self):
        return self._call("nonzero")

    def take(self, idx, axis=None, **k):
        return wrap(base(self).take(fix_index(idx), axis=axis), type(self))

    def flatten(self, order="C"):
        return np.ndarray.view(base(self).flatten(order), type(self))

    def trace(self, *a, **k):
        return wrap(base(self).trace(*a, **k), type(self))

    @property
    def real(self):
        return self

    def view(self, *a, **k):
        if not a and not k:
            return np.ndarray.view(base(self), type(self))
        return np.ndarray.view(self, *a, **k)


def symarray(x):
    """SymArray of Sym elements from anything array-like."""
    b = obj(x)
    r = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape):
        e = b[i]
        r[i] = e if isinstance(e, (Sym, SymBool)) else (
            lift(e.item() if isinstance(e, np.generic) else e)
            if not (isinstance(e, float) and not math.isfinite(e)) else e
        )
    return np.ndarray.view(r, SymArray)
