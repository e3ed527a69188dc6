"""Symbolic scalars for executing the real MuyGPyS code with an SMT solver.

A ``Sym`` is a real (or integer) valued term kept in polynomial normal form
over interned *atoms*: input variables, square roots, exponentials,
logarithms, named denominators, entries of inverse matrices, uninterpreted
special functions (gamma, Bessel K) and if-then-else terms.  The rewrites
performed while normalising are field/ring identities plus s*s = p for
s = sqrt(p), exp(p)exp(q) = exp(p+q) and log of positive monomials.

A ``SymBool`` is a boolean term.  Its truth value may be demanded by the code
under test (``if``, ``while``, ``and``...): the path explorer then forks, asking
z3 which sides are feasible.

Every atom also carries a numeric evaluator, so that each term can be
evaluated on a concrete assignment of the inputs (used for finding concrete
counterexamples that are then replayed on the unpatched code, and for
translator validation).
"""

import math
import sys
import time
from fractions import Fraction
from numbers import Number

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

VAR, SQRT, EXP, LOG, DEN, UF, ITE, FLOOR, INV = range(9)


class Unsupported(Exception):
    """The code used an operation the encoding does not model."""


class Blowup(Unsupported):
    pass


class Infeasible(BaseException):
    """Raised to abandon an infeasible path."""


class PathLimit(BaseException):
    pass


# --------------------------------------------------------------------------
# atoms


class Atom:
    __slots__ = (
        "id", "kind", "key", "data", "sort", "sign", "name", "_z", "lo", "hi",
    )

    def __init__(self, id, kind, key, data, sort, sign, name):
        self.id = id
        self.kind = kind
        self.key = key
        self.data = data
        self.sort = sort  # 'R' or 'I'
        self.sign = sign  # 'pos', 'nonneg' or None
        self.name = name
        self._z = None

    @property
    def z(self):
        if self._z is None:
            self._z = (z3.Int if self.sort == "I" else z3.Real)(self.name)
        return self._z


ATOMS = []
TABLE = {}
INVZ = {}


def reset():
    """Forget all atoms (between cases)."""
    ATOMS.clear()
    TABLE.clear()
    INVZ.clear()
    MATINV.clear()
    MATREG.clear()
    _consts.clear()


def atom(kind, key, data=None, sort="R", sign=None, name=None):
    k = (kind, key)
    a = TABLE.get(k)
    if a is None:
        i = len(ATOMS)
        a = Atom(i, kind, key, data, sort, sign, name or f"t{kind}_{i}")
        ATOMS.append(a)
        TABLE[k] = a
    return a


# --------------------------------------------------------------------------
# polynomials: dict {monomial: coef}; monomial = tuple of (atom id, exponent)

MAXTERMS = 60000


def padd(p, q, s=1):
    if len(q) > len(p) and s == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        c2 = r.get(m, 0) + (c if s == 1 else c * s)
        if c2 == 0:
            r.pop(m, None)
        else:
            r[m] = c2
    return r


def pscale(p, c):
    if c == 0:
        return {}
    if c == 1:
        return p
    return {m: v * c for m, v in p.items()}


def mmul(m1, m2):
    """Multiply monomials -> (monomial, None) or (monomial, extra poly)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            del d[a]
        else:
            d[a] = n
    extra = None
    special = None
    for a in d:
        if ATOMS[a].kind in (SQRT, EXP):
            special = True
            break
    if special:
        exps = None
        for a in list(d):
            at = ATOMS[a]
            if at.kind == SQRT:
                e = d[a]
                if e not in (0, 1):
                    h, r = divmod(e, 2)
                    if r:
                        d[a] = 1
                    else:
                        del d[a]
                    t = ppow(at.data, h)
                    extra = t if extra is None else pmul(extra, t)
            elif at.kind == EXP:
                e = d.pop(a)
                t = pscale(at.data, e)
                exps = t if exps is None else padd(exps, t)
        if exps is not None and exps:
            ea = exp_atom(exps)
            if isinstance(ea, Atom):
                d[ea.id] = 1
            else:  # pragma: no cover
                extra = ea if extra is None else pmul(extra, ea)
    return tuple(sorted(d.items())), extra


def pmul(p, q):
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return pscale(q, c)
    if len(q) == 1:
        (m, c), = q.items()
        if not m:
            return pscale(p, c)
    if len(p) * len(q) > MAXTERMS * 20:
        raise Blowup("polynomial product too large")
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, ex = mmul(m1, m2)
            c = c1 * c2
            if ex is None:
                n = r.get(m, 0) + c
                if n == 0:
                    del r[m]
                else:
                    r[m] = n
            else:
                t = pmul({m: c}, ex)
                for mm, cc in t.items():
                    n = r.get(mm, 0) + cc
                    if n == 0:
                        del r[mm]
                    else:
                        r[mm] = n
    if len(r) > MAXTERMS:
        raise Blowup("polynomial too large")
    return r


ONE = {(): 1}


def ppow(p, n):
    if n < 0:
        return prcp(ppow(p, -n))
    r = ONE
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def pkey(p):
    return frozenset(p.items())


def pconst(p):
    """Return the constant value of p or None."""
    if not p:
        return 0
    if len(p) == 1:
        c = p.get(())
        if c is not None:
            return c
    return None


def frac(c):
    return c if isinstance(c, Fraction) else Fraction(c)


def content(p):
    """Split p = c * m * p' with c rational, m a monomial, p' canonical."""
    ms = list(p)
    seen = {}
    for m in ms:
        for a, e in m:
            if ATOMS[a].kind in (SQRT, EXP):
                continue
            r = seen.get(a)
            if r is None:
                seen[a] = [e, 1]
            else:
                r[0] = min(r[0], e)
                r[1] += 1
    cm = []
    for a, (e, k) in seen.items():
        if k < len(ms):
            e = min(e, 0)
        if e:
            cm.append((a, e))
    cm = tuple(sorted(cm))
    q = p
    if cm:
        inv = tuple((a, -e) for a, e in cm)
        q = {mmul(m, inv)[0]: c for m, c in p.items()}
    piv = _exp_pivot(q)
    if piv is not None:
        q = pmul(q, exp_poly(pscale(piv, -1)))
        ea = exp_atom(piv)
        cm = tuple(sorted(cm + ((ea.id, 1),)))
    lead = q[max(q)]
    if lead != 1:
        q = pscale(q, 1 / frac(lead))
    q = {m: norm_c(c) for m, c in q.items()}
    return lead, cm, q


def _exp_pivot(q):
    """A shift-invariant choice of an exponential to factor out."""
    ex = []
    for m in q:
        e = [a for a, _ in m if ATOMS[a].kind == EXP]
        if not e:
            return None
        ex.append(ATOMS[e[0]].data)
    if len(ex) > 12:
        return None
    best = None
    for p in ex:
        k = sorted(
            tuple(sorted(padd(r, p, -1).items())) for r in ex
        )
        if best is None or k < best[0]:
            best = (k, p)
    return best[1]


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def prcp(p):
    """Reciprocal."""
    if not p:
        raise ZeroDivisionError("division by zero")
    if len(p) == 1:
        (m, c), = p.items()
        r = {(): norm_c(1 / frac(c))}
        plain = []
        for a, e in m:
            at = ATOMS[a]
            if at.kind == EXP:
                r = pmul(r, exp_poly(pscale(at.data, -e)))
            elif at.kind == SQRT:
                r = pmul(r, pmul({((a, 1),): 1}, prcp(at.data)))
            else:
                plain.append((a, -e))
        return pmul(r, {tuple(plain): 1}) if plain else r
    lead, cm, q = content(p)
    # a constant-sum with one numeric square root: rationalise
    num = _rationalise(q)
    r = {(): norm_c(1 / frac(lead))}
    if num is not None:
        r = pmul(r, num)
    else:
        a = atom(DEN, pkey(q), q, sign=psign(q))
        r = pmul(r, {((a.id, -1),): 1})
    if cm:
        r = pmul(r, prcp({cm: 1}))
    return r


def _rationalise(q):
    """1/(a+b*sqrt(c)) for numeric a, b, c."""
    if len(q) != 2:
        return None
    s = None
    for m in q:
        if m == ():
            continue
        if len(m) == 1 and ATOMS[m[0][0]].kind == SQRT and m[0][1] == 1 and (
            pconst(ATOMS[m[0][0]].data) is not None
        ):
            s = m
        else:
            return None
    if s is None or () not in q:
        return None
    a, b = frac(q[()]), frac(q[s])
    c = frac(pconst(ATOMS[s[0][0]].data))
    d = a * a - b * b * c
    return {(): norm_c(a / d), s: norm_c(-b / d)}


def exp_atom(p):
    return atom(EXP, pkey(p), p, sign="pos")


def exp_poly(p):
    if not p:
        return ONE
    # exp(k log q + r) = q^k exp(r)
    f, rest = ONE, {}
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == LOG and (
            int(c) == c and abs(c) <= 4
        ):
            q = ppow(ATOMS[m[0][0]].data, abs(int(c)))
            f = pmul(f, q if c > 0 else prcp(q))
        else:
            rest[m] = c
    if not rest:
        return f
    return pmul(f, {((exp_atom(rest).id, 1),): 1})


def squarefree(n):
    """n = s*s*k, k squarefree for small factors."""
    s, k, f = 1, 1, 2
    while f * f <= n and f < 2000:
        while n % (f * f) == 0:
            n //= f * f
            s *= f
        if n % f == 0:
            n //= f
            k *= f
        f += 1
    r = math.isqrt(n)
    if r * r == n:
        return s * r, k
    return s, k * n


def _primes(k):
    """Prime factors of a square-free integer (a large cofactor is kept)."""
    out = []
    d = 2
    while d * d <= k and d < 10000:
        while k % d == 0:
            out.append(d)
            k //= d
        d += 1
    if k > 1:
        out.append(k)
    return out


def sqrt_poly(p):
    c = pconst(p)
    if c is not None:
        if c == 0:
            return {}
        if c < 0:
            raise ValueError("sqrt of a negative constant")
        f = frac(c)
        s1, k1 = squarefree(f.numerator)
        s2, k2 = squarefree(f.denominator)
        # sqrt(f) = s1/s2*sqrt(k1/k2) = s1/(s2*k2)*sqrt(k1*k2)
        coef = norm_c(Fraction(s1, s2 * k2))
        k = k1 * k2
        if k == 1:
            return {(): coef}
        mono = []
        for q in _primes(k):
            a = atom(SQRT, pkey({(): q}), {(): q}, sign="pos")
            mono.append((a.id, 1))
        return {tuple(sorted(mono)): coef}
    lead, cm, q = content(p)
    if lead < 0:
        lead, q = -lead, pscale(q, -1)
    out = []
    rest = []
    for a, e in cm:
        if ATOMS[a].sign in ("pos", "nonneg"):
            h, r = divmod(e, 2)
            if h:
                out.append((a, h))
            if r:
                rest.append((a, r))
        else:
            rest.append((a, e))
    r = sqrt_poly({(): lead})
    if len(q) == 1 and list(q) and len(next(iter(q))) == 1:
        a, e = next(iter(q))[0]
        if ATOMS[a].kind == EXP:  # sqrt(exp(p)) = exp(p/2)
            r = pmul(r, exp_poly(pscale(ATOMS[a].data, Fraction(1, 2) * e)))
            q = ONE
    if rest:
        q = pmul(q, {tuple(rest): 1})
    if out:
        r = pmul(r, {tuple(out): 1})
    if pconst(q) == 1:
        return r
    # is q a perfect square of a linear form?  (x-y)^2 -> |x-y|
    root = _square_root(q)
    if root is not None:
        return pmul(r, pabs(root))
    a = atom(SQRT, pkey(q), q, sign="nonneg")
    return pmul(r, {((a.id, 1),): 1})


def _square_root(q):
    """Return p with p*p == q for small sums, else None."""
    n = len(q)
    if n > 15:
        return None
    # candidates: terms m^2
    sq = []
    for m, c in q.items():
        if all(e % 2 == 0 for _, e in m) and c > 0:
            f = frac(c)
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                sq.append((tuple((x, e // 2) for x, e in m),
                           norm_c(Fraction(a, b))))
    k = len(sq)
    if k == 0 or n != k * (k + 1) // 2 or k > 4:
        return None
    sq.sort()
    for bits in range(1 << (k - 1)):
        p = {}
        for i, (m, c) in enumerate(sq):
            p[m] = c if i == 0 or not (bits >> (i - 1)) & 1 else -c
        try:
            if pmul(p, p) == q:
                return p
        except Unsupported:
            return None
    return None


def psign(p):
    """Cheap syntactic sign: 'pos', 'nonneg', 'zero' or None."""
    if not p:
        return "zero"
    allpos = False
    for m, c in p.items():
        if c < 0:
            return None
        strict = True
        for a, e in m:
            s = ATOMS[a].sign
            if s == "pos":
                continue
            if e % 2 == 0:
                strict = strict and e < 0
                continue
            if s == "nonneg":
                strict = strict and e < 0
                continue
            return None
        allpos = allpos or strict
    return "pos" if allpos else "nonneg"


def pabs(p):
    s = psign(p)
    if s:
        return p
    q = pscale(p, -1)
    if psign(q):
        return q
    lead = p[max(p)]
    if lead < 0:
        p = q
    a = atom(SQRT, pkey(pmul(p, p)), pmul(p, p), sign="nonneg")
    return {((a.id, 1),): 1}


def primes(n):
    f = 2
    while f * f <= n and f < 5000:
        while n % f == 0:
            yield f
            n //= f
        f += 1
    if n > 1:
        yield n


def log_poly(p):
    c = pconst(p)
    if c is not None:
        if c <= 0:
            raise ValueError("log of a nonpositive constant")
        if c == 1:
            return {}
        f = frac(c)
        if f.numerator > 10**9 or f.denominator > 10**9:
            return lift(math.log(float(f))).p
        r = {}
        for q, s in ((f.numerator, 1), (f.denominator, -1)):
            for pr in primes(q):
                a = atom(LOG, pkey({(): pr}), {(): pr})
                r = padd(r, {((a.id, 1),): s})
        return r
    lead, cm, q = content(p)
    if lead < 0:
        lead, q = -lead, pscale(q, -1)
    r = log_poly({(): lead})
    rest = []
    for a, e in cm:
        if ATOMS[a].sign == "pos":
            r = padd(r, pscale(log_atom_poly(a), e))
        else:
            rest.append((a, e))
    if rest:
        q = pmul(q, {tuple(rest): 1})
    if len(q) == 1:
        (m, c), = q.items()
        if c == 1 and all(ATOMS[a].sign == "pos" for a, _ in m):
            for a, e in m:
                r = padd(r, pscale(log_atom_poly(a), e))
            return r
    a = atom(LOG, pkey(q), q)
    return padd(r, {((a.id, 1),): 1})


def log_atom_poly(aid):
    a = ATOMS[aid]
    if a.kind == EXP:
        return a.data
    if a.kind == DEN:
        return log_poly(a.data)
    if a.kind == SQRT:
        return pscale(log_poly(a.data), Fraction(1, 2))
    q = {((aid, 1),): 1}
    b = atom(LOG, pkey(q), q)
    return {((b.id, 1),): 1}


# --------------------------------------------------------------------------
# numbers -> exact constants

_consts = {}
_REC = [2, 3, 5, 6, 7, 10, 11, 13, 14, 15, 17, 19]


def float_poly(x):
    """Read a binary float as the simple number it stands for."""
    p = _consts.get(x)
    if p is not None:
        return p
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported(f"non-finite constant {x}")
    f = Fraction(x)
    if f.denominator > 1 << 20:
        g = f.limit_denominator(10**6)
        if g != 0 and float(g) == x:
            f = g
        else:
            # decimal literal such as 1e-14
            d = Fraction(repr(x))
            if d.denominator <= 10**6 or len(str(d.numerator)) <= 6:
                f = d
            else:
                sq = x * x
                g = Fraction(sq).limit_denominator(2000)
                if g > 0 and abs(math.sqrt(g) - abs(x)) <= 4e-16 * abs(x):
                    p = sqrt_poly({(): norm_c(g)})
                    if x < 0:
                        p = pscale(p, -1)
                    _consts[x] = p
                    return p
    f = norm_c(f)
    p = {(): f} if f != 0 else {}
    _consts[x] = p
    return p


# --------------------------------------------------------------------------
# Sym


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return ite(x, 1, 0)
    if isinstance(x, bool):
        return Sym({(): 1} if x else {})
    if isinstance(x, int):
        return Sym({(): x} if x else {})
    if isinstance(x, Fraction):
        x = norm_c(x)
        return Sym({(): x} if x else {})
    if isinstance(x, float):
        return Sym(float_poly(x))
    if hasattr(x, "item") and getattr(x, "shape", None) == ():
        return lift(x.item())
    if hasattr(x, "item") and getattr(x, "size", None) == 1 and not callable(
        getattr(x, "size", None)
    ):
        return lift(x.item())
    raise TypeError(f"cannot lift {type(x)}")


def _liftable(x):
    return isinstance(x, (Sym, SymBool, int, float, Fraction)) or (
        hasattr(x, "dtype") and getattr(x, "shape", None) == ()
    )


class Sym(Number):
    # p: the polynomial; f: the two factors when it was made as a product
    __slots__ = ("p", "f")
    __array_priority__ = 0

    def __init__(self, p, f=None):
        self.p = p
        self.f = f

    # attributes of numpy scalars that code may look at
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        import numpy

        return numpy.dtype(float)

    @property
    def T(self):
        return self

    def item(self):
        return self

    def astype(self, t, **k):
        return cast_scalar(self, t)

    def copy(self):
        return self

    def squeeze(self, *a):
        return self

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def reshape(self, *shape, **k):
        return self._arr().reshape(*shape)

    def flatten(self):
        return self._arr().reshape(1)

    ravel = flatten

    def _arr(self):
        from . import arr

        return arr.wrap0(self)

    def __getitem__(self, k):
        return self._arr()[k]

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def isint(self):
        for m, c in self.p.items():
            if isinstance(c, Fraction):
                return False
            for a, e in m:
                if ATOMS[a].sort != "I" or e < 0:
                    return False
        return True

    def const(self):
        return pconst(self.p)

    def __add__(self, o):
        if not _liftable(o):
            return NotImplemented
        return Sym(padd(self.p, lift(o).p))

    __radd__ = __add__

    def __sub__(self, o):
        if not _liftable(o):
            return NotImplemented
        return Sym(padd(self.p, lift(o).p, -1))

    def __rsub__(self, o):
        if not _liftable(o):
            return NotImplemented
        return Sym(padd(lift(o).p, self.p, -1))

    def __mul__(self, o):
        if not _liftable(o):
            return NotImplemented
        o = lift(o)
        return Sym(pmul(self.p, o.p),
                   (self, o) if len(self.p) > 1 or len(o.p) > 1 else None)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _liftable(o):
            return NotImplemented
        return div(self, lift(o))

    def __rtruediv__(self, o):
        if not _liftable(o):
            return NotImplemented
        return div(lift(o), self)

    def __floordiv__(self, o):
        if not _liftable(o):
            return NotImplemented
        return floordiv(self, lift(o))

    def __rfloordiv__(self, o):
        return floordiv(lift(o), self)

    def __mod__(self, o):
        if not _liftable(o):
            return NotImplemented
        return self - lift(o) * floordiv(self, lift(o))

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        q = floordiv(self, lift(o))
        return q, self - lift(o) * q

    def __neg__(self):
        return Sym(pscale(self.p, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.isint():
            return ite(self >= 0, self, -self)
        return Sym(pabs(self.p))

    def __pow__(self, o):
        if not _liftable(o):
            return NotImplemented
        return power(self, lift(o))

    def __rpow__(self, o):
        if not _liftable(o):
            return NotImplemented
        return power(lift(o), self)

    def __lt__(self, o):
        if not _liftable(o):
            return NotImplemented
        return cmp("<", self, o)

    def __le__(self, o):
        if not _liftable(o):
            return NotImplemented
        return cmp("<=", self, o)

    def __gt__(self, o):
        if not _liftable(o):
            return NotImplemented
        return cmp("<", o, self)

    def __ge__(self, o):
        if not _liftable(o):
            return NotImplemented
        return cmp("<=", o, self)

    def __eq__(self, o):
        if not _liftable(o):
            return NotImplemented
        return cmp("==", self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return bnot(r)

    def __hash__(self):
        return hash(pkey(self.p))

    def __bool__(self):
        return bool(cmp("!=", self, 0))

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        if not any(free_vars_poly(self.p)):
            return float(eval_poly(self.p, {}))
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        return concretize(trunc(self))

    def __index__(self):
        c = self.const()
        if c is not None:
            if frac(c).denominator != 1:
                raise TypeError("non-integer index")
            return int(c)
        if not self.isint():
            raise TypeError("non-integer index")
        return concretize(self)

    def __round__(self, n=None):
        c = self.const()
        if c is not None:
            return round(float(c), n)
        raise Unsupported("round of a symbolic value")

    def __floor__(self):
        return floor(self)

    def __trunc__(self):
        return trunc(self)

    def __ceil__(self):
        return -floor(-self)

    def conjugate(self):
        return self

    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def __repr__(self):
        return fmt(self.p)

    def __format__(self, spec):
        c = self.const()
        return format(float(c), spec) if c is not None else repr(self)


def fmt(p, depth=0):
    if not p:
        return "0"
    if len(p) > 6 or depth > 3:
        return f"<{len(p)} terms>"
    out = []
    for m, c in p.items():
        t = "*".join(
            fmt_atom(ATOMS[a], depth) + (f"^{e}" if e != 1 else "")
            for a, e in m
        )
        out.append(t if c == 1 and t else (f"{c}*{t}" if t else f"{c}"))
    return " + ".join(out)


def fmt_atom(a, depth=0):
    if a.kind in (SQRT, EXP, LOG, DEN):
        nm = {SQRT: "sqrt", EXP: "exp", LOG: "log", DEN: ""}[a.kind]
        return f"{nm}({fmt(a.data, depth + 1)})"
    return a.name


def sqrt(x):
    x = lift(x)
    d = decide_nonneg(x)
    if d is False:
        raise Unsupported("sqrt of a negative value (nan)")
    return Sym(sqrt_poly(x.p))


def decide_nonneg(x):
    """In branchless code sqrt of a negative value gives nan; fork on it."""
    if psign(x.p):
        return True
    c = x.const()
    if c is not None:
        return c >= 0
    if EX is None:
        return True
    return EX.domain(cmp("<=", 0, x), "sqrt argument >= 0")


def exp(x):
    return Sym(exp_poly(lift(x).p))


def log(x):
    x = lift(x)
    if psign(x.p) != "pos" and x.const() is None and EX is not None:
        EX.domain(cmp("<", 0, x), "log argument > 0")
    return Sym(log_poly(x.p))


def div(a, b):
    if psign(b.p) != "pos":
        c = b.const()
        if c == 0:
            raise ZeroDivisionError("division by zero")
        if c is None and EX is not None:
            s = _nonzero(b.p)
            if not s:
                EX.domain(bnot(cmp("==", b, 0)), "divisor != 0")
    return Sym(pmul(a.p, prcp(b.p)))


def _nonzero(p):
    if len(p) == 1:
        (m, c), = p.items()
        return all(e < 0 or ATOMS[a].sign == "pos" for a, e in m)
    return psign(pscale(p, -1)) == "pos"


def power(a, b):
    cb = b.const()
    if cb is not None:
        f = frac(cb)
        if f.denominator == 1:
            n = int(f)
            if n < 0:
                return div(Sym(ONE), Sym(ppow(a.p, -n)))
            if n <= 64:
                return Sym(ppow(a.p, n))
        elif f.denominator == 2:
            r = Sym(ppow(sqrt(a).p, abs(f.numerator)))
            return r if f > 0 else div(Sym(ONE), r)
    ca = a.const()
    if ca == 1:
        return a
    if psign(a.p) == "pos":
        return exp(b * log(a))
    return uf("pow", (a, b), lambda x, y: x**y)


def uf(name, args, ev, sign=None, sort="R"):
    """Uninterpreted function application (numeric evaluator ``ev``)."""
    args = tuple(lift(a) for a in args)
    key = (name, tuple(pkey(a.p) for a in args))
    at = atom(UF, key, (name, args, ev), sort=sort, sign=sign,
              name=f"{name}_{len(ATOMS)}")
    return Sym({((at.id, 1),): 1})


def floor(x):
    x = lift(x)
    c = x.const()
    if c is not None:
        return Sym({(): math.floor(frac(c))} if math.floor(frac(c)) else {})
    if x.isint():
        return x
    at = atom(FLOOR, pkey(x.p), x.p, sort="I", name=f"floor_{len(ATOMS)}")
    return Sym({((at.id, 1),): 1})


def trunc(x):
    x = lift(x)
    if x.isint():
        return x
    c = x.const()
    if c is not None:
        return lift(int(frac(c)))
    if psign(x.p):
        return floor(x)
    return ite(x >= 0, floor(x), -floor(-x))


def floordiv(a, b):
    c = b.const()
    if c is not None and a.const() is not None:
        return lift(math.floor(frac(a.const()) / frac(c)))
    if c is None and EX is not None and psign(b.p) != "pos":
        if bool(cmp("==", b, 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
    return floor(Sym(pmul(a.p, prcp(b.p))))


def cast_scalar(x, t):
    import numpy

    t = numpy.dtype(t) if not isinstance(t, type) or t in (
        int, float, bool) else numpy.dtype(t)
    if t.kind in "iu":
        return trunc(x)
    if t.kind == "b":
        return x != 0
    return x


def concretize(x):
    """Fork over the feasible integer values of x."""
    x = lift(x)
    c = x.const()
    if c is not None:
        return int(c)
    if EX is None:
        raise Unsupported("concretising outside a path")
    return EX.concretize(x)


# --------------------------------------------------------------------------
# booleans


class SymBool:
    """op: 'cmp' (args = (rel, poly)), 'and', 'or', 'not'."""

    __slots__ = ("op", "args", "_key", "_z")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._key = None
        self._z = None

    @property
    def key(self):
        if self._key is None:
            if self.op == "cmp":
                self._key = ("cmp", self.args[0], pkey(self.args[1]))
            else:
                self._key = (self.op,) + tuple(a.key for a in self.args)
        return self._key

    def __bool__(self):
        if EX is None:
            raise Unsupported("truth of a symbolic value outside a path")
        return EX.branch(self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return bor(band(self, bnot(o)), band(bnot(self), o))

    __rxor__ = __xor__

    def __invert__(self):
        return bnot(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ == "bool_":
            return bnot(self ^ o)
        if _liftable(o):
            return lift(self) == o
        return NotImplemented

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return hash(self.key)

    def _l(self):
        return lift(self)

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return o - lift(self)

    def __mul__(self, o):
        return lift(self) * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return lift(self) / o

    def __rtruediv__(self, o):
        return o / lift(self)

    def __neg__(self):
        return -lift(self)

    def __lt__(self, o):
        return lift(self) < o

    def __gt__(self, o):
        return lift(self) > o

    def __le__(self, o):
        return lift(self) <= o

    def __ge__(self, o):
        return lift(self) >= o

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def item(self):
        return self

    def all(self, *a, **k):
        return self

    any = all

    def astype(self, t, **k):
        import numpy

        return self if numpy.dtype(t).kind == "b" else lift(self)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if self.op == "cmp":
            return f"({fmt(self.args[1])} {self.args[0]} 0)"
        return f"{self.op}{self.args}"


def _b(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return cmp("!=", x, 0)
    return bool(x)


def band(*xs):
    out = []
    for x in xs:
        x = _b(x)
        if x is True:
            continue
        if x is False:
            return False
        if all(x.key != y.key for y in out):
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", tuple(out))


def bor(*xs):
    out = []
    for x in xs:
        x = _b(x)
        if x is False:
            continue
        if x is True:
            return True
        if all(x.key != y.key for y in out):
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool("or", tuple(out))


def bnot(x):
    x = _b(x)
    if isinstance(x, bool):
        return not x
    if x.op == "not":
        return x.args[0]
    if x.op == "cmp":
        rel, p = x.args
        if rel == "==":
            return SymBool("cmp", ("!=", p))
        if rel == "!=":
            return SymBool("cmp", ("==", p))
        if rel == "<":  # not p<0  ->  -p <= 0
            return SymBool("cmp", ("<=", pscale(p, -1)))
        return SymBool("cmp", ("<", pscale(p, -1)))
    return SymBool("not", (x,))


def cmp(rel, a, b):
    for v, flip in ((a, False), (b, True)):
        if isinstance(v, float) or type(v).__name__.startswith("float"):
            f = float(v)
            if f != f:
                return rel == "!="
            if f in (math.inf, -math.inf):
                if rel in ("==", "!="):
                    return rel == "!="
                return (f < 0) != flip
    p = padd(lift(a).p, lift(b).p, -1)
    return cmp0(rel, p)


def cmp0(rel, p):
    c = pconst(p)
    if c is not None:
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[rel]
    if not any(True for _ in free_vars_poly(p)):
        v = eval_poly(p, {})
        if abs(v) > 1e-12:
            return {"<": v < 0, "<=": v < 0, "==": False, "!=": True}[rel]
    s = psign(p)
    if s == "pos":
        return {"<": False, "<=": False, "==": False, "!=": True}[rel]
    if s == "nonneg" and rel == "<":
        return False
    s2 = psign(pscale(p, -1))
    if s2 == "pos":
        return {"<": True, "<=": True, "==": False, "!=": True}[rel]
    if s2 == "nonneg" and rel == "<=":
        return True
    if rel in ("==", "!="):
        lead = p[max(p)]
        if lead < 0:
            p = pscale(p, -1)
    return SymBool("cmp", (rel, p))


def ite(c, a, b):
    c = _b(c)
    if c is True:
        return a if is_sym(a) else lift(a)
    if c is False:
        return b if is_sym(b) else lift(b)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return bor(band(c, a), band(bnot(c), b))
    a, b = lift(a), lift(b)
    if pkey(a.p) == pkey(b.p):
        return a
    sort = "I" if a.isint() and b.isint() else "R"
    sa, sb = psign(a.p), psign(b.p)
    sign = None
    if sa and sb:
        sign = "pos" if sa == sb == "pos" else "nonneg"
    at = atom(ITE, (c.key, pkey(a.p), pkey(b.p)), (c, a, b), sort=sort,
              sign=sign, name=f"ite_{len(ATOMS)}")
    return Sym({((at.id, 1),): 1})


# --------------------------------------------------------------------------
# inverse matrices

MATINV = {}  # key -> record
MATREG = []


class InvRec:
    def __init__(self, idx, n, rows, sym):
        self.idx = idx
        self.n = n
        self.rows = rows  # list of list of Sym
        self.sym = sym


def mat_key(rows):
    return tuple(tuple(pkey(e.p) for e in r) for r in rows)


LINALG = {"mode": "opaque", "exact_max": 3}


def mat_inverse(rows):
    """rows: list of lists of Sym -> list of lists of Sym."""
    n = len(rows)
    if n == 1:
        return [[div(Sym(ONE), rows[0][0])]]
    # diagonal matrices
    if all(not rows[i][j].p for i in range(n) for j in range(n) if i != j):
        return [
            [div(Sym(ONE), rows[i][i]) if i == j else Sym({})
             for j in range(n)] for i in range(n)
        ]
    if all(e.const() is not None for r in rows for e in r):
        return exact_inverse(rows)
    if LINALG["mode"] == "exact" and n <= LINALG["exact_max"]:
        return exact_inverse(rows)
    com = common_factor(rows)
    if com is not None:
        s, rest = com
        return [[div(e, s) for e in r] for r in mat_inverse(rest)]
    key = mat_key(rows)
    rec = MATINV.get(key)
    if rec is not None:
        return [[inv_entry(rec, i, j) for j in range(n)] for i in range(n)]
    # the same matrix with rows and columns permuted
    m = match_perm(rows, key)
    if m is not None:
        rec, perm = m
        return [
            [inv_entry(rec, perm[i], perm[j]) for j in range(n)]
            for i in range(n)
        ]
    sym = all(key[i][j] == key[j][i] for i in range(n) for j in range(i))
    rec = InvRec(len(MATREG), n, rows, sym)
    MATREG.append(rec)
    MATINV[key] = rec
    return [[inv_entry(rec, i, j) for j in range(n)] for i in range(n)]


def common_factor(rows):
    """(s, R) with rows = s R: a scalar factor of all entries, found as a
    monomial or from the products the entries were made as."""
    ent = [e for r in rows for e in r if e.p]
    for s in ent[0].f or ():
        if s.const() is not None:
            continue
        k = pkey(s.p)
        rest = {}
        for e in ent:
            for x, y in ((e.f, e.f[::-1]) if e.f else ()):
                if pkey(x.p) == k:
                    rest[id(e)] = y
                    break
            else:
                break
        else:
            return s, [[rest.get(id(e), e) for e in r] for r in rows]
    low = None
    for e in ent:
        for m in e.p:
            d = {a: q for a, q in m if ATOMS[a].kind not in (SQRT, EXP)}
            if low is None:
                low = d
            else:
                low = {a: min(q, d.get(a, 0)) for a, q in low.items()
                       if min(q, d.get(a, 0))} | {
                    a: q for a, q in d.items() if q < 0 and a not in low}
    if not low:
        return None
    m = tuple(sorted(low.items()))
    inv = tuple((a, -q) for a, q in m)
    return Sym({m: 1}), [
        [Sym({mmul(t, inv)[0]: c for t, c in e.p.items()}) for e in r]
        for r in rows]


def match_perm(rows, key):
    n = len(rows)
    if n > 8:
        return None
    sig = sorted(
        (hash(key[i][i]), tuple(sorted(hash(k) for k in key[i])))
        for i in range(n)
    )
    for rec in MATREG:
        if rec.n != n:
            continue
        k2 = mat_key(rec.rows)
        sig2 = sorted(
            (hash(k2[i][i]), tuple(sorted(hash(k) for k in k2[i])))
            for i in range(n)
        )
        if sig != sig2:
            continue
        perm = []

        def rec_match(i):
            if i == n:
                return True
            for j in range(n):
                if j in perm:
                    continue
                if all(
                    key[i][t] == k2[j][perm[t]] and key[t][i] == k2[perm[t]][j]
                    for t in range(i)
                ) and key[i][i] == k2[j][j]:
                    perm.append(j)
                    if rec_match(i + 1):
                        return True
                    perm.pop()
            return False

        if rec_match(0):
            return rec, perm
    return None


def inv_entry(rec, i, j):
    if rec.sym and i > j:
        i, j = j, i
    a = atom(INV, (rec.idx, i, j), (rec, i, j), name=f"inv{rec.idx}_{i}_{j}",
             sign="pos" if rec.sym and i == j and False else None)
    return Sym({((a.id, 1),): 1})


def det(rows):
    n = len(rows)
    if n == 0:
        return Sym(ONE)
    if n == 1:
        return rows[0][0]
    tot = Sym({})
    for j in range(n):
        if not rows[0][j].p:
            continue
        minor = [r[:j] + r[j + 1:] for r in rows[1:]]
        t = rows[0][j] * det(minor)
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


def exact_inverse(rows):
    n = len(rows)
    d = det(rows)
    rd = div(Sym(ONE), d)
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [r[:i] + r[i + 1:] for k, r in enumerate(rows) if k != j]
            c = det(minor)
            out[i][j] = (c if (i + j) % 2 == 0 else -c) * rd
    return out


# --------------------------------------------------------------------------
# traversal, numeric evaluation, z3


def atom_polys(a):
    """Sub-terms of an atom: list of polys, list of SymBools."""
    if a.kind == VAR:
        return (), ()
    if a.kind in (SQRT, EXP, LOG, DEN, FLOOR):
        return (a.data,), ()
    if a.kind == UF:
        return tuple(x.p for x in a.data[1]), ()
    if a.kind == ITE:
        c, x, y = a.data
        return (x.p, y.p), (c,)
    if a.kind == INV:
        rec = a.data[0]
        return tuple(e.p for r in rec.rows for e in r), ()
    raise AssertionError


def free_vars_poly(p, seen=None):
    seen = set() if seen is None else seen
    for m in p:
        for a, _ in m:
            if a in seen:
                continue
            seen.add(a)
            at = ATOMS[a]
            if at.kind == VAR:
                yield at
            else:
                ps, bs = atom_polys(at)
                for q in ps:
                    yield from free_vars_poly(q, seen)
                for b in bs:
                    yield from free_vars_bool(b, seen)


def free_vars_bool(b, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(b, SymBool):
        return
    if b.op == "cmp":
        yield from free_vars_poly(b.args[1], seen)
    else:
        for x in b.args:
            yield from free_vars_bool(x, seen)


def conds_poly(p, seen, out):
    """Conditions of the if-then-else terms of a polynomial."""
    for m in p:
        for a, _ in m:
            if a in seen:
                continue
            seen.add(a)
            at = ATOMS[a]
            if at.kind == VAR:
                continue
            ps, bs = atom_polys(at)
            for q in ps:
                conds_poly(q, seen, out)
            for b in bs:
                conds_bool(b, seen, out, at.kind == ITE)
    return out


def conds_bool(b, seen, out, leaf=False):
    if not isinstance(b, SymBool):
        return out
    if b.op == "cmp":
        if leaf:
            out.append(b)
        conds_poly(b.args[1], seen, out)
    else:
        for x in b.args:
            conds_bool(x, seen, out, leaf)
    return out


class NumEnv(dict):
    """Numeric assignment {var name: value} with memoised atom values."""

    def __init__(self, *a):
        super().__init__(*a)
        self.memo = {}
        self.inv = {}


def eval_poly(p, env):
    if not isinstance(env, NumEnv):
        env = NumEnv(env)
    tot = 0.0
    for m, c in p.items():
        t = float(c)
        for a, e in m:
            v = eval_atom(ATOMS[a], env)
            t *= v**e if e != 1 else v
        tot += t
    return tot


def eval_atom(a, env):
    v = env.memo.get(a.id)
    if v is not None:
        return v
    if a.kind == VAR:
        v = float(env[a.name])
    elif a.kind == SQRT:
        x = eval_poly(a.data, env)
        v = math.sqrt(x) if x >= 0 else (0.0 if x > -1e-12 else math.nan)
    elif a.kind == EXP:
        x = eval_poly(a.data, env)
        v = math.exp(x) if x < 700 else math.inf
    elif a.kind == LOG:
        x = eval_poly(a.data, env)
        v = math.log(x) if x > 0 else math.nan
    elif a.kind == DEN:
        v = eval_poly(a.data, env)
    elif a.kind == FLOOR:
        v = float(math.floor(eval_poly(a.data, env) + 1e-12))
    elif a.kind == UF:
        v = float(a.data[2](*[eval_poly(x.p, env) for x in a.data[1]]))
    elif a.kind == ITE:
        c, x, y = a.data
        v = eval_poly((x if eval_bool(c, env) else y).p, env)
    elif a.kind == INV:
        import numpy

        rec, i, j = a.data
        mat = env.inv.get(rec.idx)
        if mat is None:
            mat = numpy.linalg.inv(
                numpy.array(
                    [[eval_poly(e.p, env) for e in r] for r in rec.rows],
                    dtype=float,
                )
            )
            env.inv[rec.idx] = mat
        v = float(mat[i, j])
    env.memo[a.id] = v
    return v


def eval_bool(b, env, tol=0.0):
    if not isinstance(env, NumEnv):
        env = NumEnv(env)
    if isinstance(b, bool):
        return b
    if b.op == "cmp":
        rel, p = b.args
        v = eval_poly(p, env)
        if v != v:
            return False
        z = 1e-12 if rel in ("==", "!=") else 0.0
        return {
            "<": v < 0, "<=": v <= 1e-15, "==": abs(v) <= z, "!=": abs(v) > z,
        }[rel]
    if b.op == "and":
        return all(eval_bool(x, env) for x in b.args)
    if b.op == "or":
        return any(eval_bool(x, env) for x in b.args)
    return not eval_bool(b.args[0], env)


def eval_sym(x, env):
    if isinstance(x, Sym):
        return eval_poly(x.p, env)
    if isinstance(x, SymBool):
        return eval_bool(x, env)
    return x


def zc(c, sort="R"):
    if sort == "I" and not isinstance(c, Fraction):
        return z3.IntVal(c)
    f = frac(c)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def zinv(a):
    r = INVZ.get(a.id)
    if r is None:
        r = z3.Real("inv!" + a.name)
        INVZ[a.id] = r
    return r


def to_z3(p, atoms):
    """Convert a poly; record atoms used (ids) in ``atoms``.

    Atoms with negative exponents are recorded as ('inv', id).
    """
    isint = all(
        not isinstance(c, Fraction)
        and all(ATOMS[a].sort == "I" and e > 0 for a, e in m)
        for m, c in p.items()
    )
    terms = []
    for m, c in sorted(p.items()):
        t = []
        if c != 1 or not m:
            t.append(zc(c, "I" if isint else "R"))
        for a, e in m:
            at = ATOMS[a]
            atoms.add(a)
            if e < 0:
                atoms.add(("inv", a))
                z = zinv(at)
            else:
                z = at.z
                if at.sort == "I" and not isint:
                    z = z3.ToReal(z)
            t += [z] * abs(e)
        terms.append(t[0] if len(t) == 1 else z3.Product(t))
    if not terms:
        return z3.IntVal(0) if isint else z3.RealVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def bool_z3(b, atoms):
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if b.op == "cmp":
        rel, p = b.args
        # p rel 0, written as positive part rel negative part
        l = to_z3(p, atoms)
        zero = z3.IntVal(0) if l.is_int() else z3.RealVal(0)
        return {
            "<": lambda: l < zero, "<=": lambda: l <= zero,
            "==": lambda: l == zero, "!=": lambda: l != zero,
        }[rel]()
    xs = [bool_z3(x, atoms) for x in b.args]
    return {"and": z3.And, "or": z3.Or, "not": lambda *a: z3.Not(a[0])}[b.op](
        *xs
    )


def linear_z3(b, mono):
    """As bool_z3, every monomial a variable (collected in ``mono``)."""
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if b.op != "cmp":
        xs = [linear_z3(x, mono) for x in b.args]
        return {"and": z3.And, "or": z3.Or,
                "not": lambda *a: z3.Not(a[0])}[b.op](*xs)
    rel, p = b.args
    ts = []
    for m, k in sorted(p.items()):
        if not m:
            ts.append(zc(k, "R"))
            continue
        v = mono.get(m)
        if v is None:
            good = all(e % 2 == 0 or ATOMS[a].sign in ("pos", "nonneg")
                       for a, e in m)
            v = mono[m] = (z3.Real(f"m!{len(mono)}"), good)
        ts.append(zc(k, "R") * v[0])
    l = z3.Sum(ts) if ts else z3.RealVal(0)
    return {"<": l < 0, "<=": l <= 0, "==": l == 0, "!=": l != 0}[rel]


def axioms(atoms):
    """Axioms for all atoms reachable from ``atoms``."""
    out = []
    done = set()
    work = list(atoms)
    exps = []
    while work:
        x = work.pop()
        if x in done:
            continue
        done.add(x)
        new = set()
        if isinstance(x, tuple):
            a = ATOMS[x[1]]
            z = z3.ToReal(a.z) if a.sort == "I" else a.z
            out.append(zinv(a) * z == 1)
            if a.sign == "pos":
                out.append(zinv(a) > 0)
            work.append(x[1])
            continue
        a = ATOMS[x]
        z = a.z
        if a.kind == SQRT:
            d = to_z3(a.data, new)
            if d.is_int():
                d = z3.ToReal(d)
            out += [z * z == d, z >= 0]
        elif a.kind == EXP:
            d = to_z3(a.data, new)
            if d.is_int():
                d = z3.ToReal(d)
            out += [z > 0, z >= 1 + d, z3.Implies(d <= 0, z <= 1),
                    z3.Implies(d < 0, z < 1)]
            for z2, d2 in exps:
                out.append((d < d2) == (z < z2))
                out.append((d == d2) == (z == z2))
            exps.append((z, d))
        elif a.kind == LOG:
            d = to_z3(a.data, new)
            if d.is_int():
                d = z3.ToReal(d)
            out += [z <= d - 1, d > 0, (z > 0) == (d > 1)]
        elif a.kind == DEN:
            out += [z == to_z3(a.data, new), z != 0]
        elif a.kind == FLOOR:
            d = to_z3(a.data, new)
            zz = z3.ToReal(z)
            out += [zz <= d, d < zz + 1]
        elif a.kind == UF:
            for y in a.data[1]:
                to_z3(y.p, new)
        elif a.kind == ITE:
            c, p, q = a.data
            zcnd = bool_z3(c, new)
            zp, zq = to_z3(p.p, new), to_z3(q.p, new)
            zz = z
            if not z.is_int():
                zp = z3.ToReal(zp) if zp.is_int() else zp
                zq = z3.ToReal(zq) if zq.is_int() else zq
            out += [z3.Implies(zcnd, zz == zp), z3.Implies(z3.Not(zcnd), zz == zq)]
        elif a.kind == INV:
            rec, _, _ = a.data
            if ("rec", rec.idx) not in done:
                done.add(("rec", rec.idx))
                n = rec.n
                if n <= 4:
                    for i in range(n):
                        for k in range(n):
                            s = z3.Sum([
                                to_z3(rec.rows[i][j].p, new)
                                * ATOMS[list(inv_entry(rec, j, k).p)[0][0][0]].z
                                for j in range(n)
                            ])
                            out.append(s == (1 if i == k else 0))
                            for j in range(n):
                                new.add(list(inv_entry(rec, j, k).p)[0][0][0])
        if a.sign == "pos":
            out.append(z > 0)
        elif a.sign == "nonneg":
            out.append(z >= 0)
        work.extend(new)
    return out


# --------------------------------------------------------------------------
# equality up to denominators


def clear_den(p):
    """Multiply p by its denominators (nonzero) until none is left."""
    for _ in range(40):
        worst = None
        for m in p:
            for a, e in m:
                if e < 0 and (worst is None or (a > worst)):
                    worst = a
        if worst is None:
            return p
        k = max(-e for m in p for a, e in m if a == worst and e < 0)
        at = ATOMS[worst]
        repl = at.data if at.kind == DEN else {((worst, 1),): 1}
        pows = {}
        r = {}
        for m, c in p.items():
            e = 0
            rest = []
            for a, x in m:
                if a == worst:
                    e = x
                else:
                    rest.append((a, x))
            n = e + k
            if n not in pows:
                pows[n] = ppow(repl, n)
            r = padd(r, pmul({tuple(rest): c}, pows[n]))
        # positive powers of DEN atoms: expand as well
        p = r
    return p


def expand_den(p):
    """Replace positive powers of DEN atoms by their definitions."""
    for _ in range(40):
        hit = None
        for m in p:
            for a, e in m:
                if ATOMS[a].kind == DEN and e > 0:
                    hit = a
                    break
            if hit is not None:
                break
        if hit is None:
            return p
        r = {}
        for m, c in p.items():
            e = 0
            rest = []
            for a, x in m:
                if a == hit and x > 0:
                    e = x
                else:
                    rest.append((a, x))
            t = {tuple(rest): c}
            if e:
                t = pmul(t, ppow(ATOMS[hit].data, e))
            r = padd(r, t)
        p = r
    return p


def is_zero(p, ref=0):
    """Decide p == 0 by normalisation (True / False = not by this means)."""
    if not p:
        return True
    try:
        p = expand_den(p)
        if not p:
            return True
        p = clear_den(p)
        p = expand_den(p)
    except Blowup:
        return False
    return not p


EX = None  # current explorer


def set_explorer(e):
    global EX
    EX = e


def timed_check(solver, *assume):
    t = time.time()
    r = solver.check(*assume)
    return r, time.time() - t
