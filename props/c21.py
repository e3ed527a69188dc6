"""C21: objects are independent, and calls leave their arguments alone."""

import importlib

import numpy as np

from symx import core, registry
from symx.registry import Case, case

from .common import (
    M, SMOOTH, cross, dot, gram, idx, kernel, kfn, num, one_value)

B2 = ("numpy", "torch")
OTHERS = [f"C{k:02d}" for k in range(1, 23) if k != 21]


SILENCED = ("eq", "check", "ok", "eqs", "report", "eq_known")


class Watch:
    """Silences a context's own checks and remembers the arrays it made."""

    def __init__(self, c):
        self.c, self.seen = c, []
        self.own = {q: getattr(c, q) for q in SILENCED if hasattr(c, q)}
        arr, quiet = c.arr, lambda *a, **k: None

        def make(a, backend=None):
            return self.add(arr(a, backend))

        def attempt(fn, exc, label):
            try:
                fn()
            except exc:
                pass

        c.arr, c.track = make, self.add
        for q in self.own:
            setattr(c, q, quiet)
        c.raises = attempt

    def add(self, a):
        self.seen.append((a, self.items(a)))
        return a

    def items(self, a):
        if self.c.sym:
            from symx import arr as sa

            a = sa.base(a)
        elif hasattr(a, "detach"):
            a = a.detach().numpy()
        a = np.asarray(a)
        return a.shape, a.dtype, list(a.reshape(-1))

    def verify(self):
        c, old, new = self.c, [], []
        for q, fn in self.own.items():
            setattr(c, q, fn)
        for a, (shape, dtype, vals) in self.seen:
            s, d, v = self.items(a)
            c.ok(s == shape and d == dtype, "an argument's shape",
                 f"{shape} {dtype} became {s} {d}")
            for x, y in zip(vals, v):
                if x is not y or not c.sym:
                    old.append(x)
                    new.append(y)
        if not c.sym:
            c.ok(len(old) == 0 or bool(np.array_equal(
                np.array(old, dtype=object), np.array(new, dtype=object))),
                "an argument's values")
            return
        if old:
            c.eq(np.array(new, dtype=object), np.array(old, dtype=object),
                 "an argument's values")


TABLE = {}
NO_ARRAYS = {("C05", "nullmodel"), ("C07", "fixed"), ("C13", "sizes")}


def inputs(c, of):
    """A harness of another property leaves the arrays it passes alone."""
    inner = TABLE[of]
    w = Watch(c)
    try:
        inner.fn(c, **inner.params)
    except (core.Unsupported, AssertionError):
        raise
    except Exception:
        pass  # whatever it means for the other property
    w.verify()


def collect(prop):
    """The cases of another property."""
    keep = list(registry.CASES)
    mod = importlib.import_module("props." + prop.lower())
    registry.CASES.clear()
    importlib.reload(mod)
    own = [q for q in registry.CASES if q.fn.__module__ == mod.__name__]
    registry.CASES[:] = keep
    return own


def register():
    for prop in OTHERS:
        if prop == "C11":
            continue  # parameters, no arrays
        n = {}
        for q in collect(prop):
            if (prop, q.name) in NO_ARRAYS or q.tier != "quick" or q.backend == "mpi" or (
                    q.opts.get("ranks") or q.opts.get("budget")):
                continue
            k = n[q.name, q.backend] = n.get((q.name, q.backend), 0) + 1
            if k > 3:
                continue
            of = f"{prop}:{q.name}:{k}:{q.backend}"
            TABLE[of] = q
            registry.CASES.append(Case(
                inputs, "inputs", dict(of=of), q.backend,
                "quick" if k == 1 else "thorough", dict(q.opts)))


register()


# -- objects -------------------------------------------------------------


KINDS = ("rbf", "m05", "m15", "m25", "minf")


def default(m, kind):
    if kind == "rbf":
        return m.RBF()
    return m.Matern(smoothness=m.P(SMOOTH[kind]))


def covs(c, kind, K, ls, label, D=None, raw=None):
    """A kernel's values at tracked distances are those of the oracle."""
    c.eq(K(D), values(c, kind, raw, ls), label)


def values(c, kind, raw, ls):
    e = np.empty(raw.shape, dtype=object)
    for i in np.ndindex(*raw.shape):
        d = raw[i] / ls
        e[i] = kfn(c, kind, d * d if kind != "rbf" else raw[i] / (ls * ls))
    return num(c, e)


@case("defaults", grid=[dict(kind=k) for k in KINDS], backends=B2)
def defaults(c, kind):
    """Kernels built without a deformation share nothing."""
    m = M()
    D = c.reals("D", (1, 2, 2), 0.1, 2.0, pos=True)
    raw = np.array(c.raw(D))
    one, th, ph = c.const(1), c.pos("new", 0.5, 2), c.pos("newer", 0.5, 2)
    a, b = default(m, kind), default(m, kind)
    K = [(a, one), (b, one)]

    def look(label):
        for i, (k, v) in enumerate(K):
            c.eq(k(D), values(c, kind, raw, v), f"kernel {i}, {label}")
            c.eq(k.get_opt_fn()(D), values(c, kind, raw, v),
                 f"objective of kernel {i}, {label}")
            c.eq(k.deformation.length_scale(), v, f"value {i}, {label}")

    look("new")
    a.set_params(length_scale=m.P(th))
    K = [(a, th), (b, one), (default(m, kind), one)]
    look("one is set")
    b.set_params(length_scale=m.P(ph))
    K = [(a, th), (b, ph), (K[2][0], one), (default(m, kind), one)]
    look("another is set")


@case("given", grid=[dict(kind=k, other=o) for k, o in zip(
    KINDS, ("m05", "rbf", "m15", "m05", "m25"))], backends=B2)
def given(c, kind, other):
    """Kernels given the same parameter keep their own copies of it."""
    m = M()
    D = c.reals("D", (1, 2, 2), 0.1, 2.0, pos=True)
    raw = np.array(c.raw(D))
    ell, th, ph = (c.pos(s, 0.5, 2) for s in ("ell", "new", "newer"))
    c.assume((ell >= 0.25) & (ell <= 4.0) & (th >= 0.25) & (th <= 4.0))
    P = m.P(ell, (0.1, 5.0))
    Q = m.P(th, (0.2, 4.0))
    mk = lambda k: (  # noqa: E731
        m.RBF(deformation=m.Isotropy(m.F2, length_scale=P)) if k == "rbf"
        else m.Matern(smoothness=m.P(SMOOTH[k]),
                      deformation=m.Isotropy(m.l2, length_scale=P)))
    a, b = mk(kind), mk(other)

    def look(v, w, label):
        c.eq(a(D), values(c, kind, raw, v), f"first, {label}")
        c.eq(b(D), values(c, other, raw, w), f"second, {label}")
        c.eq(P(), ell, f"the parameter, {label}")
        c.eq(Q(), th, f"the new parameter, {label}")
        c.ok(tuple(P.get_bounds()) == (0.1, 5.0) and not P.fixed()
             and tuple(Q.get_bounds()) == (0.2, 4.0) and not Q.fixed(),
             f"bounds of the parameters, {label}")

    look(ell, ell, "new")
    a.set_params(length_scale=Q)
    look(th, ell, "first is set")
    b.set_params(length_scale=m.P(ph))
    look(th, ph, "second is set")
    a.set_params(length_scale=m.P(ph))
    look(ph, ph, "first is set again")
    b.set_params(length_scale=Q)
    look(ph, th, "second is set again")
    names = b.get_opt_params()[0]
    c.ok(list(names) == ["length_scale"], "free parameters", str(names))
    c.ok(list(a.get_opt_params()[0]) == [], "the fixed one is not free")


@case("given-vector", grid=[dict(kind=k) for k in ("rbf", "m15")],
      backends=B2)
def given_vector(c, kind):
    """Likewise for the length scales of anisotropic kernels."""
    m = M()
    D = c.reals("D", (1, 2, 2, 2), 0.2, 2.0, pos=True)
    raw = np.array(c.raw(D))
    l0, l1, th, ph = (c.pos(s, 0.5, 2) for s in ("l0", "l1", "new", "newer"))
    V = m.VP(m.P(l0), m.P(l1))
    mk = lambda: (  # noqa: E731
        m.RBF(deformation=m.Anisotropy(m.F2, length_scale=V)) if kind == "rbf"
        else m.Matern(smoothness=m.P(SMOOTH[kind]),
                      deformation=m.Anisotropy(m.l2, length_scale=V)))
    a, b = mk(), mk()

    def vals(p, q):
        e = np.empty(raw.shape[:-1], dtype=object)
        for i in np.ndindex(*e.shape):
            u, v = raw[i][0] / p, raw[i][1] / q
            e[i] = kfn(c, kind, u * u + v * v)
        return num(c, e)

    def look(v, w, label):
        c.eq(a(D), vals(*v), f"first, {label}")
        c.eq(b(D), vals(*w), f"second, {label}")
        c.eq(V(), num(c, [l0, l1]), f"the parameter, {label}")

    look((l0, l1), (l0, l1), "new")
    a.set_params(length_scale0=m.P(th))
    look((th, l1), (l0, l1), "first is set")
    b.set_params(length_scale1=m.P(ph))
    look((th, l1), (l0, ph), "second is set")
    c.eq(mk()(D), vals(l0, l1), "third")


def gp_inputs(c, b, n, d=1):
    X = c.reals("X", (b + n, d))
    nn = np.array([[b + (i + j) % n for j in range(n)] for i in range(b)])
    return X, np.array(c.raw(X)), np.arange(b), nn


def model_oracle(c, kind, X, i, row, y, L, nz, s):
    """Posterior mean and variance of one point."""
    K = gram(c, kind, [X[j] for j in row], L, noise=nz)
    k = cross(c, kind, X[i], [X[j] for j in row], L)
    w = c.matvec(c.inv(K), k)
    return dot(c, w, y), s * (1 - dot(c, w, k))


@case("models", grid=[dict(kind=k) for k in ("rbf", "m05")], backends=B2)
def models(c, kind):
    """Models built with defaults share no noise and no scale."""
    m = M()
    b, n = 1, 2
    X, R, bi, nn = gp_inputs(c, b, n)
    Y = c.reals("Y", (b + n, 1))
    y = np.array(c.raw(Y))
    G = [m.MuyGPS(kernel=default(m, kind)) for _ in range(2)]
    one, zero, s = c.const(1), c.const(0), c.pos("s", 0.5, 2)
    S = [one, one]

    def look(label):
        for q, g in enumerate(G):
            cd, pd, nt = g.make_predict_tensors(
                idx(c, bi), idx(c, nn), None, X, Y)
            Kin, Kcross = g.kernel(pd), g.kernel(cd)
            mu, var = model_oracle(c, kind, R, 0, nn[0],
                                   [y[j, 0] for j in nn[0]], [one], zero,
                                   S[q])
            c.eq(np.array(c.raw(g.posterior_mean(Kin, Kcross, nt)),
                          dtype=object).reshape(-1), num(c, [mu]),
                 f"mean {q}, {label}")
            c.eq(np.array(c.raw(g.posterior_variance(Kin, Kcross)),
                          dtype=object).reshape(-1), num(c, [var]),
                 f"variance {q}, {label}")
            c.eq(one_value(c, g.scale()), S[q], f"scale {q}, {label}")
            c.eq(one_value(c, g.noise()), zero, f"noise {q}, {label}")

    look("new")
    trained = [g.scale.trained for g in G]
    G[0].scale._set(s)
    G[0]._make()
    S = [s, one]
    c.ok([g.scale.trained for g in G] == [True, trained[1]],
         "only the set scale is trained")
    G.append(m.MuyGPS(kernel=default(m, kind)))
    S.append(one)
    c.ok(G[2].scale.trained == trained[0], "a new model's scale")
    look("one is scaled")


@case("reset", grid=[dict(kind=k, b=b) for k in ("rbf", "m05", "m15")
                     for b in (1, 2)], backends=B2)
def reset(c, kind, b):
    """A model predicts with whatever its kernel was last set to."""
    m = M()
    n = 2
    X, R, bi, nn = gp_inputs(c, b, n)
    Y = c.reals("Y", (b + n, 1))
    y = np.array(c.raw(Y))
    ell, th, nz, s = (c.pos(q, 0.5, 2) for q in ("ell", "new", "nz", "s"))
    g = m.MuyGPS(kernel=kernel(c, m, kind, [ell]), noise=m.Homo(nz),
                 scale=m.FixedScale())
    g.scale._set(s)
    g._make()
    h = m.MuyGPS(kernel=kernel(c, m, kind, [ell]), noise=g.noise,
                 scale=g.scale)

    def look(g, L, label):
        cd, pd, nt = g.make_predict_tensors(
            idx(c, bi), idx(c, nn), None, X, Y)
        mu, var = zip(*[model_oracle(
            c, kind, R, i, nn[i], [y[j, 0] for j in nn[i]], [L], nz, s)
            for i in range(b)])
        args = g.kernel(pd), g.kernel(cd)
        c.eq(np.array(c.raw(g.posterior_mean(*args, nt)),
                      dtype=object).reshape(-1), num(c, mu), f"mean, {label}")
        c.eq(np.array(c.raw(g.posterior_variance(*args)),
                      dtype=object).reshape(-1), num(c, var),
             f"variance, {label}")

    look(g, ell, "new")
    g.kernel.set_params(length_scale=m.P(th))
    look(g, th, "set")
    look(h, ell, "another model")
    g.kernel.set_params(length_scale=m.P(ell))
    look(g, ell, "set back")


@case("reset-shear", grid=[dict(kind=3, b=2), dict(kind=2, b=2)],
      backends=lambda p: B2 if p["kind"] == 3 else ("numpy",))
def reset_shear(c, kind, b):
    """Shear kernels: prior covariances follow the length scale."""
    from . import c18

    m = M()
    ell, th, nz, s = (c.pos(q, 0.6, 1.6) for q in ("ell", "new", "nz", "s"))
    n = 1
    ker, g = c18.new(c, kind, ell, nz=nz)
    g.scale._set(s)
    g._make()
    X = c.reals("X", (b + n, 2))
    R = np.array(c.raw(X))
    bi, nn = np.arange(b), np.array([[b]] * b)
    ins = c18.INS[kind]
    q = len(ins) * n

    def look(L, label):
        de = ker.deformation
        pd = de.pairwise_tensor(X, idx(c, nn))
        cd = de.crosswise_tensor(X, X, idx(c, bi), idx(c, nn))
        got = g.posterior_variance(ker(pd), ker(cd))
        for i in range(b):
            A = [R[j] for j in nn[i]]
            K = c18.block(c, ins, ins, A, A, L).reshape(q, q)
            for t in range(q):
                K[t, t] = K[t, t] + (2 * nz if kind == 3 and t < n else nz)
            k = c18.block(c, ins, c18.ALL, A, [R[i]], L)[..., 0].reshape(q, 3)
            P = c18.block(c, c18.ALL, c18.ALL, [R[i]], [R[i]], L)[:, 0, :, 0]
            I = c.inv(K)
            e = np.empty((3, 3), dtype=object)
            for u in range(3):
                w = c.matvec(I, list(k[:, u]))
                for v in range(3):
                    e[u, v] = s * (P[u, v] - dot(c, w, list(k[:, v])))
            c.eq(c.raw(got)[i], num(c, e), f"variance {i}, {label}")

    look(ell, "new")
    ker.set_params(length_scale=m.P(th))
    look(th, "set")
    ker.set_params(length_scale=m.P(ell))
    look(ell, "set back")


class Lib:
    """Tensors made by the package, to be looked at again later."""

    def __init__(self, c):
        self.c, self.kept = c, []

    def __call__(self, name, a):
        self.kept.append((name, a, np.array(self.c.raw(a))))
        return a

    def verify(self, label):
        for name, a, old in self.kept:
            self.c.eq(a, old, f"{name} after {label}")


@case("tensors", grid=[dict(kind="rbf", noise="homo", d=1),
                       dict(kind="m05", noise="homo", d=1),
                       dict(kind="m15", noise="null", d=1),
                       dict(kind="rbf", noise="hetero", d=2),
                       dict(kind="m25", noise="homo", d=1),
                       dict(kind="rbf", noise="homo", d=2)], backends=B2)
def tensors(c, kind, noise, d):
    """What the package returned is not changed by later calls."""
    from MuyGPyS.gp.tensors import fast_nn_update
    from MuyGPyS.optimize.loss import (
        cross_entropy_fn, lool_fn, lool_fn_unscaled, looph_fn, mse_fn,
        pseudo_huber_fn)

    m = M()
    b, n = 2, 2
    aniso = d == 2
    names = ["length_scale0", "length_scale1"] if aniso else ["length_scale"]
    ls = [c.pos(f"ls{k}", 0.6, 1.6) for k in range(len(names))]
    th = [c.pos(f"th{k}", 0.6, 1.6) for k in range(len(names))]
    X = c.reals("X", (b + n, d))
    Y = c.reals("Y", (b + n, 1), 0.2, 1.0)
    w = c.pos("w", 0.1, 0.9)
    bi, nn = np.arange(b), np.array([[2, 3], [3, 2]])
    nz = {"homo": lambda: m.Homo(c.pos("nz", 0.1, 0.9)), "null": m.Null,
          "hetero": lambda: m.Hetero(
              c.reals("nz", (b, n), 0.1, 0.9, pos=True))}[noise]()
    g = m.MuyGPS(kernel=kernel(c, m, kind, ls, aniso), noise=nz,
                 scale=m.AnalyticScale())
    k = Lib(c)
    ibi, inn = k("batch", idx(c, bi)), k("neighbors", idx(c, nn))
    X, Y = k("features", X), k("targets", Y)
    cd, pd, bt, nt = g.make_train_tensors(ibi, inn, X, Y)
    for s, a in (("crosswise", cd), ("pairwise", pd), ("batch targets", bt),
                 ("neighbor targets", nt)):
        k(s, a)
    Kin, Kcross = k("Kin", g.kernel(pd)), k("Kcross", g.kernel(cd))
    k.verify("the kernel")
    mu = k("mean", g.posterior_mean(Kin, Kcross, nt))
    var = k("variance", g.posterior_variance(Kin, Kcross))
    k.verify("prediction")
    over = dict(zip(names, th))
    if noise == "homo":
        over["noise"] = w
    fn, vn, fm, fv = (g.kernel.get_opt_fn(), noise_only(over),
                      g.get_opt_mean_fn(), g.get_opt_var_fn())
    K2, k2 = k("trial Kin", fn(pd, **over)), k("trial Kcross", fn(cd, **over))
    m2, v2 = k("trial mean", fm(K2, k2, nt, **vn)), k(
        "trial variance", fv(K2, k2, **vn))
    k.verify("a trial")
    one = c.arr(np.array([c.pos("s", 0.5, 2)], dtype=object))
    for loss, args in ((mse_fn, ()), (pseudo_huber_fn, ()),
                       (lool_fn, (v2, one)), (lool_fn_unscaled, (v2,)),
                       (looph_fn, (v2, one))):
        loss(m2, bt, *args)
        if args:
            k.verify("likelihood loss")
    k.verify("losses")
    try:
        cross_entropy_fn(k("classes", c.reals("p", (b, 2))),
                         k("labels", c.reals("q", (b, 2), 0.2, 1.0)))
    except core.Unsupported:
        pass
    k.verify("cross entropy")
    sc = g.scale.get_opt_fn(g)
    k("trial scale", sc(K2, nt, **vn))
    k.verify("a trial scale")
    if noise != "hetero":
        co = k("coefficients", g.fast_coefficients(Kin, nt))
        k.verify("precomputation")
        rows = c.arr(np.array(c.raw(co))[:b])
        k("fast mean", g.fast_posterior_mean(Kcross, rows))
        k("fast neighbors", fast_nn_update(inn))
        k.verify("fast prediction")
    if c.backend != "torch" and len(names) == 1:
        try:
            g.optimize_scale(pd, nt)
        except ValueError:
            pass  # not seen to be positive
        k.verify("scale optimization")
    g.kernel.set_params(**{s: m.P(v) for s, v in over.items()
                           if s != "noise"})
    k("mean", g.posterior_mean(g.kernel(pd), g.kernel(cd), nt))
    k.verify("new parameters")


def noise_only(kw):
    return {s: v for s, v in kw.items() if s == "noise"}


@case("copies", grid=[dict(kind=k) for k in ("rbf", "m05")], backends=B2)
def copies(c, kind):
    """A deep copy and its original do not share parameters."""
    from copy import deepcopy

    m = M()
    b, n = 1, 2
    X, R, bi, nn = gp_inputs(c, b, n)
    Y = c.reals("Y", (b + n, 1))
    y = np.array(c.raw(Y))
    ell, th, nz, s, t = (c.pos(q, 0.5, 2) for q in (
        "ell", "new", "nz", "s", "t"))
    g = m.MuyGPS(kernel=kernel(c, m, kind, [ell]), noise=m.Homo(nz),
                 scale=m.FixedScale())
    g.scale._set(s)
    g._make()
    h = deepcopy(g)
    h._make()

    def look(g, L, S, label):
        cd, pd, nt = g.make_predict_tensors(
            idx(c, bi), idx(c, nn), None, X, Y)
        mu, var = model_oracle(c, kind, R, 0, nn[0],
                               [y[j, 0] for j in nn[0]], [L], nz, S)
        args = g.kernel(pd), g.kernel(cd)
        c.eq(np.array(c.raw(g.posterior_mean(*args, nt)),
                      dtype=object).reshape(-1), num(c, [mu]),
             f"mean, {label}")
        c.eq(np.array(c.raw(g.posterior_variance(*args)),
                      dtype=object).reshape(-1), num(c, [var]),
             f"variance, {label}")

    look(h, ell, s, "copy")
    h.kernel.set_params(length_scale=m.P(th))
    h.scale._set(t)
    h._make()
    look(h, th, t, "changed copy")
    look(g, ell, s, "original of a changed copy")
    g.kernel.set_params(length_scale=m.P(th))
    look(g, th, s, "changed original")
    look(h, th, t, "copy of a changed original")
