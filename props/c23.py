"""C23: torch predictions and losses carry their gradients."""

import numpy as np

from symx.registry import case

from .c07 import KINDS, build
from .c19 import elements, layers
from .common import M, idx, kernel

T = ("torch",)


def smooth(c, make, probes=1):
    """Gradients of all results are those of the functions computed.

    ``make()`` gives a fresh model's leaves (tensors to differentiate by) and
    a function of no arguments returning tensors.  Symbolically, whatever the
    calls take out of the graph is a constant to the gradient: it is changed
    by any amount, and no result may notice.  On numbers, gradients are
    compared with differences of the function's values."""
    if c.sym:
        from symx import core, torchshim

        k = [0]
        leaves, fn = make()
        by = set()
        for x in leaves:
            for e in np.asarray(c.raw(x), dtype=object).reshape(-1):
                by |= set(core.free_vars_poly(e.p))

        def cut(x):
            if not by & set(core.free_vars_poly(x.p)):
                return x  # a constant anyway
            k[0] += 1
            return x + c.pos(f"cut{k[0]}", 0.1, 0.4)

        with torchshim.Track(cut, lambda x: c.check(
                x > 0, "square roots have gradients")):
            got = fn()
            again = fn()
        want = make()[1]()
        for q, (a, b, e) in enumerate(zip(got, again, want)):
            c.eq(a, e, f"result {q}")
            c.eq(b, e, f"result {q} again")
        return
    import torch

    leaves, fn = make()
    leaves = [x if x.requires_grad else x.requires_grad_(True)
              for x in leaves]

    def value(out):
        w = np.cos(1 + np.arange(sum(x.numel() for x in out)))
        return (torch.cat([x.reshape(-1) for x in out])
                * torch.tensor(w)).sum()

    def grads():
        g = torch.autograd.grad(value(fn()), leaves, allow_unused=True)
        return [torch.zeros_like(x) if v is None else v
                for v, x in zip(g, leaves)]

    first = grads()
    steps = []
    for x in leaves:
        d = np.zeros(x.shape)
        for i in np.ndindex(*x.shape):
            # a parameter may be single precision: steps as they are taken
            old, at, f = float(x.detach()[i]), [], []
            for s in (1e-4, -1e-4):
                with torch.no_grad():
                    x[i] = old + s
                at.append(float(x.detach()[i]))
                f.append(float(value(fn()).detach()))
            with torch.no_grad():
                x[i] = old
            d[i] = (f[0] - f[1]) / (at[0] - at[1])
        steps.append(d)
    for lab, g in (("first", first), ("again", grads())):
        for q, (a, b) in enumerate(zip(g, steps)):
            c.eq(a, b, f"gradient by leaf {q}, {lab}", tol=1e-3)


def modes(net, X):
    """A layer's results while training, and while evaluating."""

    def fn():
        return (*net.train()(X), *net.eval()(X))

    return fn


def leaf(c, gp):
    return gp.kernel.deformation.length_scale._val


SHAPES = [dict(b=b, n=n, d=d, r=r) for b, n, d, r in (
    (2, 2, 2, 1), (1, 2, 1, 2), (2, 1, 1, 1))]


def model(c, m, kind, noise, b, n, scale=True):
    ls, s = c.pos("length_scale", 0.6, 1.6), c.pos("scale", 0.5, 2)
    c.assume(ls > 0.1)
    c.assume(ls < 3)
    P = m.P(ls, (0.1, 3.0))
    met, cls = (m.F2, m.RBF) if kind == "rbf" else (m.l2, m.Matern)
    kw = {} if kind == "rbf" else dict(smoothness=m.P(
        {"m05": 0.5, "m15": 1.5, "m25": 2.5, "minf": float("inf")}[kind]))
    ker = cls(deformation=m.Isotropy(met, length_scale=P), **kw)
    own = []
    if noise == "homo":
        nz = m.Homo(c.pos("noise", 0.05, 0.4))
        own = [nz._val]
    elif noise == "hetero":
        nz = m.Hetero(c.reals("noise", (b, n), 0.05, 0.4, pos=True))
    else:
        nz = m.Null()
    gp = m.MuyGPS(kernel=ker, noise=nz, scale=m.FixedScale(val=s))
    return gp, own


@case("layer", grid=[dict(g, kind=k, noise=z) for g in SHAPES
                     for k, z in (("rbf", "homo"), ("m05", "homo"),
                                  ("m15", "hetero"), ("m25", "null"),
                                  ("minf", "homo"))], backends=T)
def layer(c, kind, noise, b, n, d, r):
    """Means and variances of a layer by features, targets and parameters."""

    def make():
        m = M()
        gp, own = model(c, m, kind, noise, b, n)
        bi, nn = elements(b, n, n + 2)
        X, y = c.reals("X", (n + 2, d)), c.reals("y", (b, n, r))
        net = layers()[0](gp, idx(c, bi), idx(c, nn), None, y)
        return [X, y, net.length_scale] + own, modes(net, X)

    smooth(c, make)


@case("multi", grid=[dict(kinds=k, b=b, n=n, d=d, scales=s) for k, b, n, d in (
    ("rbf", 2, 2, 2), ("half", 1, 2, 1), ("half3", 2, 1, 2), ("one", 2, 2, 1))
    for s in ("given", None)], backends=T)
def multi(c, kinds, b, n, d, scales):
    """The same for one model per response."""

    def make():
        m = M()
        args, _ = build(c, m, KINDS[kinds], d, False, ("homo",), scales)
        gp = m.MultivariateMuyGPS(*args)
        bi, nn = elements(b, n, n + 2)
        X = c.reals("X", (n + 2, d))
        y = c.reals("y", (b, n, len(KINDS[kinds])))
        net = layers()[1](gp, idx(c, bi), idx(c, nn), None, y)
        return ([X, y] + [leaf(c, g) for g in gp.models]
                + [g.noise._val for g in gp.models]), modes(net, X)

    smooth(c, make)


@case("fast", grid=[dict(kind=k, t=t, n=n, r=r) for k, t, n, r in (
    ("rbf", 3, 2, 1), ("m15", 3, 1, 2), ("m05", 4, 2, 0))], backends=T)
def fast(c, kind, t, n, r):
    """Fast coefficients and means."""

    def make():
        m = M()
        gp, own = model(c, m, kind, "homo", t, n)
        nn = np.array([[(i + j) % t for j in range(n)] for i in range(t)])
        X, Z = c.reals("X", (t, 2)), c.reals("Z", (2, 2))
        y = c.reals("y", (t, r) if r else (t,))

        def fn():
            gp._make()
            de = gp.kernel.deformation
            K = gp.kernel(de.pairwise_tensor(X, idx(c, nn)))
            co = gp.fast_coefficients(K, y[idx(c, nn)])
            k = gp.kernel(de.crosswise_tensor(
                Z, X, idx(c, np.arange(2)), idx(c, nn[1:3])))
            return co, gp.fast_posterior_mean(k, co[idx(c, np.arange(1, 3))])

        return [X, Z, y, leaf(c, gp)] + own, fn

    smooth(c, make)


@case("aniso", grid=[dict(kind=k, b=b, n=n, d=d) for k, b, n, d in (
    ("rbf", 2, 2, 2), ("m05", 1, 2, 3), ("m25", 2, 1, 1))], backends=T)
def aniso(c, kind, b, n, d):
    """Predictions of an anisotropic model by features."""

    def make():
        m = M()
        ls = [c.pos(f"ls{q}", 0.6, 1.6) for q in range(d)]
        gp = m.MuyGPS(kernel=kernel(c, m, kind, ls, True),
                      noise=m.Homo(c.pos("noise", 0.05, 0.4)))
        bi, nn = elements(b, n, n + 2)
        X, y = c.reals("X", (n + 2, d)), c.reals("y", (b, n, 1))

        def fn():
            de = gp.kernel.deformation
            Kin = gp.kernel(de.pairwise_tensor(X, idx(c, nn)))
            Kcross = gp.kernel(de.crosswise_tensor(
                X, X, idx(c, bi), idx(c, nn)))
            return (gp.posterior_mean(Kin, Kcross, y),
                    gp.posterior_variance(Kin, Kcross))

        return [X, y, gp.noise._val], fn

    smooth(c, make)


LOSS = ("mse", "huber", "xent", "lool", "unscaled", "looph", "matrix")


@case("loss", grid=[dict(loss=L, b=b, r=r) for L in LOSS for b, r in (
    (2, 2), (1, 3), (3, 1), (20, 2), (2, 9)) if not (r == 1 and L == "xent")
    and not (r > 2 and L == "matrix")], backends=T)
def loss_case(c, loss, b, r):
    """Losses by predictions, targets, variances and scales."""
    import MuyGPyS.optimize.loss as L

    def make():
        p, y = c.reals("p", (b, r)), c.reals("y", (b, r), 0.1, 1, pos=True)
        v = c.reals("v", (b, r), 0.3, 1.5, pos=True)
        s = c.reals("s", (1,), 0.5, 2, pos=True)
        if loss == "matrix":
            q = c.reals("q", (b, r, r), 0.1, 0.3, pos=True)
            A = q + q.swapaxes(-2, -1)
            eye = np.broadcast_to(np.eye(r) * 2, (b, r, r))
            A = A + c.arr(np.array([[[c.const(float(e)) for e in row]
                                     for row in mat] for mat in eye],
                                   dtype=object) if c.sym else eye)
            if not c.sym:
                A = A.clone()
            return [p, A], lambda: [L.lool_fn_unscaled(p, y, A)]
        fn = dict(mse=L.mse_fn, huber=L.pseudo_huber_fn,
                  xent=L.cross_entropy_fn, lool=L.lool_fn,
                  unscaled=L.lool_fn_unscaled, looph=L.looph_fn)[loss]
        if loss in ("mse", "huber"):
            return [p, y], lambda: [fn(p, y)]
        if loss == "xent":
            return [p], lambda: [fn(p, y)]
        if loss == "unscaled":
            return [p, y, v], lambda: [fn(p, y, v)]
        return [p, y, v, s], lambda: [fn(p, y, v, s)]

    smooth(c, make)


@case("objective", grid=[dict(kind=k, loss=L, scale=s, b=b, n=n)
                         for k, b, n in (("rbf", 2, 2), ("m05", 1, 2),
                                         ("m15", 2, 1))
                         for L, s in (("mse", "fixed"), ("lool", "fixed"),
                                      ("lool", "analytic"),
                                      ("looph", "analytic"),
                                      ("huber", "fixed"))
                         if s == "fixed" or n * b < 4], backends=T)
def objective(c, kind, loss, scale, b, n):
    """The leave-one-out objective by its parameters and tensors."""
    from .c09 import Build, obj_of, problem

    def make():
        m = M()
        bd = Build(c, m, kind, 1, ["length_scale", "noise"], "homo", scale)
        cd, pd, bt, nt, *_ = problem(c, m, bd, b, n, 1, 0)
        obj = obj_of(c, bd.gp, cd, pd, bt, nt, loss, {})
        th = {q: c.arr(np.array(c.pos("new_" + q, lo, hi), dtype=object))
              for q, lo, hi in (("length_scale", 0.5, 2),
                                ("noise", 0.05, 0.4))}
        return ([cd, bt, nt] + list(th.values()), lambda: [obj(**th)])

    smooth(c, make)
