"""Import the code under test with symbolic stand-ins for its libraries."""

import builtins
import importlib
import os
import sys
import types

import numpy as np

from . import arr, core, npshim, special

REPO_SRC = os.environ.get("MUYGPYS_SRC", "/repo/src")
_real_import = builtins.__import__

PROXIES = {}
BLOCKED = {"jax", "tensorflow_probability", "absl"}


def _fake(name, **attrs):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(attrs)
    return m


class _Scalar(type):
    """Builtin conversions that let symbolic scalars through."""

    def __instancecheck__(cls, x):
        if isinstance(x, core.Sym):
            return x.isint() if cls._base is int else not x.isint()
        return isinstance(x, cls._base)

    def __call__(cls, *a, **k):
        if a:
            x = a[0]
            if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
                x = np.ndarray.view(x, np.ndarray).reshape(-1)[0]
            if isinstance(x, core.SymBool):
                x = core.lift(x)
            if isinstance(x, core.Sym):
                if cls._base is int:
                    c = x.const()
                    return int(c) if c is not None else core.trunc(x)
                from . import torchshim

                return torchshim._cut(x)
        return cls._base(*a, **k)


class SInt(metaclass=_Scalar):
    _base = int
    dtype = np.dtype(int)


class SFloat(metaclass=_Scalar):
    _base = float
    dtype = np.dtype(float)


def _sround(x, n=None):
    if isinstance(x, core.Sym) and x.const() is None and n is None:
        return arr._rint(x)
    return round(x) if n is None else round(x, n)


class _Math(types.ModuleType):
    pass


def make_math():
    import math

    m = types.ModuleType("math")
    m.__dict__.update(
        {k: v for k, v in math.__dict__.items() if not k.startswith("__")}
    )

    def s(f, g):
        def h(x, *a):
            x = arr.unbox(x)
            return g(x) if isinstance(x, core.Sym) else f(x, *a)

        return h

    m.sqrt = s(math.sqrt, core.sqrt)
    m.exp = s(math.exp, core.exp)
    m.log = s(math.log, core.log)
    m.floor = s(math.floor, core.floor)
    m.ceil = s(math.ceil, lambda x: -core.floor(-x))
    m.trunc = s(math.trunc, core.trunc)
    m.gamma = s(math.gamma, special._gamma1)
    m.fabs = s(math.fabs, abs)
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        abs(a - b) <= abs_tol + rel_tol * max(abs(a), abs(b)))
    return m


def make_itertools_ok():
    pass


def install(backend="numpy", torch=False, comm=None, ftype="64", stubs=None):
    """Prepare PROXIES and the import hook."""
    import scipy.special as sps

    P = PROXIES
    P.clear()
    P["numpy"] = npshim.make_numpy()
    P["math"] = make_math()
    sp = npshim.Proxy(
        "scipy.special", sps,
        dict(gamma=special.gamma, kv=special.kv, softmax=special.softmax,
             log_softmax=special.log_softmax,
             logsumexp=special.logsumexp, expit=special.expit,
             gammaln=special.gammaln),
    )
    import scipy
    import scipy.linalg as spl

    opt = _fake("scipy.optimize", minimize=npshim.stub("opt.minimize"),
                OptimizeResult=dict)
    qmc = _fake("scipy.stats.qmc", LatinHypercube=npshim.stub("qmc.LHC"))
    stats = _fake("scipy.stats", qmc=qmc)
    from . import spla

    linalg = npshim.Proxy("scipy.linalg", spl, spla.table())
    dist = _fake("scipy.spatial.distance", cdist=spla.cdist,
                 pdist=npshim.stub("pdist"), squareform=npshim.stub("sqf"))
    spatial = _fake("scipy.spatial", distance=dist,
                    cKDTree=npshim.stub("cKDTree"))
    P["scipy"] = _fake("scipy", special=sp, optimize=opt, stats=stats,
                       linalg=linalg, spatial=spatial)
    P["scipy.special"] = sp
    P["scipy.optimize"] = opt
    P["scipy.stats"] = stats
    P["scipy.stats.qmc"] = qmc
    P["scipy.linalg"] = linalg
    P["scipy.spatial"] = spatial
    P["scipy.spatial.distance"] = dist
    skn = _fake("sklearn.neighbors",
                NearestNeighbors=npshim.stub("NearestNeighbors"))
    skm = _fake("sklearn.metrics", log_loss=special.log_loss)
    P["sklearn"] = _fake("sklearn", neighbors=skn, metrics=skm)
    P["sklearn.neighbors"] = skn
    P["sklearn.metrics"] = skm
    P["bayes_opt"] = _fake(
        "bayes_opt", BayesianOptimization=npshim.stub("BayesianOptimization"))
    P["hnswlib"] = _fake("hnswlib", Index=npshim.stub("hnswlib.Index"))
    if torch:
        from . import torchshim

        P.update(torchshim.modules())
    else:
        BLOCKED.add("torch")
    if comm is not None:
        from . import mpishim

        P.update(mpishim.modules())
    else:
        BLOCKED.add("mpi4py")
    os.environ["MUYGPYS_BACKEND"] = backend
    os.environ["MUYGPYS_FTYPE"] = ftype
    if sys.path[0] != REPO_SRC:
        sys.path.insert(0, REPO_SRC)
    builtins.__import__ = _hook


def _hook(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and globals is not None:
        g = globals.get("__name__") or ""
        if g == "MuyGPyS" or g.startswith("MuyGPyS."):
            top = name.partition(".")[0]
            if top in BLOCKED and top not in PROXIES:
                raise ImportError(f"{name} is not part of the symbolic run")
            if name in PROXIES:
                return PROXIES[name] if fromlist else PROXIES[top]
            if top in PROXIES:
                if top in ("numpy", "scipy", "torch"):
                    if not fromlist:
                        return PROXIES[top]
                    m = PROXIES[top]
                    try:
                        for part in name.split(".")[1:]:
                            m = getattr(m, part)
                        return m
                    except AttributeError:
                        pass
                    return _real_import(name, globals, locals, fromlist, level)
                raise ImportError(f"{name} has no symbolic stand-in")
    m = _real_import(name, globals, locals, fromlist, level)
    return m


def patch_builtins():
    """Symbolic int/float/round in the loaded modules of the package."""
    for n, m in list(sys.modules.items()):
        if (n == "MuyGPyS" or n.startswith("MuyGPyS.")) and m is not None:
            d = m.__dict__
            d.setdefault("int", SInt)
            d.setdefault("float", SFloat)
            d.setdefault("round", _sround)


def unload():
    for n in list(sys.modules):
        if n == "MuyGPyS" or n.startswith("MuyGPyS."):
            del sys.modules[n]


class Functions:
    """Record which functions of the package were executed."""

    def __init__(self):
        self.seen = set()

    def start(self):
        mon = sys.monitoring
        self.tool = mon.COVERAGE_ID
        try:
            mon.use_tool_id(self.tool, "symx")
        except ValueError:
            return
        pre = os.path.join(REPO_SRC, "MuyGPyS")

        def cb(code, off):
            if code.co_filename.startswith(pre):
                f = code.co_filename[len(pre) + 1:]
                self.seen.add(f"{f}:{code.co_qualname}")
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.PY_START, cb)
        mon.set_events(self.tool, mon.events.PY_START)


def preload():
    """Import heavyweight third-party modules before the hook is active."""
    import scipy.linalg  # noqa: F401
    import scipy.special  # noqa: F401


def load():
    """Import the package (every module that has no missing dependency)."""
    importlib.import_module("MuyGPyS")
    for n in (
        "MuyGPyS.gp", "MuyGPyS.gp.tensors", "MuyGPyS.gp.kernels",
        "MuyGPyS.gp.kernels.experimental", "MuyGPyS.gp.deformation",
        "MuyGPyS.gp.hyperparameter", "MuyGPyS.gp.hyperparameter.experimental",
        "MuyGPyS.gp.noise", "MuyGPyS.optimize", "MuyGPyS.optimize.batch",
        "MuyGPyS.optimize.loss", "MuyGPyS.optimize.objective",
        "MuyGPyS.optimize.experimental.chassis", "MuyGPyS.neighbors",
        "MuyGPyS.examples.regress", "MuyGPyS.examples.classify",
        "MuyGPyS.examples.fast_posterior_mean",
        "MuyGPyS.examples.from_indices",
        "MuyGPyS.examples.two_class_classify_uq",
    ):
        try:
            importlib.import_module(n)
        except ImportError:
            pass
    patch_builtins()
