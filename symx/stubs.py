"""Environment stubs shared by the symbolic and the numeric runs.

``patch(c, name, fn)`` replaces an environment function (random choices,
nearest-neighbour search, numerical optimisers): in the symbolic run through
the import stand-ins, in a numeric run by patching the library attribute the
code resolves.  The stub's values come from the harness inputs, so that a
counterexample replays exactly.
"""

import importlib

from . import arr

_saved = []

TARGETS = {
    "random.choice": ("numpy.random", "choice"),
    "random.randint": ("numpy.random", "randint"),
    "random.uniform": ("numpy.random", "uniform"),
    "random.permutation": ("numpy.random", "permutation"),
    "random.normal": ("numpy.random", "normal"),
    "opt.minimize": ("scipy.optimize", "minimize"),
    "hnswlib.Index": ("hnswlib", "Index"),
}

# symbols imported by value into modules of the package
BYVALUE = {
    "NearestNeighbors": "NearestNeighbors",
    "BayesianOptimization": "BayesianOptimization",
    "qmc.LHC": "LatinHypercube",
}


class PerRank:
    def __init__(self):
        self.fns = {}

    def __call__(self, *a, **k):
        from . import mpishim

        return self.fns[mpishim._RANK[0]](*a, **k)


def patch(c, name, fn):
    if c.sym:
        from . import mpishim

        if mpishim._W is None:
            arr.ENV[name] = fn
        else:  # each rank has its own environment
            d = arr.ENV.get(name)
            if not isinstance(d, PerRank):
                d = arr.ENV[name] = PerRank()
            d.fns[mpishim._RANK[0]] = fn
        return
    if name in TARGETS:
        mod, attr = TARGETS[name]
        m = importlib.import_module(mod)
        _set(m, attr, fn)
        return
    import sys

    attr = BYVALUE[name]
    for n, m in list(sys.modules.items()):
        if n.startswith("MuyGPyS") and m is not None and attr in m.__dict__:
            _set(m, attr, fn)


def _set(m, attr, fn):
    _saved.append((m, attr, getattr(m, attr)))
    setattr(m, attr, fn)


def restore():
    while _saved:
        m, a, v = _saved.pop()
        setattr(m, a, v)
