"""Declaration of harness cases."""

import importlib


class Case:
    def __init__(self, fn, name, params, backend, tier, opts):
        self.fn = fn
        self.name = name
        self.params = params
        self.backend = backend
        self.tier = tier
        self.opts = opts

    @property
    def id(self):
        ps = ",".join(f"{k}={_s(v)}" for k, v in self.params.items())
        return f"{self.name}[{ps}]@{self.backend}"


def _s(v):
    return str(v).replace(" ", "")


CASES = []


def case(name, grid=({},), backends=("numpy",), tier="quick", thorough=(),
         **opts):
    """Register a harness for every parameter set and backend.

    opts: linalg ('opaque'|'exact'), max_paths, budget (s), nval (number of
    numeric validation runs), torch (load the torch stand-in), ranks (MPI),
    tol (relative tolerance of the numeric runs).
    """

    def deco(fn):
        for t, g in ((tier, grid), ("thorough", thorough)):
            for p in g:
                for b in (backends(p) if callable(backends) else backends):
                    CASES.append(Case(fn, name, dict(p), b, t, dict(opts)))
        return fn

    return deco


def load(prop, tier="thorough"):
    CASES.clear()
    importlib.import_module("props." + prop.lower())
    ids = set()
    out = []
    for c in CASES:
        if c.fn.__module__ != "props." + prop.lower():
            continue  # cases of an imported helper module
        if tier == "quick" and c.tier != "quick":
            continue
        assert c.id not in ids, c.id
        ids.add(c.id)
        out.append(c)
    return out
