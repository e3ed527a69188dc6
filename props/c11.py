"""C11: hyperparameters keep valid values and list the free ones correctly."""

import itertools

import numpy as np

from symx import stubs
from symx.registry import case

from .common import M, SMOOTH, idx, kfn, one_value

B2 = ("numpy", "torch")
TOL = 1e-5 + 1e-9


@case("bounds", grid=[dict(kind=k) for k in ("param", "named", "homo")],
      backends=B2)
def bounds_case(c, kind):
    """A value within its bounds is kept exactly, anything outside (beyond
    the rounding tolerance) or disordered bounds are rejected."""
    m = M()
    lo, hi = c.real("lo", 0.0, 1.0), c.real("hi", 0.0, 1.0)
    v = c.real("v", -0.2, 1.2)

    def make():
        if kind == "homo":
            return m.Homo(v, (lo, hi))
        if kind == "named":
            return m.RBF(deformation=m.Isotropy(
                m.F2, length_scale=m.P(v, (lo, hi)))
            )._hyperparameters["length_scale"]
        return m.P(v, (lo, hi))

    try:
        p = make()
    except ValueError:
        bad = [lo > hi, v < lo, v > hi]
        if kind == "homo":
            bad += [lo < 0, hi < 0]
        c.check(c.Or(*bad), "rejected only when invalid")
        return
    c.check(c.And(lo <= hi, v >= lo - TOL, v <= hi + TOL),
            "accepted only when valid")
    if kind == "homo":
        c.check(c.And(lo >= 0, hi >= 0), "noise bounds are not negative")
    c.eq(one_value(c, p()), v, "value")
    b = p.get_bounds()
    c.eq(one_value(c, b[0]), lo, "lower bound")
    c.eq(one_value(c, b[1]), hi, "upper bound")
    c.ok(p.fixed() is False, "free")


@case("fixed", grid=[dict(how=h) for h in ("default", "string")], backends=B2)
def fixed_case(c, how):
    """A fixed parameter takes any value and has no bounds to optimize."""
    m = M()
    v = c.real("v", -3.0, 3.0)
    p = m.P(v) if how == "default" else m.P(v, "fixed")
    c.eq(one_value(c, p()), v, "value")
    c.ok(p.fixed() is True, "fixed")
    for s in ("sample", "log_sample"):
        c.raises(lambda s=s: m.P(s), ValueError, f"{s} without bounds")


@case("sample", grid=[dict(kind=k, how=h) for k in ("param", "homo")
                      for h in ("sample", "log_sample")], backends=B2)
def sample_case(c, kind, how):
    """A sampled value lies within the bounds: it is drawn uniformly between
    them, or between their logarithms and exponentiated."""
    m = M()
    lo = c.real("lo", 0.1, 1.0, pos=True)
    hi = lo + c.pos("gap", 0.1, 1.0)
    seen = []

    def uniform(low=0.0, high=1.0, size=None):
        c.ok(size is None, "one draw")
        seen.append((low, high))
        # any value between the limits (given as a logarithm of one)
        return draw() if how == "sample" else c.log(draw())

    def draw():
        t = c.nonneg("t", 0.0, 1.0)
        c.assume(t <= 1)
        return lo + (hi - lo) * t

    stubs.patch(c, "random.uniform", uniform)
    p = (m.Homo if kind == "homo" else m.P)(how, (lo, hi))
    c.ok(len(seen) == 1, "one draw", str(len(seen)))
    a, b = (lo, hi) if how == "sample" else (c.log(lo), c.log(hi))
    c.eq(one_value(c, seen[0][0]), a, "lower limit of the draw")
    c.eq(one_value(c, seen[0][1]), b, "upper limit of the draw")
    c.eq(one_value(c, p()), draw(), "drawn value")
    c.eq(one_value(c, p.get_bounds()[0]), lo, "lower bound")
    c.eq(one_value(c, p.get_bounds()[1]), hi, "upper bound")
    c.ok(p.fixed() is False, "free")


@case("malformed", backends=B2)
def malformed(c):
    """Malformed values and bounds are rejected."""
    m = M()
    v = c.pos("v", 0.2, 0.8)
    for lab, f in {
        "unknown bounds": lambda: m.P(v, "badstring"),
        "scalar bounds": lambda: m.P(v, 1.0),
        "one bound": lambda: m.P(v, [1.0]),
        "three bounds": lambda: m.P(v, [0.0, 1.0, 2.0]),
        "string lower bound": lambda: m.P(v, ["0", 1.0]),
        "string upper bound": lambda: m.P(v, [0.0, "1"]),
        "unknown prompt": lambda: m.P("wut", (0.0, 1.0)),
        "list value": lambda: m.P([v], (0.0, 1.0)),
        "array value": lambda: m.P(c.arr([v])),
        "string tensor": lambda: m.Hetero("wut"),
    }.items():
        c.raises(f, ValueError, lab)


@case("scale", grid=[dict(kind=k) for k in ("fixed", "analytic", "down")],
      backends=B2)
def scale_case(c, kind):
    """A scale is positive, one by default, and untrained until it is set."""
    m = M()
    cls = dict(fixed=m.FixedScale, analytic=m.AnalyticScale,
               down=m.DownSampleScale)[kind]
    c.eq(one_value(c, cls()()), c.const(1), "default")
    v = c.real("v", -1.0, 2.0)
    w = c.real("w", -1.0, 2.0)
    if c.branch(v <= 0):
        c.raises(lambda: cls(val=v), ValueError, "not positive")
        return
    s = cls(val=v)
    c.eq(one_value(c, s()), v, "value")
    c.ok(s.trained is False, "untrained")
    if c.branch(w <= 0):
        c.raises(lambda: s._set(w), ValueError, "set to a value not positive")
        c.eq(one_value(c, s()), v, "value kept")
        return
    s._set(w)
    c.eq(one_value(c, s()), w, "new value")
    c.ok(s.trained is True, "trained")
    c.raises(lambda: m.FixedScale(val=[1.0, 2.0]), ValueError, "two values")


def subsets(xs):
    return [s for k in range(len(xs) + 1)
            for s in itertools.combinations(xs, k)]


LISTS = (
    [dict(kind="rbf", d=0, free=s) for s in subsets(("l", "n"))]
    + [dict(kind="matern", d=0, free=s) for s in subsets(("l", "s", "n"))]
    + [dict(kind="rbf", d=2, free=s) for s in subsets(("0", "1", "n"))]
    + [dict(kind="matern", d=2, free=s) for s in subsets(("0", "1", "s", "n"))]
    + [dict(kind="rbf", d=3, free=s) for s in subsets(("0", "1", "2"))]
    # more than ten length scales: names that are prefixes of others
    + [dict(kind="rbf", d=12, free=s) for s in
       (("1", "10"), ("10", "n"), ("2", "11", "0"))]
    + [dict(kind="matern", d=12, free=tuple(map(str, range(12))) + ("s",))]
)


@case("listing", grid=[
    dict(g, free=(".".join if g["d"] > 9 else "".join)(g["free"]))
    for g in LISTS],
      backends=B2)
def listing(c, kind, d, free):
    """get_opt_params names exactly the free parameters, with the value and
    bounds of each beside its name; a model is fixed when there are none."""
    m = M()
    want = {}
    free = free.split(".") if d > 9 else list(free)

    def par(tag, name, base):
        v = c.pos("v_" + tag, base, base + 0.5)
        c.assume(v > base)
        c.assume(v < base + 0.5)
        if tag in free:
            b = (base - 0.1, base + 1.0)
            want[name] = (v, b)
            return m.P(v, b)
        return m.P(v)

    if d:
        vp = m.VP(*[par(str(k), f"length_scale{k}", 0.5 + k)
                    for k in range(d)])
        c.ok(len(vp) == d, "length of the vector")
        c.ok(bool(vp.fixed()) is not any(str(k) in free for k in range(d)),
             "vector is fixed when all its parameters are", str(vp.fixed()))
        c.eq(vp(), np.array([p() for p in vp._params], dtype=object)
             if c.sym else c.raw(vp()), "vector")
        for k, u in enumerate(c.raw(vp())):
            c.eq(u, c.pos(f"v_{k}", 0.5 + k, 1.0 + k), f"entry {k}")
        de = m.Anisotropy(m.F2 if kind == "rbf" else m.l2, length_scale=vp)
    else:
        de = m.Isotropy(m.F2 if kind == "rbf" else m.l2,
                        length_scale=par("l", "length_scale", 0.5))
    ker = m.RBF(deformation=de) if kind == "rbf" else m.Matern(
        deformation=de, smoothness=par("s", "smoothness", 4.0))
    v = c.pos("v_n", 0.2, 0.4)
    c.assume(v > 0.2)
    c.assume(v < 0.4)
    if "n" in free:
        want["noise"] = (v, (0.1, 0.6))
        nz = m.Homo(v, (0.1, 0.6))
    else:
        nz = m.Homo(v)
    gp = m.MuyGPS(kernel=ker, noise=nz)
    ns, ps, bs = gp.get_opt_params()
    c.ok(sorted(ns) == sorted(want), "names of the free parameters",
         f"{ns} for {sorted(want)}")
    c.ok(len(ps) == len(bs) == len(ns), "one value and bound per name")
    for i, q in enumerate(ns):
        c.eq(one_value(c, ps[i]), want[q][0], f"value of {q}")
        c.eq(one_value(c, bs[i][0]), c.const(want[q][1][0]),
             f"lower bound of {q}", tol=1e-5)
        c.eq(one_value(c, bs[i][1]), c.const(want[q][1][1]),
             f"upper bound of {q}", tol=1e-5)
    c.ok(gp.fixed() is (not want), "fixed", str(gp.fixed()))


@case("resetting", grid=[dict(kind=k, what=w) for k, w in (
    ("rbf", "l"), ("m05", "l"), ("m15", "s"), ("m25", "s"), ("minf", "s"),
    ("m05", "s"), ("m05", "ls"), ("m25", "ls"))], backends=B2)
def resetting(c, kind, what):
    """Setting parameters of a kernel is seen by the kernel, its parameter
    list and its optimization function, and by no other kernel made from the
    same parameters."""
    m = M()
    l0, l1 = c.pos("l0", 0.5, 1.5), c.pos("l1", 0.5, 1.5)
    d = c.reals("d", (2,), 0.2, 1.5, pos=True)
    D = list(c.raw(d))
    ls = m.P(l0)
    sm = None if kind == "rbf" else m.P(SMOOTH[kind])

    def build():
        if kind == "rbf":
            return m.RBF(deformation=m.Isotropy(m.F2, length_scale=ls))
        return m.Matern(smoothness=sm, deformation=m.Isotropy(
            m.l2, length_scale=ls))

    a, b = build(), build()

    def expect(k, l):
        if k == "rbf":
            return [kfn(c, k, x / (l * l)) for x in D]
        return [kfn(c, k, (x / l) * (x / l)) for x in D]

    def same(k, e, lab):
        e = np.array(e, dtype=object if c.sym else float)
        c.eq(k(d), e, f"kernel {lab}")
        c.eq(k.get_opt_fn()(d), e, f"optimization function {lab}")

    same(a, expect(kind, l0), "before")
    seq = (["m05", "m15", "m25", "minf", "m05"] if "s" in what else [kind])
    for new in seq:
        kw = {}
        if "l" in what:
            kw["length_scale"] = m.P(l1)
        if "s" in what:
            kw["smoothness"] = m.P(SMOOTH[new])
        a.set_params(**kw)
        same(a, expect(new, l1 if "l" in what else l0), f"after, {new}")
        same(b, expect(kind, l0), "of the other kernel")
        c.eq(one_value(c, ls()), l0, "parameter given to the kernel")
    c.assume(l1 > 0.25)
    c.assume(l1 < 3.0)
    a.set_params(length_scale=m.P(l1, (0.25, 3.0)))
    c.ok(list(a.get_opt_params()[0]) == ["length_scale"], "freed")
    c.ok(list(b.get_opt_params()[0]) == [], "other kernel stays fixed")


@case("prescribed", grid=[dict(bad=b) for b in ("vector", "none")])
def prescribed(c, bad):
    """An isotropic deformation takes one scalar parameter."""
    m = M()
    v = c.pos("v", 0.5, 1.0)
    x = m.VP(m.P(v), m.P(v)) if bad == "vector" else None
    c.raises(lambda: m.Isotropy(m.l2, length_scale=x), ValueError, "rejected")
