"""C16: sampled batches are distinct, qualified and balanced."""

import itertools

import numpy as np

from symx import stubs
from symx.registry import case

from .c15 import whole, wrapper

NT = ("numpy", "torch")
SPOTS = {
    "line": [0.0, 1.0, 3.0, 7.0, 15.0, 31.0],
    "pairs": [0.0, 1.0, 10.0, 12.0, 30.0, 33.0],
    "mixed": [5.0, 0.0, 9.0, 1.5, 4.0, 20.0],
    "long": list(np.random.RandomState(4).randint(0, 2 ** 24, 90) / 2 ** 17),
}


def lookup(c, spots, t, n):
    X = np.array(SPOTS[spots][:t]).reshape(-1, 1)
    D = np.abs(X - X.T)
    T = [[int(j) for j in np.argsort(D[i], kind="stable") if j != i][:n]
         for i in range(t)]
    w, _ = wrapper(c, c.arr(X.astype(object) if c.sym else X), n)
    return w, T


class Choice:
    """numpy.random.choice and permutation: any answer they document."""

    def __init__(self, c, few=99):
        self.c = c
        self.few = few  # the later picks follow the first ones
        self.n = itertools.count()
        stubs.patch(c, "random.choice", self.choice)
        stubs.patch(c, "random.permutation", self.permutation)

    def pick(self, m):
        k = next(self.n)
        if k >= self.few:
            return (5 * k + self.few) % m
        v = self.c.int(f"pick{k}", 0, 11)
        for j in range(m - 1):
            if self.c.branch(v <= (12 * (j + 1)) // m - 1):
                return j
        return m - 1

    def choice(self, a, size=None, replace=True, p=None):
        assert p is None
        pop = list(range(int(a))) if np.ndim(a) == 0 else list(np.asarray(a))
        k = 1 if size is None else int(size if np.ndim(size) == 0 else size[0])
        if not replace and k > len(pop):
            raise ValueError("Cannot take a larger sample than population "
                             "when replace is False")
        if not pop and k:
            raise ValueError("a cannot be empty unless no samples are taken")
        out = []
        for _ in range(k):
            j = self.pick(len(pop))
            out.append(pop[j] if replace else pop.pop(j))
        r = np.array(out, dtype=np.int64)
        return r[0] if size is None else r

    def permutation(self, a):
        pop = list(range(int(a))) if np.ndim(a) == 0 else list(np.asarray(a))
        return self.choice(pop, len(pop), replace=False)


def labels_of(c, t):
    return [c.int(f"lab{i}", -1, 1) for i in range(t)]


def larr(c, lab, one=None):
    a = np.array(lab, dtype=object)
    return c.arr(a if c.sym else a.astype(np.int64))


def mixed(c, lab, T, i):
    """The neighbors of point i do not all have one label."""
    return c.Or(*[c.Not(lab[T[i][0]] == lab[j]) for j in T[i][1:]])


def count(c, conds):
    s = c.const(0)
    for q in conds:
        s = s + c.ite(q, 1, 0)
    return s


def rows_match(c, idx, nn, T, label):
    idx, nn = whole(c, idx), whole(c, nn)
    c.ok(idx.ndim == 1, f"{label}: indices", str(idx.shape))
    got = [int(i) for i in idx]
    n = len(T[0])
    c.ok(nn.shape == (len(got), n), f"{label}: shape of neighbors",
         f"{nn.shape} for {len(got)} points")
    c.ok(all(0 <= i < len(T) for i in got), f"{label}: in range", str(got))
    c.ok(len(set(got)) == len(got), f"{label}: distinct", str(got))
    for r, i in enumerate(got):
        c.ok(sorted(nn[r]) == sorted(T[i]), f"{label}: its own neighbors",
             f"{list(nn[r])} for point {i}")
    return got


def filtered(c, got, lab, T, label):
    """Exactly the points with mixed neighbors, in order."""
    c.ok(got == sorted(got), f"{label}: in order", str(got))
    for i in range(len(T)):
        q = mixed(c, lab, T, i)
        c.check(q if i in got else c.Not(q),
                f"{label}: exactly the points with mixed neighbors",
                f"point {i}, batch {got}")


def balanced(c, got, lab, T, k, label):
    """Mixed neighbors; every class as often as its share allows."""
    for i in got:
        c.check(mixed(c, lab, T, i), f"{label}: mixed neighbors",
                f"point {i}, batch {got}")
    here = [c.Or(*[x == v for x in lab]) for v in (-1, 0, 1)]
    m = count(c, here)
    for v in (-1, 0, 1):
        have = count(c, [c.And(lab[i] == v, mixed(c, lab, T, i))
                         for i in range(len(T))])
        mine = count(c, [lab[i] == v for i in got])
        goal = []
        for cls in (1, 2, 3):
            share = k // cls
            goal.append(c.implies(m == cls, mine == c.min(have, share)))
        c.check(c.And(*goal), f"{label}: balanced", f"class {v}, batch {got}")


FIX = [dict(spots=s, t=t, n=n) for s, t, n in (
    ("line", 3, 2), ("pairs", 4, 2), ("mixed", 4, 2), ("line", 4, 3),
    ("line", 3, 1), ("pairs", 4, 1))]
FBIG = [dict(spots=s, t=5, n=n) for s in SPOTS for n in (2, 3)]


@case("full", grid=FIX, thorough=FBIG, backends=NT, max_paths=3000)
def full(c, spots, t, n):
    """full_filtered_batch."""
    from MuyGPyS.optimize.batch import full_filtered_batch

    w, T = lookup(c, spots, t, n)
    lab = labels_of(c, t)
    idx, nn = full_filtered_batch(w, larr(c, lab))
    filtered(c, rows_match(c, idx, nn, T, "full"), lab, T, "full")


@case("balanced", grid=[dict(f, k=k) for f in FIX[:4] for k in (2, 3)],
      thorough=[dict(f, k=k) for f in FBIG[:4] for k in (2, 4)],
      backends=NT, max_paths=6000)
def balanced_case(c, spots, t, n, k):
    """sample_balanced_batch with any sample."""
    from MuyGPyS.optimize.batch import sample_balanced_batch

    Choice(c)
    w, T = lookup(c, spots, t, n)
    lab = labels_of(c, t)
    c.assume(c.Or(*[mixed(c, lab, T, i) for i in range(t)]))
    idx, nn = sample_balanced_batch(w, larr(c, lab), k)
    balanced(c, rows_match(c, idx, nn, T, "balanced"), lab, T, k, "balanced")


def few_labels(c, t, classes, free):
    """Fixed labels but for some points."""
    lab = [c.const((i * i + i // 3) % classes - 1) for i in range(t)]
    for i in free:
        lab[i] = c.int(f"lab{i}", -1, classes - 2)
    return lab


@case("many", grid=[dict(t=t, n=n, k=k, classes=q) for t, n, k, q in (
    (24, 3, 9, 3), (12, 5, 6, 2), (40, 2, 30, 2))],
    backends=NT, max_paths=400)
def many(c, t, n, k, classes):
    """Many points, of which one label and one pick are open."""
    from MuyGPyS.optimize.batch import (
        full_filtered_batch, sample_balanced_batch, sample_batch)

    Choice(c, 1)
    w, T = lookup(c, "long", t, n)
    lab = few_labels(c, t, classes, (t // 2,))
    a = larr(c, lab)
    i, nn = full_filtered_batch(w, a)
    filtered(c, rows_match(c, i, nn, T, "full"), lab, T, "full")
    i, nn = sample_balanced_batch(w, a, k)
    balanced(c, rows_match(c, i, nn, T, "balanced"), lab, T, k, "balanced")
    i, nn = sample_batch(w, k, t)
    got = rows_match(c, i, nn, T, "uniform")
    c.ok(len(got) == k, "uniform: batch size", str(got))


@case("either", grid=[dict(f, k=k) for f in FIX[:2]
                      for k in (f["t"] - 1, f["t"], f["t"] + 1)],
      backends=NT, max_paths=6000)
def either(c, spots, t, n, k):
    """get_balanced_batch samples only when there are more points."""
    from MuyGPyS.optimize.batch import get_balanced_batch

    Choice(c)
    w, T = lookup(c, spots, t, n)
    lab = labels_of(c, t)
    c.assume(c.Or(*[mixed(c, lab, T, i) for i in range(t)]))
    idx, nn = get_balanced_batch(w, larr(c, lab), k)
    got = rows_match(c, idx, nn, T, "either")
    if t > k:
        balanced(c, got, lab, T, k, "either")
    else:
        filtered(c, got, lab, T, "either")


@case("uniform", grid=[dict(spots=s, t=t, n=n, k=k) for s, t, n, k in (
    ("line", 4, 2, 2), ("pairs", 4, 1, 3), ("line", 4, 2, 4),
    ("line", 3, 2, 7), ("mixed", 5, 2, 1))], backends=NT, max_paths=3000)
def uniform(c, spots, t, n, k):
    """sample_batch."""
    from MuyGPyS.optimize.batch import sample_batch

    Choice(c)
    w, T = lookup(c, spots, t, n)
    idx, nn = sample_batch(w, k, t)
    got = rows_match(c, idx, nn, T, "uniform")
    c.ok(len(got) == min(k, t), "uniform: batch size", str(got))
    if k >= t:
        c.ok(sorted(got) == list(range(t)), "uniform: all points", str(got))
