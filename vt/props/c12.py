"""Intersection and distance."""
import math

import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require
from exact import F

RULE = ("Pairs of proper intervals that overlap, nest, touch, coincide or are disjoint (gaps from a unit in the last place up), "
        "as intervals, arrays, mixtures and plain numbers or lists. Oracle: max of the left and min of the right "
        "endpoints; an empty intersection is an interval of NaN. Non-trivial: the operands differ.")
ASSUMPTIONS = ["gaps below 2e-15, in absolute terms, may count as contact (the code treats 1e-15 as contact)"]


@st.composite
def two(draw):
    ends = draw(st.sampled_from(["dyadic", "int", "any"]))
    ends = {"dyadic": gen.dyadic(), "int": gen.small_ints(), "any": gen.floats_any(-20, 20)}[ends]
    x = draw(gen.pair(ends))
    k = draw(st.integers(0, 7))
    if k <= 2:
        y = draw(gen.pair(ends))
    elif k == 3:
        y = [x[1], x[1] + abs(draw(ends))]                   # touching
    elif k == 4:
        g = max(1.0, abs(x[1])) * 10.0 ** -draw(st.integers(0, 12))
        y = [x[1] + g, x[1] + g + abs(draw(ends))]           # small gap
    elif k == 7:
        a = x[1] * draw(st.sampled_from([1.0, 2.0 ** 20, 2.0 ** 30, 1e16]))
        x = [x[0], a] if a >= x[0] else [a, a]
        a = math.nextafter(a, math.inf)
        y = [a, a + abs(draw(ends))]                         # the next number
    elif k == 5:
        c = (x[0] + x[1]) / 2
        y = [min(c, x[1]), max(c, x[1])]
    else:
        y = list(x)
    return [x, y] if draw(st.booleans()) else [y, x]


def expect(x, y):
    lo, hi = max(x[0], y[0]), min(x[1], y[1])
    if lo <= hi:
        return lo, hi
    if lo - hi > 2e-15:
        return None
    return "either"


def judge(got, x, y, what):
    e = expect(x, y)
    require(isinstance(got, ip.ARITHMETICS), "%s is %r", what, got)
    if e is None:
        require(math.isnan(got.a) and math.isnan(got.b), "%s is [%r, %r] although the intervals are disjoint", what, got.a,
                got.b)
        require(bool(ip.isnan(got)), "isnan of an empty intersection is false")
    elif e != "either":
        require(got.a == e[0] and got.b == e[1], "%s is [%r, %r], not [%r, %r]", what, got.a, got.b, e[0], e[1])
        require(not ip.isnan(got), "isnan of %r is true", got)


def kind(x, y):
    e = expect(x, y)
    if e is None:
        return "disjoint"
    if e == "either":
        return "contact"
    return "touch" if e[0] == e[1] else "nested" if e in (tuple(x), tuple(y)) else "overlap"


def check_scalar(case):
    x, y = case["p"]
    X, Y = gen.mk(x), gen.mk(y)
    judge(ip.intersection(X, Y), x, y, "intersection of %r and %r" % (x, y))
    judge(ip.intersection(Y, X), y, x, "intersection of %r and %r" % (y, x))
    n = case["n"]
    judge(ip.intersection(X, n), x, [n, n], "intersection of %r and the number %r" % (x, n))
    judge(ip.intersection(n, X), x, [n, n], "intersection of the number %r and %r" % (n, x))
    require([X.a, X.b] == x and [Y.a, Y.b] == y, "an operand was changed")
    return None if x == y else kind(x, y)


def strat_scalar():
    return st.fixed_dictionaries({"p": two(), "n": st.one_of(gen.small_ints(), gen.dyadic())})


@st.composite
def strat_array(draw):
    shape = draw(st.sampled_from([[1], [2], [3], [2, 2], [3, 2], [2, 1, 2]]))
    n = int(np.prod(shape))
    return {"shape": shape, "p": draw(st.lists(two(), min_size=n, max_size=n)),
            "mode": draw(st.sampled_from(["aa", "aa", "ai", "ia", "al", "la"]))}


def check_array(case):
    shape, ps, mode = tuple(case["shape"]), case["p"], case["mode"]
    xs, ys = [p[0] for p in ps], [p[1] for p in ps]
    mkarr = lambda q: ip.ArrayInterval(np.array([gen.mk(p) for p in q], dtype=object).reshape(shape))
    l, r = mode
    if l == "i":
        xs = [xs[0]] * len(xs)
    if r == "i":
        ys = [ys[0]] * len(ys)
    if l == "l":
        xs = [[p[0], p[0]] for p in xs]
    if r == "l":
        ys = [[p[0], p[0]] for p in ys]
    A = {"a": lambda: mkarr(xs), "i": lambda: gen.mk(xs[0]), "l": lambda: np.array([p[0] for p in xs]).reshape(shape).tolist()}[l]()
    B = {"a": lambda: mkarr(ys), "i": lambda: gen.mk(ys[0]), "l": lambda: np.array([p[0] for p in ys]).reshape(shape).tolist()}[r]()
    R = ip.intersection(A, B)
    require(isinstance(R, ip.ArrayInterval) and R.shape == shape, "intersection (%s) of shape %r is %r", mode, shape, R)
    n = ip.isnan(R)
    for k, idx in enumerate(np.ndindex(*shape)):
        judge(R[idx], xs[k], ys[k], "element %r (%s): intersection of %r and %r" % (idx, mode, xs[k], ys[k]))
        require(bool(n[idx]) == math.isnan(R[idx].a), "isnan of %r is %r", R[idx], n[idx])
    ks = {kind(x, y) for x, y in zip(xs, ys)}
    return [mode, "some empty" if "disjoint" in ks and len(ks) > 1 else "empty" if ks == {"disjoint"} else "nonempty"]


@st.composite
def strat_long(draw):
    """30 to 400 pairs, made from a seed."""
    shape = draw(st.sampled_from([[30], [70], [129], [400], [20, 20], [64, 2]]))
    n = int(np.prod(shape))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    q = draw(st.sampled_from([1.0, 4.0, 1 / 3]))
    wide = draw(st.sampled_from([4, 12, 40]))           # wide ones nearly always meet
    a = rng.integers(-12, 13, (n, 2)) * q
    b = a + rng.integers(0, wide, (n, 2)) * q
    touch = rng.random(n) < 0.2
    a[touch, 1] = b[touch, 0]
    b[:, 1] = np.maximum(a[:, 1], b[:, 1])
    return {"shape": shape, "p": np.stack([a, b], axis=-1).tolist(), "mode": draw(st.sampled_from(["aa", "aa", "ai", "ia", "al", "la"]))}


PARTS = [
    Part("long arrays", strat_long, check_array, 150, thorough=4000, shards=2, rule="30 to 400 elements"),
    Part("scalar", strat_scalar, check_scalar, 5000, shards=2, rule="two intervals"),
    Part("array", strat_array, check_array, 3000, shards=3, rule="arrays, mixtures, lists"),
]
