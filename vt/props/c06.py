"""Characteristics of intervals and arrays."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require
from exact import F

RULE = ("Proper, improper and degenerate intervals with int and float endpoints of all sizes, alone, in 1-3 dimensional "
        "arrays, in lists and pandas series mixed with numbers. Oracle: the defining formulas in rational numbers, "
        "rounded to double. Non-trivial: non-degenerate intervals.")
ASSUMPTIONS = ["a characteristic may differ from the exact value by 2 units in the last place",
               "mig, abs and khi are examined for proper intervals, khi not for [0, 0]"]


def close(got, want, ulps=2):
    if isinstance(got, (int, np.integer)) and want == int(got):
        return True
    g = float(got)
    if math.isnan(g) or math.isinf(g):
        return False
    w = float(want)
    return abs(F(g) - want) <= ulps * F(math.ulp(w) if w else 5e-324)


def defs(p):
    a, b = F(p[0]), F(p[1])
    d = {"inf": a, "sup": b, "wid": b - a, "rad": (b - a) / 2, "mid": (a + b) / 2, "mag": max(abs(a), abs(b))}
    if a <= b:
        d["mig"] = F(0) if a <= 0 <= b else min(abs(a), abs(b))
        if (a, b) != (0, 0):
            d["khi"] = a / b if abs(a) <= abs(b) else b / a
    return d


def check_scalar(case):
    p = case["x"]
    X = gen.mk(p)
    what = "[%r, %r]" % tuple(p)
    d = defs(p)
    for k, w in d.items():
        if abs(w) > F(1.7e308):
            continue
        got = getattr(X, k)
        require(close(got, w), "%s of %s is %r", k, what, got)
        if hasattr(ip, k):
            g = getattr(ip, k)(X)
            require(g == got or close(g, w), "intvalpy.%s of %s is %r", k, what, g)
    require(X.a == p[0] and X.b == p[1], "endpoints of %s are %r, %r", what, X.a, X.b)
    n = -X
    require(n.a == -p[1] and n.b == -p[0], "-%s is [%r, %r]", what, n.a, n.b)
    c = X.copy()
    require(c.a == p[0] and c.b == p[1] and type(c) is type(X), "copy of %s is %r", what, c)
    f = X.to_float()
    require(f.a == float(p[0]) and f.b == float(p[1]), "to_float of %s is %r", what, f)
    require(not ip.isnan(X), "isnan of %s", what)
    if "mig" in d:
        e = abs(X)
        require(close(e.a, d["mig"]) and close(e.b, d["mag"]), "abs of %s is [%r, %r]", what, e.a, e.b)
    require(isinstance(X, ip.ClassicalArithmetic) == (p[0] <= p[1]), "%s is a %s", what, type(X).__name__)
    if p[0] == p[1]:
        return None
    lo, hi = min(p), max(p)
    return ["proper" if p[0] < p[1] else "improper",
            "neg" if hi < 0 else "pos" if lo > 0 else "end0" if 0 in (lo, hi) else "zero"]


def strat_scalar():
    return st.fixed_dictionaries({"x": st.one_of(gen.pair(gen.numbers(-300, 300), improper=True),
                                                 gen.pair(gen.numbers(-20, 20)), gen.pair(gen.numbers(-20, 20)))})


@st.composite
def strat_array(draw):
    shape = draw(st.sampled_from([[1], [2], [3], [5], [1, 1], [2, 3], [3, 2], [2, 2, 2], [1, 4]]))
    n = int(np.prod(shape))
    ends = st.one_of(st.just(gen.numbers(-20, 20, big=2 ** 50)), st.just(gen.small_ints()), st.just(gen.dyadic()))
    return {"shape": shape, "x": draw(st.lists(gen.pair(draw(ends), improper=True), min_size=n, max_size=n))}


def cells(case):
    return np.array([gen.mk(p) for p in case["x"]], dtype=object).reshape(case["shape"])


def check_array(case):
    shape = tuple(case["shape"])
    A = ip.ArrayInterval(cells(case))
    require(A.shape == shape and A.ndim == len(shape) and len(A) == shape[0], "shape %r, ndim %r, len %r instead of %r",
            A.shape, A.ndim, len(A), shape)
    ds = [defs(p) for p in case["x"]]
    names = set.intersection(*[set(d) for d in ds])
    for k in sorted(names):
        for src, got in (("attribute", getattr(A, k)), ("function", getattr(ip, k)(A) if hasattr(ip, k) else None)):
            if got is None:
                continue
            require(isinstance(got, np.ndarray) and got.shape == shape and got.dtype != object,
                    "%s %s of an array of shape %r is %r", src, k, shape, got)
            for j, g in enumerate(got.ravel()):
                require(close(g, ds[j][k]), "%s %s of element %r = %r is %r", src, k, j, case["x"][j], g)
    require(np.array_equal(A.a, A.inf) and np.array_equal(A.b, A.sup), "a, b differ from inf, sup")
    for k in ("dual", "pro", "opp"):
        R = getattr(A, k)
        for idx in np.ndindex(*shape):
            e = getattr(A[idx], k)
            require(R[idx].a == e.a and R[idx].b == e.b and type(R[idx]) is type(e), "%s of element %r is %r, not %r", k,
                    idx, R[idx], e)
    N = -A
    for idx in np.ndindex(*shape):
        require(N[idx].a == -A[idx].b and N[idx].b == -A[idx].a, "negation of element %r is %r", idx, N[idx])
    if "mig" in names:
        B = abs(A)
        for j, idx in enumerate(np.ndindex(*shape)):
            require(close(B[idx].a, ds[j]["mig"]) and close(B[idx].b, ds[j]["mag"]), "abs of %r is %r", A[idx], B[idx])
    T = A.to_float()
    require(T.shape == shape and all(T[i].a == A[i].a and T[i].b == A[i].b for i in np.ndindex(*shape)), "to_float: %r", T)
    n = ip.isnan(A)
    require(np.shape(n) == shape and not np.any(n), "isnan is %r", n)
    if all(p[0] == p[1] for p in case["x"]):
        return None
    return ["dim%d" % len(shape), "mixed" if len({type(v) for p in case["x"] for v in p}) > 1 else "uniform"]


@st.composite
def strat_mixed(draw):
    item = st.one_of(gen.pair(gen.numbers(-20, 20, big=2 ** 50)), gen.numbers(-20, 20, big=2 ** 50))
    return {"x": draw(st.lists(item, min_size=1, max_size=5)), "form": draw(st.sampled_from(["list", "tuple", "series",
                                                                                            "object", "number"]))}


def check_mixed(case):
    items, form = case["x"], case["form"]
    vals = [gen.mk(p) if isinstance(p, list) else p for p in items]
    pairs = [p if isinstance(p, list) else [p, p] for p in items]
    if form == "number":
        vals, pairs = [v for v, p in zip(vals, items) if not isinstance(p, list)], [
            [p, p] for p in items if not isinstance(p, list)]
        if not vals:
            raise Skip()
        data = None
    elif form == "list":
        data = vals
    elif form == "tuple":
        data = tuple(vals)
    elif form == "series":
        data = pd.Series(vals, dtype=object)
    else:
        data = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            data[i] = v
    for k in ("inf", "sup", "mid", "rad", "wid", "mag"):
        f = getattr(ip, k)
        if form == "number":
            got = [f(v) for v in vals]
        else:
            got = f(data)
            require(np.shape(got) == (len(vals),), "%s of %s %r has shape %r", k, form, items, np.shape(got))
        for g, p in zip(got, pairs):
            require(close(g, defs(p)[k]), "%s of %s %r: %r for %r", k, form, items, g, p)
    return form


@st.composite
def strat_long(draw):
    """30 to 400 elements, made from a seed."""
    shape = draw(st.sampled_from([[30], [70], [129], [400], [20, 20], [64, 2]]))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    x = rng.choice([rng.integers(-40, 41, (int(np.prod(shape)), 2)) / 8, rng.uniform(-9, 9, (int(np.prod(shape)), 2))])
    if draw(st.integers(0, 2)):
        x = np.sort(x, axis=1)
    return {"shape": shape, "x": x.tolist()}


PARTS = [
    Part("long arrays", strat_long, check_array, 100, thorough=3000, shards=2, rule="arrays of 30 to 400 elements"),
    Part("scalar", strat_scalar, check_scalar, 7000, shards=2, rule="attributes and functions of single intervals"),
    Part("array", strat_array, check_array, 3000, shards=3, rule="characteristics of arrays are elementwise"),
    Part("mixed", strat_mixed, check_mixed, 1200, rule="inf, sup, mid, rad, mag of lists, series and numbers"),
]
