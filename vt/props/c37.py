"""Copies and pickles: equal to the original and independent of it."""
import copy
import math
import operator
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, require

RULE = ("Proper and improper intervals with integer, floating-point, huge, infinite and NaN endpoints, arrays of up to three dimensions (also slices, "
        "transposes and empty ones), lists, dictionaries and data frames of intervals, linear constraints and fitted WILS and ISPAE models; copy.copy, "
        "copy.deepcopy, their copy methods and pickle with every protocol. Oracle: the original, before and after writes to either side. "
        "Non-trivial: every case.")
ASSUMPTIONS = ["the copy of a list, dictionary or data frame is deep where Python's and pandas' own functions make it deep"]
WAYS = ["copy", "deepcopy", "method", "p0", "p1", "p2", "p3", "p4", "p5"]
BIN = [operator.add, operator.sub, operator.mul]


def clone(x, way):
    if way == "copy":
        return copy.copy(x)
    if way == "deepcopy":
        return copy.deepcopy(x)
    if way == "method":
        return x.copy() if hasattr(x, "copy") else copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, protocol=int(way[1])))


def num(u, v):
    return (u == v or (u != u and v != v)) and isinstance(u, int) == isinstance(v, int) and (u == u and math.copysign(1, u) == math.copysign(1, v) or u != u)


def same(x, y):
    if isinstance(x, ip.ARITHMETICS):
        return type(x) is type(y) and num(x.a, y.a) and num(x.b, y.b)
    if isinstance(x, ip.ArrayInterval):
        return (type(y) is type(x) and x.shape == y.shape and x.ndim == y.ndim and list(x.ranges) == list(y.ranges) and x.data.shape == y.data.shape and
                all(same(u, v) for u, v in zip(x.data.ravel(), y.data.ravel())))
    if isinstance(x, np.ndarray):
        return type(x) is type(y) and x.shape == y.shape and x.dtype == y.dtype and all(same(u, v) for u, v in zip(x.ravel(), y.ravel()))
    if isinstance(x, pd.DataFrame):
        return list(x.columns) == list(y.columns) and same(x.to_numpy(), y.to_numpy())
    if isinstance(x, dict):
        return type(x) is type(y) and list(x) == list(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(same(u, v) for u, v in zip(x, y))
    return type(x) is type(y) and (x == y or x != x)


end = st.one_of(st.integers(-9, 9), gen.dyadic(), st.floats(allow_nan=False), st.integers(-2 ** 80, 2 ** 80), st.sampled_from([0.0, -0.0, math.inf, -math.inf]))


@st.composite
def strat(draw):
    what = draw(st.sampled_from(["one", "one", "array", "array", "array", "list", "dict", "frame", "result"]))
    shape = draw(st.sampled_from([[1], [2], [3], [0], [2, 2], [2, 3], [1, 2, 2]]))
    n = max(2, int(np.prod(shape)))
    e = st.integers(-9, 9).map(float) if what == "result" else end
    return {"what": what, "shape": shape, "x": draw(st.lists(st.tuples(e, e).map(list), min_size=n, max_size=n)), "kaucher": draw(st.booleans()),
            "nan": draw(st.integers(0, 9)) == 0, "view": draw(st.sampled_from(["", "", "T", "rev"])), "way": draw(st.sampled_from(WAYS)), "op": draw(st.integers(0, 2))}


def one(p, kaucher):
    x = ip.Interval(p[0], p[1], sortQ=not kaucher)
    return x


def check(case):
    way, what = case["way"], case["what"]
    els = [one(p, case["kaucher"]) for p in case["x"]]
    if case["nan"]:
        els[0] = ip.Interval(float("nan"), float("nan"))
    shape = tuple(case["shape"])
    data = np.empty(int(np.prod(shape)), dtype=object)
    data[:] = els[:len(data)]
    A = ip.ArrayInterval(data.reshape(shape))
    A = A.T if case["view"] == "T" else A[::-1] if case["view"] == "rev" else A
    x = {"one": els[0], "array": A, "list": [els[0], A, (els[1], 2)], "dict": {"u": els[1], "v": A, "w": 1.5},
         "frame": pd.DataFrame({"p": els, "q": els[::-1]}), "result": BIN[case["op"]](els[0], els[1])}[what]
    if what == "list" and way == "method":
        way = "deepcopy"
    y = clone(x, way)
    require(same(x, y), "%s (%s) of %r is %r", what, way, x, y)
    f = BIN[case["op"]]
    if what in ("one", "result", "array") and not case["nan"] and not any(math.isinf(float(v)) for p in case["x"] for v in p):
        try:
            want = f(x, els[1])
        except OverflowError:
            want = None
        if want is not None:
            require(same(want, f(y, els[1])), "%s (%s): an operation gives %r with the copy and %r with the original", what, way, f(y, els[1]), want)
    if what in ("list", "dict"):
        k = 1 if what == "list" else "v"
        if way in ("copy", "method") or A.data.size == 0:
            return way                                # shallow, like any list
        x, y = x[k], y[k]
    if isinstance(x, ip.ArrayInterval) and x.data.size:
        keep = copy.deepcopy(x)
        y[(0,) * y.ndim] = 77
        require(same(x, keep), "a write to the copy (%s) of an array changed the original", way)
        y += 1
        y[...] = 3
        require(same(x, keep), "a write to the copy (%s) of an array changed the original", way)
        y = clone(x, way)
        x[...] = -5
        require(same(y, keep), "a write to the original changed its copy (%s)", way)
    return [what, way, "kaucher" if case["kaucher"] else "classical"]


@st.composite
def strat_model(draw):
    m, n = draw(st.integers(2, 4)), draw(st.integers(1, 2))
    iv = st.tuples(st.integers(-8, 8), st.integers(0, 6)).map(lambda t: [t[0] / 2, (t[0] + t[1]) / 2])
    return {"what": draw(st.sampled_from(["WILS", "ISPAE", "constraint"])), "n": n, "A": draw(st.lists(st.lists(iv, min_size=n, max_size=n), min_size=m, max_size=m)),
            "b": draw(st.lists(iv, min_size=m, max_size=m)), "way": draw(st.sampled_from([w for w in WAYS if w != "method"])),
            "basis": draw(st.sampled_from(["monom", "chebyshev", "legendre", "hermite", "laguerre"]))}


def plain(e):
    return {k: (np.asarray(v).tolist() if isinstance(v, (np.ndarray, list)) else repr(v)) for k, v in dict(e).items()}


def check_model(case):
    way = case["way"]
    A, b = gen.mk_array(case["A"]), gen.mk_array(case["b"])
    if case["what"] == "constraint":
        C = ip.LinearConstraint(A.mid, lb=b.a, ub=b.b + 1)
        D = clone(C, way)
        require(np.array_equal(C.C, D.C) and np.array_equal(C.b, D.b) and C.mu == D.mu, "the copy (%s) of a constraint has other rows", way)
        x = b.mid[:case["n"]]
        require(C.largeCondQ(x, 0) == D.largeCondQ(x, 0), "the copy (%s) of a constraint decides differently", way)
        return "constraint"
    if case["what"] == "WILS":
        M, other = ip.WILS(), A
        M.fit(A, b, maxiter=30)
    else:
        M, other = ip.ISPAE(basis=case["basis"]), pd.DataFrame({"c%d" % j: list(A[:, j].data) for j in range(case["n"])})
        M.fit(other, b, order=2, maxiter=30)
    first, pred = plain(M.estimator), M.predict(other)
    N = clone(M, way)
    require(plain(N.estimator) == first, "the copy (%s) of a fitted %s has another estimator", way, case["what"])
    require(same(ip.asinterval(N.predict(other)), ip.asinterval(pred)), "the copy (%s) of a fitted %s predicts differently", way, case["what"])
    N.fit(other, b + 1, maxiter=3)
    require(plain(M.estimator) == first and same(ip.asinterval(M.predict(other)), ip.asinterval(pred)), "fitting the copy (%s) of a %s changed the original", way, case["what"])
    return case["what"]


PARTS = [
    Part("values", strat, check, 3000, thorough=60000, shards=4, rule="intervals, arrays and containers of them"),
    Part("models", strat_model, check_model, 200, thorough=4000, shards=3, rule="constraints and fitted models"),
]
