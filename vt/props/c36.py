"""Printed form: repr and str show the intervals that are there."""
import ast
import math
import re

import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, require

RULE = ("Proper and improper intervals with endpoints of all magnitudes (integers, halves, decimals, infinities), results of operations, vectors, matrices "
        "and three-dimensional arrays of up to 60 intervals, slices and transposes, and long arrays which numpy abbreviates. "
        "Oracle: the text parsed back: endpoints within half a unit of the sixth significant digit, nesting of the lists = shape, in order. "
        "Non-trivial: a number with more than one digit, or more than one interval.")
ASSUMPTIONS = ["numpy's default print options (the library leaves the layout in lines to numpy); only the content is claimed, not the line breaks"]
NUM = r"([-+]?(?:inf|nan|\d+(?:\.\d+)?(?:e[-+]?\d+)?))"
ONE = re.compile(r"'?\[%s, %s\]'?\Z" % (NUM, NUM))

end = st.one_of(st.integers(-12, 12), st.integers(-10 ** 7, 10 ** 7).map(lambda k: k / 10), st.floats(-1e3, 1e3),
                st.floats(allow_nan=False, allow_infinity=False), st.integers(-2 ** 53, 2 ** 53),
                st.tuples(st.integers(1, 9999999), st.integers(-300, 300), st.booleans()).map(lambda t: (-1 if t[2] else 1) * t[0] * 10.0 ** min(t[1], 290)),
                st.sampled_from([0.0, 999999.5, 9999995.0, 1e-5, 0.0001, 123456.5, 100000.0, 1e15, 1e16]))


def shown(text, x, what):
    """The number in text is x to six significant digits."""
    x = float(x)
    t = float(text)
    if not math.isfinite(x) or x == 0:
        require(t == x, "%s: %r is shown as %s", what, x, text)
        return
    digit = 10.0 ** (math.floor(math.log10(abs(x)) + 1e-12) - 5)
    if abs(x) < 1e-290:
        require(abs(t - x) <= 1e-4 * abs(x) + 1e-321, "%s: %r is shown as %s", what, x, text)
        return
    require(abs(t - x) <= 0.5 * digit * (1 + 1e-6), "%s: %r is shown as %s", what, x, text)


def one(text, a, b, what):
    m = ONE.match(text)
    require(m is not None, "%s: an interval is shown as %s", what, text)
    shown(m.group(1), a, what)
    shown(m.group(2), b, what)


@st.composite
def strat_one(draw):
    return {"x": draw(gen.pair(end, improper=True)), "op": draw(st.sampled_from([None, None, "neg", "half", "dual", "pro", "inv"])),
            "array": draw(st.booleans())}


def check_one(case):
    x = ip.Interval(*case["x"], sortQ=False)
    op = case["op"]
    if op == "neg":
        x = -x
    elif op == "half":
        x = x * 0.5
    elif op == "dual":
        x = x.dual
    elif op == "pro":
        x = x.pro
    elif op == "inv":
        if x.a * x.b <= 0 or abs(x.a) < 1e-300 or abs(x.b) < 1e-300:
            return None
        x = 1 / x
    a, b = x.a, x.b
    for s in (repr(x), str(x), "%s" % x, "{}".format(x)):
        one(s, a, b, "Interval(%r, %r)" % (a, b))
    s = repr([x])
    require(s == "[" + repr(x) + "]", "a list of one interval is shown as %s", s)
    require(x.a == a and x.b == b, "printing changed the interval")
    return op or "plain"


@st.composite
def strat_many(draw):
    shape = draw(st.sampled_from([[1], [2], [3], [5], [6], [7], [8], [13], [1, 1], [1, 4], [4, 1], [2, 2], [3, 3], [2, 6], [4, 5], [6, 6], [2, 1, 3], [2, 3, 2], [1, 1, 1], [3, 4, 5]]))
    ends = draw(st.sampled_from([0, 1, 2]))
    e = [st.integers(-9, 9), end, st.integers(-2000, 2000).map(lambda k: k / 8)][ends]
    n = int(np.prod(shape))
    # a few rows drawn, the others derived: long arrays stay cheap
    k = min(n, 9)
    p = [draw(gen.pair(e, improper=draw(st.integers(0, 3)) == 0)) for _ in range(k)]
    return {"shape": shape, "p": p, "view": draw(st.sampled_from([None, None, "T", "rev", "rows"]))}


def nested(text, what):
    m = re.match(r"Interval\((.*)\)\Z", text, re.S)
    require(m is not None, "%s is shown as %s", what, text)
    body = m.group(1)
    m = re.search(r"\],\s*shape=(\([\d, ]*\))\Z", body)
    shape = None
    if m is not None:
        shape = ast.literal_eval(m.group(1))
        body = body[:m.start() + 1]
    require(not body.rstrip().endswith(","), "%s is shown with a comma too many: %s", what, text)
    try:
        return ast.literal_eval(body), shape
    except (SyntaxError, ValueError):
        require(False, "%s is shown as %s", what, text)


def compare(t, el, what):
    """el: nested lists of intervals, t: nested lists of texts (with Ellipsis for numpy's abbreviation)."""
    if isinstance(el, list):
        require(isinstance(t, list), "%s: %r in place of a list", what, t)
        if Ellipsis in t:
            i = t.index(Ellipsis)
            require(len(el) > len(t) - 1 and i >= 1 and len(t) - 1 - i >= 1, "%s: abbreviated to %r", what, t)
            pairs = list(zip(t[:i], el[:i])) + list(zip(t[i + 1:], el[len(el) - (len(t) - 1 - i):]))
        else:
            require(len(t) == len(el), "%s: %d entries shown for %d", what, len(t), len(el))
            pairs = zip(t, el)
        for u, v in pairs:
            compare(u, v, what)
        return
    require(isinstance(t, str), "%s: %r in place of an interval", what, t)
    one(t, el.a, el.b, what)


def lists(X, idx=()):
    if len(idx) == len(X.shape):
        return X[idx]
    return [lists(X, idx + (i,)) for i in range(X.shape[len(idx)])]


def check_many(case):
    shape = tuple(case["shape"])
    n = int(np.prod(shape))
    p = [case["p"][i % len(case["p"])] for i in range(n)]
    X = ip.Interval(np.array([q[0] for q in p], dtype=object).reshape(shape), np.array([q[1] for q in p], dtype=object).reshape(shape), sortQ=False)
    if case["view"] == "T":
        X = X.T
    elif case["view"] == "rev":
        X = X[::-1]
    elif case["view"] == "rows":
        X = X[:max(1, shape[0] - 1)]
    what = "an array of shape %r" % (tuple(X.shape),)
    for s in (repr(X), str(X), "{}".format(X)):
        t, sh = nested(s, what)
        compare(t, lists(X), what)
        require(sh is None or tuple(sh) == tuple(X.shape), "%s is shown with the shape %r", what, sh)
    return "view" if case["view"] else "plain" if n > 1 else None


@st.composite
def strat_long(draw):
    return {"shape": draw(st.sampled_from([[1001], [1500], [40, 30], [2, 600], [600, 2], [12, 10, 10]])), "a": draw(st.integers(-50, 50)), "step": draw(st.sampled_from([1, 0.5, 0.125])),
            "w": draw(st.sampled_from([0, 1, 2.5]))}


def check_long(case):
    shape = tuple(case["shape"])
    a = (case["a"] + case["step"] * np.arange(int(np.prod(shape)))).reshape(shape)
    X = ip.Interval(a, a + case["w"])
    what = "an array of shape %r" % (shape,)
    t, sh = nested(repr(X), what)
    compare(t, lists(X), what)
    require(sh is None or tuple(sh) == shape, "%s is shown with the shape %r", what, sh)
    return "long"


PARTS = [
    Part("one", strat_one, check_one, quick=1500, thorough=40000, shards=2),
    Part("arrays", strat_many, check_many, quick=1000, thorough=25000, shards=5),
    Part("long", strat_long, check_long, quick=16, thorough=300, shards=1),
]
