"""Order and inclusion relations."""
import operator

import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require

RULE = ("Pairs and triples of intervals and numbers that share endpoints, differ in the last bit, are nested, disjoint, "
        "overlapping, degenerate or improper, also in arrays. Oracle: the endpoint definitions evaluated exactly, the "
        "set meaning checked with points, and the laws of orders. Non-trivial: the operands are not equal.")
ASSUMPTIONS = ["x < y means a(x) < a(y) and b(x) < b(y), likewise for the other comparisons; inclusion means "
               "a(x) >= a(y) and b(x) <= b(y)", "`in` for arrays on the right side and supercontain for arrays are not "
               "examined (their meaning is not documented); comparing an array with a single interval, or a numpy "
               "number on the left with an interval, is refused by the library with an exception"]
CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq}


def cmp_def(op, x, y):
    f = CMP.get(op)
    if op == "!=":
        return x[0] != y[0] or x[1] != y[1]
    return f(x[0], y[0]) and f(x[1], y[1])


@st.composite
def group(draw, k=3, improper=True):
    """k intervals that are likely to share endpoints."""
    pool = draw(st.lists(st.one_of(gen.small_ints(-3, 3), gen.dyadic(-8, 8), gen.floats_any(-30, 30),
                                   st.integers(-2 ** 53, 2 ** 53)), min_size=2, max_size=4))
    pool = pool + [np.nextafter(float(v), np.inf) for v in pool[:2] if abs(v) < 2 ** 52] + [-pool[0]]
    pool = [v if isinstance(v, int) else float(v) for v in pool]
    out = []
    for _ in range(k):
        a, b = draw(st.sampled_from(pool)), draw(st.sampled_from(pool))
        if a > b and not (improper and draw(st.integers(0, 2)) == 0):
            a, b = b, a
        out.append([a, b])
    return out


def truth(v, what):
    require(isinstance(v, (bool, np.bool_)), "%s is %r, no truth value", what, v)
    return bool(v)


def check_cmp(case):
    (x, y, z), num = case["g"], case["num"]
    X, Y, Z = gen.mk(x), gen.mk(y), gen.mk(z)
    for op in ("<", "<=", ">", ">=", "==", "!="):
        f = CMP.get(op, operator.ne)
        what = "[%r, %r] %s [%r, %r]" % (x[0], x[1], op, y[0], y[1])
        require(truth(f(X, Y), what) == cmp_def(op, x, y), "%s is %r", what, f(X, Y))
        v = gen.mk_scalar(num)
        what = "[%r, %r] %s %r" % (x[0], x[1], op, v)
        require(truth(f(X, v), what) == cmp_def(op, x, [num[1]] * 2), "%s is %r", what, f(X, v))
    le = lambda p, q: bool(p <= q)
    require(le(X, X), "%r is not <= itself", X)
    if le(X, Y) and le(Y, X):
        require(bool(X == Y), "antisymmetry fails for %r, %r", X, Y)
    if le(X, Y) and le(Y, Z):
        require(le(X, Z), "transitivity fails for %r, %r, %r", X, Y, Z)
    require((X == Y) == (not (X != Y)), "== and != agree for %r, %r", X, Y)
    return None if x == y else ["lt" if X < Y else "le" if X <= Y else "gt" if X > Y else "ge" if X >= Y else "none"]


def strat_cmp():
    return st.fixed_dictionaries({"g": group(), "num": gen.scalar(-30, 30)})


def check_incl(case):
    (x, y, z), num = case["g"], case["num"]
    X, Y, Z = gen.mk(x), gen.mk(y), gen.mk(z)
    sub = lambda p, q: p[0] >= q[0] and p[1] <= q[1]
    psub = lambda p, q: p[0] > q[0] and p[1] < q[1]
    what = "[%r, %r], [%r, %r]" % (x[0], x[1], y[0], y[1])
    for name, got, want in (
            ("in", X in Y, sub(x, y)), ("subset", ip.subset(X, Y), sub(x, y)),
            ("superset", ip.superset(X, Y), sub(y, x)), ("proper_subset", ip.proper_subset(X, Y), psub(x, y)),
            ("proper_superset", ip.proper_superset(X, Y), psub(y, x)), ("contain", ip.contain(X, Y), sub(x, y)),
            ("supercontain", ip.supercontain(X, Y), sub(y, x))):
        require(bool(got) == want, "%s of %s is %r", name, what, got)
    v = gen.mk_scalar(num)
    require((v in X) == (x[0] <= num[1] <= x[1]), "%r in [%r, %r] is %r", v, x[0], x[1], v in X)
    for e in y:
        require((e in X) == (x[0] <= e <= x[1]), "%r in [%r, %r] is %r", e, x[0], x[1], e in X)
    if X in Y and x[0] <= x[1]:
        require(x[0] in Y and x[1] in Y, "%s: the first is in the second but not its endpoints", what)
    if X in Y and Y in Z:
        require(X in Z, "inclusion is not transitive: %r, %r, %r", X, Y, Z)
    return None if x == y else "inside" if sub(x, y) else "outside" if sub(y, x) else "neither"


@st.composite
def strat_array(draw):
    shape = draw(st.sampled_from([[1], [2], [3], [2, 2], [3, 1], [1, 2, 2]]))
    n = int(np.prod(shape))
    g = draw(group(2 * n))
    if draw(st.booleans()):
        # mostly nested, so that the conjunctions are not always false
        for i in range(n):
            if draw(st.integers(0, 4)):
                a, b = g[2 * i]
                g[2 * i + 1] = [a - draw(st.integers(0, 1)), b + draw(st.integers(0, 1))]
    return {"shape": shape, "g": g, "num": draw(gen.scalar(-10, 10))}


def check_array(case):
    shape, g = tuple(case["shape"]), case["g"]
    xs, ys = g[0::2], g[1::2]
    mkarr = lambda ps: ip.ArrayInterval(np.array([gen.mk(p) for p in ps], dtype=object).reshape(shape))
    X, Y = mkarr(xs), mkarr(ys)
    sub = lambda p, q: p[0] >= q[0] and p[1] <= q[1]
    psub = lambda p, q: p[0] > q[0] and p[1] < q[1]
    for name, f, want in (("subset", ip.subset, all(map(sub, xs, ys))),
                          ("superset", ip.superset, all(map(sub, ys, xs))),
                          ("proper_subset", ip.proper_subset, all(map(psub, xs, ys))),
                          ("proper_superset", ip.proper_superset, all(map(psub, ys, xs)))):
        got = f(X, Y)
        require(np.ndim(got) == 0 and bool(got) == want, "%s of %r and %r is %r", name, X, Y, got)
    c = ip.contain(X, Y)
    require(np.shape(c) == shape and list(np.ravel(c)) == list(map(sub, xs, ys)), "contain of %r and %r is %r", X, Y, c)
    v = gen.mk_scalar(case["num"])
    for op in ("<", "<=", ">", ">=", "==", "!="):
        f = CMP.get(op, operator.ne)
        for other, qs in ((Y, ys), (v, [[case["num"][1]] * 2] * len(xs))):
            got = f(X, other)
            require(np.shape(got) == shape and [bool(t) for t in np.ravel(got)] == [cmp_def(op, p, q)
                                                                                 for p, q in zip(xs, qs)],
                    "%r %s %r is %r", X, op, other, got)
    return None if xs == ys else ["subset" if all(map(sub, xs, ys)) else "other", "dim%d" % len(shape)]


@st.composite
def strat_long(draw):
    """30 to 400 elements, made from a seed; where all but one are nested, the conjunctions depend on that one."""
    shape = draw(st.sampled_from([[30], [70], [129], [400], [20, 20], [64, 2]]))
    n = int(np.prod(shape))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    x = np.sort(rng.integers(-12, 13, (n, 2)) / 4, axis=1)
    e = draw(st.sampled_from([0, 1]))
    y = x + np.c_[-rng.integers(e, 3, n), rng.integers(e, 3, n)] / 4
    for k in rng.choice(n, draw(st.sampled_from([0, 0, 1, 1, n])), replace=False):
        y[k] = np.sort(rng.integers(-12, 13, 2) / 4)
    if draw(st.booleans()):
        x, y = y, x
    return {"shape": shape, "g": np.stack([x, y], axis=1).reshape(2 * n, 2).tolist(), "num": draw(gen.scalar(-3, 3))}


PARTS = [
    Part("long arrays", strat_long, check_array, 150, thorough=4000, shards=2, rule="relations of arrays of 30 to 400 elements"),
    Part("order", strat_cmp, check_cmp, 5000, shards=2, rule="comparisons and the laws of partial orders"),
    Part("inclusion", strat_cmp, check_incl, 5000, shards=2, rule="in, subset, superset, contain and their relatives"),
    Part("array", strat_array, check_array, 2500, shards=2, rule="relations of arrays"),
]
