"""Powers of intervals."""
import mpmath
import numpy as np
from hypothesis import strategies as st

import gen
from core import Part, Skip, require
from exact import F, lower_ok, upper_ok

RULE = ("Bases: proper and improper intervals with int and float endpoints (full mantissas over many orders of "
        "magnitude, zero endpoints, degenerate), also in arrays; exponents: naturals 0..40 (int and the numpy integer types), "
        "negative integers and reals. Natural powers are compared with the exact range in rational numbers, the "
        "others with 300-bit mpmath. Non-trivial: exponent other than 1.")
ASSUMPTIONS = ["natural exponents: at most 4*n+4 units in the last place of slack per endpoint",
               "real exponents: relative slack 1e-11; exponents up to 12, bases within [1e-8, 1e8] or with zero endpoint",
               "even powers of improper intervals of negative numbers are outside the property (the existing tests pin "
               "an endpoint-wise convention there)"]
mpmath.mp.prec = 300
mpf = mpmath.mpf


def nat_range(p, n):
    a, b = F(p[0]), F(p[1])
    vals = [a ** n, b ** n]
    lo, hi = min(vals), max(vals)
    if n > 0 and n % 2 == 0 and a <= 0 <= b:
        lo = F(0)
    return lo, hi


def check_nat(case):
    p, (kind, n) = case["x"], case["n"]
    improper = p[0] > p[1]
    e = n if kind == "int" else getattr(np, kind)(n)
    if improper and n % 2 == 0 and p[0] <= 0:
        raise Skip()
    X = gen.mk(p)
    if case.get("inplace"):
        res = X
        res **= e
    else:
        res = X ** e
    what = "[%r, %r] ** %r" % (p[0], p[1], e)
    u = 4 * n + 4
    if not improper:
        lo, hi = nat_range(p, n)
        m = lower_ok(res.a, lo, u)
        require(m is None, "%s: lower endpoint %r %s", what, res.a, m)
        m = upper_ok(res.b, hi, u)
        require(m is None, "%s: upper endpoint %r %s", what, res.b, m)
        if n == 1:
            require(res.a == p[0] and res.b == p[1], "%s = [%r, %r]", what, res.a, res.b)
    else:
        # the dual of the range of the projection, rounded outwards
        hi, lo = nat_range([p[1], p[0]], n)
        m = lower_ok(res.a, lo, u)
        require(m is None, "%s: left endpoint %r %s", what, res.a, m)
        m = upper_ok(res.b, hi, u)
        require(m is None, "%s: right endpoint %r %s", what, res.b, m)
    require([X.a, X.b] == list(p), "the base was changed")
    if n == 1:
        return None
    return ["improper" if improper else "proper", "even" if n % 2 == 0 else "odd",
            "zero" if min(p) <= 0 <= max(p) else "one sign", "zeroth" if n == 0 else "higher"]


def strat_nat():
    e = st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(7, 40))
    ends = st.one_of(gen.numbers(-20, 20, big=0), gen.numbers(-20, 20, big=2 ** 30))
    return st.fixed_dictionaries({
        "x": st.one_of(gen.pair(ends), gen.pair(ends), gen.pair(ends), gen.pair(ends, improper=True, proper=False)),
        "n": st.tuples(st.sampled_from(["int", "int", "int", "int64", "int64", "int8", "int16", "int32", "uint8", "uint32",
                                        "uint64"]), e).map(list),
        "inplace": st.booleans()})


def real_pow(x, y):
    x, y = mpf(x), mpf(y)
    if x == 0:
        return mpf(0) if y > 0 else mpf("inf")
    return mpmath.exp(y * mpmath.log(x))


def check_real(case):
    p, y = case["x"], case["y"]
    X = gen.mk(p)
    res = X ** y
    vals = [real_pow(p[0], y), real_pow(p[1], y)]
    lo, hi = min(vals), max(vals)
    what = "[%r, %r] ** %r = [%r, %r]" % (p[0], p[1], y, res.a, res.b)
    require(mpf(res.a) <= lo, "%s: lower endpoint is above %s", what, mpmath.nstr(lo, 20))
    require(mpf(res.b) >= hi, "%s: upper endpoint is below %s", what, mpmath.nstr(hi, 20))
    if lo != mpmath.inf:
        require(lo - mpf(res.a) <= lo * mpf("1e-11") + mpf("1e-300"), "%s: lower endpoint is far below %s", what,
                mpmath.nstr(lo, 20))
    if hi != mpmath.inf:
        require(mpf(res.b) - hi <= hi * mpf("1e-11") + mpf("1e-300"), "%s: upper endpoint is far above %s", what,
                mpmath.nstr(hi, 20))
    return ["negative" if y < 0 else "positive", "integer" if y == int(y) else "real",
            "zero" if p[0] == 0 else "positive base"]


def strat_real():
    y = st.one_of(st.integers(-6, -1), gen.reals(-12, 12), st.sampled_from([0.5, -0.5, 1 / 3, 1.5, 2.0, 3.0, -1.0]))
    y = y.filter(lambda v: v != 0 and abs(v) > 1e-6)
    pos = st.one_of(st.floats(1e-8, 1e8), st.integers(1, 50), st.floats(0.1, 10.0))
    base = st.one_of(st.tuples(pos, pos).map(sorted), pos.map(lambda v: [v, v]),
                     pos.map(lambda v: [type(v)(0), v]))
    return st.fixed_dictionaries({"x": base.map(list), "y": y}).filter(lambda c: not (c["x"][1] == 0))


def check_raise(case):
    p, y = case["x"], case["y"]
    try:
        res = gen.mk(p) ** y
    except ValueError:
        return "raised"
    require(False, "[%r, %r] ** %r = %r although the power is not defined on negative numbers", p[0], p[1], y, res)


def strat_raise():
    neg = st.one_of(gen.reals(-10, -1e-6), st.integers(-9, -1))
    top = st.one_of(gen.reals(-10, 10), st.integers(-9, 9))
    y = st.one_of(st.integers(-5, -1), st.sampled_from([0.5, 1.5, -0.5, 2.5, 1 / 3]), gen.reals(-5, 5))
    return st.fixed_dictionaries({
        "x": st.tuples(neg, top).map(lambda t: [min(t), max(t)]),
        "y": y.filter(lambda v: isinstance(v, int) or v != int(v))})


def check_array(case):
    rows, n = case["x"], case["n"]
    A = gen.mk_array(rows)
    if case.get("vary"):
        n = (np.arange(A._data.size).reshape(A.shape) * case["vary"] + n) % 6
        n = n.astype(case["dtype"])
    N = np.broadcast_to(np.asarray(n, dtype=object), A.shape)
    R = A ** n
    require(R.shape == A.shape, "shape of the power is %r", R.shape)
    for idx in np.ndindex(*A.shape):
        e = A[idx] ** int(N[idx])
        require(R[idx].a == e.a and R[idx].b == e.b, "element %r of the array power is %r, not %r", idx, R[idx], e)
    return "array%d" % A.ndim


def strat_array():
    p = gen.pair(gen.numbers(-5, 5, big=0))
    shape = st.tuples(st.integers(1, 3), st.integers(1, 3))
    m = shape.flatmap(lambda s: st.lists(st.lists(p, min_size=s[1], max_size=s[1]), min_size=s[0], max_size=s[0]))
    return st.fixed_dictionaries({"x": st.one_of(m, st.lists(p, min_size=1, max_size=4)), "n": st.integers(0, 5),
                                  "vary": st.integers(0, 5), "dtype": st.sampled_from(["int64", "int32", "uint8"])})


PARTS = [
    Part("natural", strat_nat, check_nat, 9000, shards=3, rule="x ** n against the exact range"),
    Part("real", strat_real, check_real, 3000, shards=2, rule="x ** y, x >= 0, y negative or not an integer"),
    Part("undefined", strat_raise, check_raise, 800, rule="negative base with a non-natural exponent raises ValueError"),
    Part("array", strat_array, check_array, 600, rule="powers of interval arrays are elementwise"),
]
