"""Elementary functions enclose their range."""
import math

import mpmath
import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require

RULE = ("Intervals from points to many periods, endpoints placed on, next to and far from extrema (multiples of pi/2 "
        "up to 1e15), zero and negative endpoints for sqrt and log, overflowing and underflowing arguments for exp; "
        "scalars, arrays, plain numbers and lists, through intvalpy and numpy functions. The exact range comes from "
        "300-bit mpmath. Non-trivial: every case with a non-degenerate or irrational result.")
ASSUMPTIONS = ["slack allowed per endpoint: exp and log 4 units in the last place, sqrt relative 1e-12, "
               "sin and cos 1e-14 plus the square of 1e-15*(|a|+|b|+4)"]
mpmath.mp.prec = 400
mpf = mpmath.mpf
FN = {"sqrt": (ip.sqrt, np.sqrt), "exp": (ip.exp, np.exp), "log": (ip.log, np.log), "sin": (ip.sin, np.sin),
      "cos": (ip.cos, np.cos)}


def trig_range(name, a, b):
    f = mpmath.sin if name == "sin" else mpmath.cos
    a, b = mpf(a), mpf(b)
    va, vb = f(a), f(b)
    lo, hi = min(va, vb), max(va, vb)
    two = 2 * mpmath.pi
    top = mpmath.pi / 2 if name == "sin" else mpf(0)
    bot = top + mpmath.pi
    if mpmath.ceil((a - top) / two) <= mpmath.floor((b - top) / two):
        hi = mpf(1)
    if mpmath.ceil((a - bot) / two) <= mpmath.floor((b - bot) / two):
        lo = mpf(-1)
    return lo, hi


def exact(name, a, b):
    if name in ("sin", "cos"):
        return trig_range(name, a, b)
    if name == "exp":
        return mpmath.exp(mpf(a)), mpmath.exp(mpf(b))
    a = max(a, 0)
    if name == "sqrt":
        return mpmath.sqrt(mpf(a)), mpmath.sqrt(mpf(b))
    ninf = mpf("-inf")
    return (mpmath.log(mpf(a)) if a else ninf), (mpmath.log(mpf(b)) if b else ninf)


def slack(name, v, a, b):
    if name in ("exp", "log"):
        if not mpmath.isfinite(v):
            return mpf(0)
        if abs(v) > mpf(1.7e308):
            return mpf("inf")
        return 4 * mpf(math.ulp(float(v)))
    if name == "sqrt":
        return abs(v) * mpf("1e-12") + mpf("1e-300")
    e = (abs(a) + abs(b) + 4) * 1e-15
    return mpf(1e-14) + mpf(e) ** 2


def judge(name, res, p, what):
    a, b = p
    if name in ("sqrt", "log") and b < 0:
        require(math.isnan(res.a) and math.isnan(res.b), "%s = [%r, %r] although it is not defined anywhere", what,
                res.a, res.b)
        return
    lo, hi = exact(name, a, b)
    require(not (math.isnan(res.a) or math.isnan(res.b)), "%s is nan", what)
    require(mpf(res.a) <= lo, "%s = [%r, %r]: the lower endpoint is above %s", what, res.a, res.b, mpmath.nstr(lo, 22))
    require(mpf(res.b) >= hi, "%s = [%r, %r]: the upper endpoint is below %s", what, res.a, res.b, mpmath.nstr(hi, 22))
    if mpmath.isfinite(lo):
        require(lo - mpf(res.a) <= slack(name, lo, a, b), "%s = [%r, %r]: the lower endpoint is far below %s", what,
                res.a, res.b, mpmath.nstr(lo, 22))
    if mpmath.isfinite(hi):
        require(mpf(res.b) - hi <= slack(name, hi, a, b), "%s = [%r, %r]: the upper endpoint is far above %s", what,
                res.a, res.b, mpmath.nstr(hi, 22))


def call(name, via, X):
    return FN[name][0 if via == "intvalpy" else 1](X)


def check_scalar(case):
    name, p, via = case["f"], case["x"], case["via"]
    X = gen.mk(p)
    if via == "method":
        res = getattr(X, name)()
    else:
        res = call(name, via, X)
    judge(name, res, p, "%s([%r, %r])" % (name, p[0], p[1]))
    require([X.a, X.b] == list(p), "the argument was changed")
    if name in ("sin", "cos"):
        lo, hi = trig_range(name, *p)
        lab = ["both", "max", "min", "none"][(0 if hi == 1 else 2) + (0 if lo == -1 else 1)]
    else:
        lab = "neg" if p[1] < 0 else "zero" if p[0] <= 0 <= p[1] else "pos"
    return name + " " + lab


@st.composite
def trig_pair(draw):
    def end():
        k = draw(st.integers(0, 4))
        if k == 0:
            return draw(gen.reals(-12, 12))
        if k == 1:
            q = draw(st.integers(-12, 12)) * math.pi / 2
            for _ in range(draw(st.integers(0, 3))):
                q = math.nextafter(q, draw(st.sampled_from([-INF, INF])))
            return q
        if k == 2:
            return draw(st.integers(-8, 8)) * math.pi / 2 + draw(st.sampled_from([-1, 1])) * 10.0 ** -draw(st.integers(1, 15))
        if k == 3:
            m = draw(st.integers(1, 10 ** draw(st.integers(1, 15))))
            return m * (math.pi / 2) + draw(gen.reals(-3, 3)) * draw(st.sampled_from([0.0, 1.0]))
        return draw(st.one_of(gen.small_ints(), gen.dyadic()))
    a = end()
    s = draw(st.integers(0, 4))
    if s == 0:
        b = a
    elif s == 1:
        b = a + abs(draw(gen.reals(0, 7)))
    elif s == 2:
        b = a + draw(st.sampled_from([0.1, 0.5, 1.0, 1.5, 2.0, 3.0, 3.2, 4.0, 4.8, 6.0, 6.4]))
    elif s == 3:
        b = math.nextafter(a, INF) if isinstance(a, float) else a + 1
    else:
        b = end()
    return [min(a, b), max(a, b)]


INF = float("inf")


@st.composite
def exp_pair(draw):
    e = st.one_of(gen.reals(-10, 10), gen.reals(-760, 720), gen.small_ints(), st.sampled_from([0.0, 709.78, 709.79, 710.0, -745.0, -746.0, 1e4, -1e4]))
    a, b = draw(e), draw(st.one_of(e, st.none()))
    b = a if b is None else b
    return [min(a, b), max(a, b)]


@st.composite
def log_pair(draw):
    e = st.one_of(st.floats(1e-300, 1e300), gen.wide(-300, 300).map(abs), st.integers(0, 20), gen.reals(0, 10),
                  gen.reals(0.9, 1.1), st.sampled_from([0.0, 1.0, 1, 0, 5e-324, 1e308]), gen.reals(-10, -1e-9), st.integers(-5, -1))
    a, b = draw(e), draw(st.one_of(e, e, st.none()))
    b = a if b is None else b
    return [min(a, b), max(a, b)]


@st.composite
def fn_pair(draw):
    f = draw(st.sampled_from(["sin", "sin", "cos", "cos", "exp", "log", "sqrt"]))
    p = draw(trig_pair() if f in ("sin", "cos") else exp_pair() if f == "exp" else log_pair())
    return {"f": f, "x": p, "via": draw(st.sampled_from(["intvalpy", "numpy", "method"]))}


def check_improper(case):
    """f(dual x) = dual f(x) up to the rounding, which stays outward."""
    name, p = case["f"], case["x"]
    if p[0] == p[1] or (name in ("sqrt", "log") and p[0] < 0):
        raise Skip()
    res = call(name, "numpy", gen.mk([p[1], p[0]]))
    lo, hi = exact(name, *p)          # result must be about [hi, lo]
    what = "%s([%r, %r]) = [%r, %r]" % (name, p[1], p[0], res.a, res.b)
    require(mpf(res.a) <= hi, "%s: the left endpoint is above %s", what, mpmath.nstr(hi, 22))
    require(mpf(res.b) >= lo, "%s: the right endpoint is below %s", what, mpmath.nstr(lo, 22))
    if mpmath.isfinite(hi):
        require(hi - mpf(res.a) <= slack(name, hi, *p), "%s: the left endpoint is far below %s", what, mpmath.nstr(hi, 22))
    if mpmath.isfinite(lo):
        require(mpf(res.b) - lo <= slack(name, lo, *p), "%s: the right endpoint is far above %s", what, mpmath.nstr(lo, 22))
    return name


def check_array(case):
    name, rows, via = case["f"], case["x"], case["via"]
    A = gen.mk_array(rows)
    R = call(name, via, A)
    require(R.shape == A.shape, "the shape of %s is %r instead of %r", name, R.shape, A.shape)
    for idx in np.ndindex(*A.shape):
        e = A[idx]
        judge(name, R[idx], [e.a, e.b], "element %r of %s(array), argument [%r, %r]" % (idx, name, e.a, e.b))
    return name + str(A.ndim)


def strat_array():
    def arr(name):
        p = trig_pair() if name in ("sin", "cos") else exp_pair() if name == "exp" else log_pair()
        vec = st.lists(p, min_size=1, max_size=4)
        mat = st.integers(1, 3).flatmap(lambda c: st.lists(st.lists(p, min_size=c, max_size=c), min_size=1, max_size=3))
        return st.fixed_dictionaries({"f": st.just(name), "x": st.one_of(vec, mat),
                                      "via": st.sampled_from(["intvalpy", "numpy"])})
    return st.sampled_from(sorted(FN)).flatmap(arr)


def check_plain(case):
    name, v = case["f"], case["x"]
    if isinstance(v, list):
        res = FN[name][0](v if case["list"] else np.array(v, dtype=float))
        require(res.shape == (len(v),), "%s(%r) has the shape %r", name, v, res.shape)
        for r, e in zip(res, v):
            judge(name, r, [e, e], "%s(%r)" % (name, e))
    else:
        judge(name, FN[name][0](v), [v, v], "%s(%r)" % (name, v))
    return name


def strat_plain():
    v = st.one_of(gen.reals(0.01, 50.0), st.integers(1, 40))
    return st.fixed_dictionaries({"f": st.sampled_from(sorted(FN)), "x": st.one_of(v, st.lists(v, min_size=1, max_size=4)),
                                  "list": st.booleans()})


def sgn(v):
    return (v > 0) - (v < 0)


def check_sign(case):
    ps = case["x"]
    if case["array"]:
        R = ip.sign(gen.mk_array(ps))
        require(R.shape == (len(ps),), "sign of a vector has the shape %r", R.shape)
        rs = list(R)
    else:
        ps = ps[:1]
        rs = [ip.sign(gen.mk(ps[0]))]
    labs = []
    for r, (a, b) in zip(rs, ps):
        lo, hi = sgn(a), sgn(b)
        require((r.a, r.b) == (lo, hi), "sign([%r, %r]) = [%r, %r], the range is [%d, %d]", a, b, r.a, r.b, lo, hi)
        labs.append("%d%d" % (lo, hi))
    return labs


def strat_sign():
    return st.fixed_dictionaries({"x": st.lists(gen.pair(gen.numbers()), min_size=1, max_size=4), "array": st.booleans()})


PARTS = [
    Part("scalar", fn_pair, check_scalar, 8000, shards=4, rule="f(x) against the exact range"),
    Part("improper", fn_pair, check_improper, 2000, rule="improper arguments give the dual of the range"),
    Part("array", strat_array, check_array, 800, rule="elementwise on arrays"),
    Part("plain", strat_plain, check_plain, 500, rule="plain numbers, lists and arrays are converted"),
    Part("sign", strat_sign, check_sign, 1500, rule="range of the sign function"),
]
