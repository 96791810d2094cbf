"""Classical interval arithmetic encloses the exact range, tightly."""
import operator

import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require
from exact import F, lower_ok, upper_ok

RULE = ("Operands: intervals and numbers (int, float and all of numpy's integer and floating-point types up to 64 bits) with full mantissas over 120 binary "
        "orders of magnitude (2000 in the part `extreme`), integers to 2^53, zero endpoints, degenerate and symmetric "
        "intervals. The exact range is computed with rational numbers. Non-trivial: the operation is defined and at "
        "least one operand is a non-degenerate interval or the exact result is not a double.")
ASSUMPTIONS = ["endpoints are finite, integers are at most 2^53 in absolute value",
               "tight means at most 4 units in the last place per endpoint (8 for number / interval)"]

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
UFUNC = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide}


def exact_range(op, x, y):
    xs, ys = [F(v) for v in x], [F(v) for v in y]
    f = OPS[op]
    vals = [f(p, q) for p in xs for q in ys]
    return min(vals), max(vals)


def cls(p):
    a, b = p
    if a == b:
        return "0" if a == 0 else "point"
    return "neg" if b < 0 else "neg0" if b == 0 else "zero" if a < 0 else "pos0" if a == 0 else "pos"


def bigint(p):
    return any(isinstance(v, int) and abs(v) > 2 ** 53 for v in p)


def judge(res, lo, hi, ulps, what):
    require(hasattr(res, "a") and np.ndim(res.a) == 0, "%s is not an interval: %r", what, res)
    require(res.a <= res.b, "%s = [%r, %r] is not proper", what, res.a, res.b)
    m = lower_ok(res.a, lo, ulps)
    require(m is None, "%s: lower endpoint %r %s", what, res.a, m)
    m = upper_ok(res.b, hi, ulps)
    require(m is None, "%s: upper endpoint %r %s", what, res.b, m)


def check_ii(case):
    x, y, op, via = case["x"], case["y"], case["op"], case["via"]
    if case.get("same"):
        y = x
    if op == "/" and y[0] <= 0 <= y[1] or bigint(x) or bigint(y):
        raise Skip()
    X = gen.mk(x)
    Y = X if case.get("same") else gen.mk(y)     # the same object twice is no different from two equal ones
    lo, hi = exact_range(op, x, y)
    if via == "operator":
        res = OPS[op](X, Y)
    elif via == "ufunc":
        res = UFUNC[op](X, Y)
    else:
        res = gen.mk(x)
        if case.get("same"):
            Y = res
        if op == "+":
            res += Y
        elif op == "-":
            res -= Y
        elif op == "*":
            res *= Y
        else:
            res /= Y
    judge(res, lo, hi, 4, "[%r, %r] %s [%r, %r] (%s)" % (x[0], x[1], op, y[0], y[1], via))
    require([X.a, X.b] == list(x) and [Y.a, Y.b] == list(y), "an operand of %s was changed", op)
    return [op + cls(x) + cls(y), via] + (["same object"] if case.get("same") else [])


def strat_ii(emin, emax):
    def f():
        ends = gen.numbers(emin, emax)
        return st.fixed_dictionaries({
            "x": gen.pair(ends), "y": gen.pair(ends), "op": st.sampled_from("++--**//" + "*/"),
            "via": st.sampled_from(["operator"] * 6 + ["ufunc", "inplace"]),
            "same": st.sampled_from([False] * 9 + [True])})
    return f


def nonzero(p):
    """Moves a divisor away from zero without losing its shape."""
    a, b = p
    if a > 0 or b < 0:
        return p
    if b - a == 0:
        return [a + 3, b + 3]
    return [b, b + (b - a)] if b > 0 else [a - (b - a), a] if a < 0 else [1, 2]


def strat_div(emin, emax):
    def f():
        ends = gen.numbers(emin, emax)
        return st.fixed_dictionaries({
            "x": gen.pair(ends), "y": gen.pair(ends).map(nonzero), "op": st.just("/"),
            "via": st.sampled_from(["operator"] * 6 + ["ufunc", "inplace"]),
            "same": st.sampled_from([False] * 9 + [True])})
    return f


def check_num(case):
    p, s, op, side, via = case["x"], case["s"], case["op"], case["side"], case["via"]
    X, v = gen.mk(p), gen.mk_scalar(s)
    val = [float(s[1])] * 2 if s[0].startswith("float") else [s[1], s[1]]
    if side == "left":
        x, y = val, p
        args = (v, X)
    else:
        x, y = p, val
        args = (X, v)
    if op == "/" and (y[0] <= 0 <= y[1] or min(abs(y[0]), abs(y[1])) < 1e-200) or bigint(p):
        raise Skip()
    lo, hi = exact_range(op, x, y)
    res = (OPS if via == "operator" else UFUNC)[op](*args)
    judge(res, lo, hi, 8 if op == "/" and side == "left" else 4,
          "%r %s %r (%s, %s)" % (args[0], op, args[1], s[0], via))
    require([X.a, X.b] == list(p), "the interval operand of %s was changed", op)
    return [side + op + s[0], cls(p)]


def num_scalar():
    return st.one_of(gen.scalar(), st.tuples(st.just("int"), st.integers(-2 ** 53, 2 ** 53)).map(list), st.tuples(st.just("int64"), st.integers(-2 ** 53, 2 ** 53)).map(list))


def strat_num():
    return st.fixed_dictionaries({
        "x": st.one_of(gen.pair(gen.numbers()), gen.pair(gen.numbers()).map(nonzero)), "s": num_scalar(),
        "op": st.sampled_from("+-*/"), "side": st.sampled_from(["left", "right"]),
        "via": st.sampled_from(["operator", "operator", "operator", "ufunc"])})


@st.composite
def strat_long(draw):
    """Arrays of up to 2500 intervals with full mantissas, made from a seed."""
    return {"n": draw(st.sampled_from([40, 65, 130, 300, 513, 1025, 2500])), "seed": draw(st.integers(0, 2 ** 40)), "e": draw(st.sampled_from([0, 3, 30])),
            "op": draw(st.sampled_from("+-*/")), "kind": draw(st.sampled_from(["aa", "aa", "ai", "ia", "an", "na", "aN", "two"])),
            "via": draw(st.sampled_from(["operator", "operator", "ufunc", "inplace"]))}


def check_long(case):
    n, op, kind, e = case["n"], case["op"], case["kind"], case["e"]
    rng = np.random.default_rng(case["seed"])

    def ends(k):
        v = rng.uniform(-4, 4, (k, 2)) * 2.0 ** rng.integers(-e, e + 1, (k, 2))
        v[rng.random((k, 2)) < 0.05] = 0.0
        v[rng.random(k) < 0.1, 1] = v[0, 0]
        return np.sort(v, axis=1)
    x, y = ends(n), ends(n)
    if op == "/":
        y = np.sort(abs(y) + 2.0 ** -e, axis=1) * rng.choice([-1.0, 1.0], (n, 1))
        y = np.sort(y, axis=1)
    l, r = ("a", "a") if kind == "two" else kind
    if l in "in":
        x = np.repeat(x[:1], n, axis=0) if l == "i" else np.repeat(x[:1, :1], 2, axis=1).repeat(n, axis=0)
    if r in "in":
        y = np.repeat(y[:1], n, axis=0) if r == "i" else np.repeat(y[:1, :1], 2, axis=1).repeat(n, axis=0)
    if r == "N":
        y = np.repeat(y[:, :1], 2, axis=1)
    shape = (n,) if kind != "two" or n % 5 else (n // 5, 5)
    X = {"a": ip.Interval(x[:, 0].reshape(shape), x[:, 1].reshape(shape)), "i": ip.Interval(*x[0].tolist()), "n": float(x[0, 0])}[l]
    Y = {"a": ip.Interval(y[:, 0].reshape(shape), y[:, 1].reshape(shape)), "i": ip.Interval(*y[0].tolist()), "n": float(y[0, 0]), "N": y[:, 0].copy()}[r]
    if case["via"] == "inplace" and l == "a":
        res = X.copy()
        if op == "+":
            res += Y
        elif op == "-":
            res -= Y
        elif op == "*":
            res *= Y
        else:
            res /= Y
    else:
        res = (UFUNC if case["via"] == "ufunc" and kind in ("aa", "two") else OPS)[op](X, Y)
    require(isinstance(res, ip.ArrayInterval) and res.shape == shape, "%s %s of shape %r gives %r", kind, op, shape, type(res))
    for k, v in enumerate(res.data.ravel()):
        p, q = x[k].tolist(), y[k].tolist()
        lo, hi = exact_range(op, p, q)
        judge(v, lo, hi, 8 if op == "/" and l == "n" else 4, "element %d of %d: %r %s %r (%s)" % (k, n, p, op, q, kind))
    require(l != "a" or np.array_equal(X.a.ravel().astype(float), x[:, 0]) and np.array_equal(X.b.ravel().astype(float), x[:, 1]), "the operand of %s was changed", op)
    return [kind + op, "%d" % n]


PARTS = [
    Part("long arrays", strat_long, check_long, 150, thorough=5000, shards=2, rule="40 to 2500 elements, each against the exact range"),
    Part("interval-interval", strat_ii(-60, 60), check_ii, 6000, shards=2,
         rule="x op y against the exact range, via operators, numpy functions and in-place operators"),
    Part("division", strat_div(-60, 60), check_ii, 3000, shards=1, rule="divisors that do not contain zero"),
    Part("extreme", strat_ii(-1060, 1010), check_ii, 4000, shards=2,
         rule="operands whose results overflow or are subnormal"),
    Part("interval-number", strat_num, check_num, 7000, shards=3,
         rule="number op interval and interval op number, all number types"),
]
