"""Kaucher arithmetic."""
import operator

import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require
from exact import F, lower_ok, upper_ok

RULE = ("Pairs of proper, improper and degenerate intervals (and numbers on either side) of every sign pattern. Oracle: "
        "the minimax definition of Kaucher operations evaluated with rational numbers (join over the projection of a "
        "proper operand, meet over that of an improper one), also for chains of operations on results. Non-trivial: at least one operand is improper.")
ASSUMPTIONS = ["outward rounding: left endpoint not above, right endpoint not below the exact one, at most 8 units in "
               "the last place away", "endpoints are finite and their products neither overflow nor underflow"]
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
UFUNC = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide}


def points(p):
    lo, hi = min(p), max(p)
    return [lo, hi] + ([F(0)] if lo < 0 < hi else [])


def kaucher(op, x, y):
    """Exact endpoints of x op y by the minimax definition."""
    x, y = [F(v) for v in x], [F(v) for v in y]
    if op == "-":
        y, op = [-y[1], -y[0]], "+"
    if op == "/":
        y, op = [1 / y[1], 1 / y[0]], "*"
    f = OPS[op]
    ox = (min, max) if x[0] <= x[1] else (max, min)
    oy = (min, max) if y[0] <= y[1] else (max, min)
    return tuple(ox[k](oy[k](f(p, q) for q in points(y)) for p in points(x)) for k in (0, 1))


def judge(res, lo, hi, what, ulps=8):
    require(hasattr(res, "a") and np.ndim(res.a) == 0, "%s is not an interval: %r", what, res)
    m = lower_ok(res.a, lo, ulps)
    require(m is None, "%s = [%r, %r]: left endpoint %s", what, res.a, res.b, m)
    m = upper_ok(res.b, hi, ulps)
    require(m is None, "%s = [%r, %r]: right endpoint %s", what, res.a, res.b, m)


def cls(p):
    a, b = p
    if a == b:
        return "pt"
    d = "P" if a < b else "I"
    lo, hi = min(p), max(p)
    return d + ("-" if hi < 0 else "+" if lo > 0 else "-0" if hi == 0 else "0+" if lo == 0 else "0")


def has0(p):
    return min(p) <= 0 <= max(p)


def operand(p):
    """A degenerate interval may also arise as KaucherArithmetic."""
    return gen.mk(p)


def check_ii(case):
    x, y, op, via = case["x"], case["y"], case["op"], case["via"]
    if case.get("same"):
        y = x
    if op == "/" and has0(y):
        raise Skip()
    X = operand(x)
    Y = X if case.get("same") else operand(y)    # the same object twice is no different from two equal ones
    if case["viakaucher"] and not case.get("same"):               # proper intervals of the Kaucher class, as operations produce them
        X, Y = ip.KaucherArithmetic(*x), ip.KaucherArithmetic(*y)
    lo, hi = kaucher(op, x, y)
    res = (OPS if via == "operator" else UFUNC)[op](X, Y)
    judge(res, lo, hi, "[%r, %r] %s [%r, %r]" % (x[0], x[1], op, y[0], y[1]))
    require([X.a, X.b] == list(x) and [Y.a, Y.b] == list(y), "an operand of %s was changed", op)
    if x[0] <= x[1] and y[0] <= y[1]:
        return "proper" if case["viakaucher"] else None
    return op + cls(x) + cls(y)


def strat_ii():
    ends = gen.numbers(-40, 40)
    p = gen.pair(ends, improper=True)
    imp = gen.pair(ends, improper=True, proper=False)
    return st.fixed_dictionaries({
        "x": st.one_of(p, imp), "y": st.one_of(p, imp), "op": st.sampled_from("+-***//"),
        "via": st.sampled_from(["operator"] * 5 + ["ufunc"]), "viakaucher": st.sampled_from([False, False, False, True]),
        "same": st.sampled_from([False] * 9 + [True])
    }).filter(lambda c: ok(c["x"]) and ok(c["y"]))


def ok(p):
    return all(not (isinstance(v, int) and abs(v) > 2 ** 53) and (v == 0 or 1e-100 < abs(v) < 1e100) for v in p)


@st.composite
def strat_signs(draw):
    """Every one of the sign patterns, with small and awkward endpoints."""
    def iv(zero):
        k = draw(st.sampled_from(["+", "-", "0", "0+", "-0"] if zero else ["+", "-"]))
        m = st.one_of(st.integers(1, 9), gen.wide(-3, 3).map(abs), gen.dyadic(1, 40), st.sampled_from([0.1, 1 / 3, 0.7]))
        a, b = draw(m), draw(m)
        if k == "+":
            p = sorted([a, b])
        elif k == "-":
            p = sorted([-a, -b])
        elif k == "0":
            p = [-a, b]
        elif k == "0+":
            p = [type(a)(0), a]
        else:
            p = [-a, type(a)(0)]
        return p[::-1] if draw(st.integers(0, 2)) else p
    op = draw(st.sampled_from("**/+"))
    return {"x": iv(True), "y": iv(op != "/"), "op": op, "via": "operator", "viakaucher": False}


def check_num(case):
    p, s, op, side, via = case["x"], case["s"], case["op"], case["side"], case["via"]
    X, v = gen.mk(p), gen.mk_scalar(s)
    val = [s[1]] * 2
    x, y, args = (val, p, (v, X)) if side == "left" else (p, val, (X, v))
    if op == "/" and has0(y):
        raise Skip()
    lo, hi = kaucher(op, x, y)
    res = (OPS if via == "operator" else UFUNC)[op](*args)
    judge(res, lo, hi, "%r %s %r" % (args[0], op, args[1]))
    return None if p[0] <= p[1] else side + op + s[0] + cls(p)


def strat_num():
    ends = gen.numbers(-40, 40)
    s = gen.scalar(-30, 30)
    return st.fixed_dictionaries({
        "x": gen.pair(ends, improper=True, proper=False), "s": s, "op": st.sampled_from("+-**//"),
        "side": st.sampled_from(["left", "right"]), "via": st.sampled_from(["operator"] * 4 + ["ufunc"])
    }).filter(lambda c: ok(c["x"]) and ok(c["s"][1:]))


def check_laws(case):
    """dual, opp, inv, pro, negation: exact where no rounding is involved; the group laws up to rounding."""
    x, y = case["x"], case["y"]
    X, Y = gen.mk(x), gen.mk(y)
    a, b = x
    d = X.dual
    require((d.a, d.b) == (b, a), "dual of [%r, %r] is [%r, %r]", a, b, d.a, d.b)
    require((d.dual.a, d.dual.b) == (a, b), "dual of dual of [%r, %r] is %r", a, b, d.dual)
    o = X.opp
    require((o.a, o.b) == (-a, -b), "opp of [%r, %r] is [%r, %r]", a, b, o.a, o.b)
    p = X.pro
    require((p.a, p.b) == (min(x), max(x)), "pro of [%r, %r] is [%r, %r]", a, b, p.a, p.b)
    require(isinstance(p, ip.ClassicalArithmetic), "pro of [%r, %r] is no classical interval", a, b)
    n = -X
    require((n.a, n.b) == (-b, -a), "-[%r, %r] is [%r, %r]", a, b, n.a, n.b)
    z = X + o
    require((z.a, z.b) == (0, 0), "[%r, %r] + its opposite is [%r, %r]", a, b, z.a, z.b)
    labs = []
    for q in (d, o, p, n):
        require((q.a <= q.b) == isinstance(q, ip.ClassicalArithmetic) or q.a == q.b or q is n,
                "%r (from [%r, %r]) has the wrong class %s", q, a, b, type(q).__name__)
    if not has0(x):
        i = X.inv
        judge(i, 1 / F(a), 1 / F(b), "inv of [%r, %r]" % (a, b), 2)
        u = X * i
        judge(u, F(1), F(1), "[%r, %r] * its inverse" % (a, b), 16)
        labs.append("inverse")
    # the dual of a result is the result for duals (up to outward rounding)
    for op in "+-*":
        r, q = OPS[op](X, Y), OPS[op](d, Y.dual)
        lo, hi = kaucher(op, x, y)
        judge(q, hi, lo, "dual [%r, %r] %s dual [%r, %r]" % (a, b, op, y[0], y[1]))
        judge(r, lo, hi, "[%r, %r] %s [%r, %r]" % (a, b, op, y[0], y[1]))
    # subtraction solves y + t = x: t = x + opp(y)
    t = X + Y.opp
    s = Y + t
    e = F(max(abs(v) for v in x + y)) / 2 ** 48
    require(abs(F(s.a) - F(a)) <= e and abs(F(s.b) - F(b)) <= e, "Y + (X + opp Y) = %r, X = %r, Y = %r", s, X, Y)
    return labs + [cls(x) + cls(y)]


def strat_laws():
    ends = gen.numbers(-30, 30)
    return st.fixed_dictionaries({"x": gen.pair(ends, improper=True), "y": gen.pair(ends, improper=True)}).filter(
        lambda c: ok(c["x"]) and ok(c["y"]))


UNARY = {"dual": lambda x: x.dual, "opp": lambda x: x.opp, "neg": lambda x: -x, "pro": lambda x: x.pro, "inv": lambda x: x.inv, "abs": abs, "exp": np.exp,
         "sin": np.sin, "cos": np.cos, "copy": lambda x: x.copy(), "square": lambda x: x ** 2, "cube": lambda x: x ** 3}


def strat_chain():
    step = st.one_of(st.tuples(st.sampled_from(sorted(UNARY))),
                     st.tuples(st.sampled_from("+-**/"), st.sampled_from("lr"), gen.pair(gen.numbers(-9, 9), improper=True).filter(ok)),
                     st.tuples(st.sampled_from("+-**/"), st.sampled_from("lr"), gen.scalar(-9, 9).filter(lambda s: ok(s[1:]))))
    return st.fixed_dictionaries({"x": gen.pair(gen.numbers(-9, 9), improper=True).filter(ok), "steps": st.lists(step, min_size=2, max_size=6)})


def check_chain(case):
    """A result, of whatever class, is an operand like a new interval with its endpoints."""
    r = gen.mk(case["x"])
    n = 0
    for step in case["steps"]:
        x = (r.a, r.b)
        if not all(v == 0 or 1e-60 < abs(v) < 1e60 for v in x):
            break
        op = step[0]
        if op in UNARY:
            if (op == "inv" and has0(x)) or (op == "exp" and max(map(abs, x)) > 100):
                continue
            new, want = UNARY[op](r), UNARY[op](gen.mk(x))
            require(abs(F(new.a) - F(want.a)) <= 4 * F(np.spacing(abs(want.a))) and abs(F(new.b) - F(want.b)) <= 4 * F(np.spacing(abs(want.b))),
                    "%s of the result %r (%s) is %r, of a new interval %r", op, r, type(r).__name__, new, want)
        else:
            if isinstance(step[2][0], str):
                v, y = gen.mk_scalar(step[2]), [step[2][1]] * 2
            else:
                v, y = gen.mk(step[2]), step[2]
            if op == "/" and has0(y if step[1] == "r" else x):
                continue
            lo, hi = kaucher(op, *((x, y) if step[1] == "r" else (y, x)))
            new = OPS[op](r, v) if step[1] == "r" else OPS[op](v, r)
            judge(new, lo, hi, "the result %r (%s) %s %r (on the %s)" % (r, type(r).__name__, op, v, "right" if step[1] == "r" else "left"))
            n += n > 0 or (x[0] > x[1]) != (type(r) is ip.KaucherArithmetic) or new.a > new.b
        r = new
    return "chained" if n > 1 else None


PARTS = [
    Part("chain", strat_chain, check_chain, 3000, shards=2, rule="two operations on results, improper or of the other class"),
    Part("general", strat_ii, check_ii, 6000, shards=2, rule="x op y by the minimax definition"),
    Part("signs", strat_signs, check_ii, 5000, shards=2, rule="all sign and direction patterns"),
    Part("number", strat_num, check_num, 4000, shards=2, rule="improper interval and number, both sides"),
    Part("laws", strat_laws, check_laws, 3000, shards=2, rule="dual, opp, inv, pro, negation and the group laws"),
]
