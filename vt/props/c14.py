"""Interval evaluation of an expression encloses its values (the fundamental theorem)."""
import math

import mpmath
import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require

RULE = ("Random expression trees (depth up to 5) over 1-3 interval variables with + - * / ** sqrt exp log sin cos abs neg "
        "and numbers (int, float, numpy) on either side, evaluated on boxes, on arrays of boxes and on sub-boxes. "
        "Oracles: the value at random real points of the box, computed with 300-bit mpmath, lies in the interval "
        "result; the result on the box and on a sub-box contains the natural interval extension computed with 400-bit "
        "endpoints and lies in the one whose operations are all widened by a relative 1e-12. Non-trivial: at least two "
        "operations on an interval that is not degenerate.")
ASSUMPTIONS = ["cases in which a sub-expression is not defined on the whole box (zero in a divisor, negative argument) or "
               "overflows are skipped", "tightness is examined where the widened operations are defined"]
mpmath.mp.prec = 400
mpf = mpmath.mpf


@st.composite
def tree(draw, nv, depth):
    if depth == 0 or draw(st.integers(0, 5)) == 0:
        if draw(st.integers(0, 3)) == 0:
            return ["c", draw(gen.scalar(-5, 5, big=100).map(lambda s: [s[0], s[1]]))]
        return ["v", draw(st.integers(0, nv - 1))]
    k = draw(st.sampled_from(["+", "-", "*", "/", "+", "*", "-", "pow", "sqrt", "exp", "log", "sin", "cos", "neg", "abs"]))
    if k in "+-*/":
        return [k, draw(tree(nv, depth - 1)), draw(tree(nv, depth - 1))]
    if k == "pow":
        return [k, draw(tree(nv, depth - 1)), draw(st.sampled_from([0, 1, 2, 2, 3, 4, 5, -1, -2, 0.5, 1.5]))]
    return [k, draw(tree(nv, depth - 1))]


@st.composite
def strat(draw):
    nv = draw(st.integers(1, 3))
    c = st.one_of(gen.reals(-4, 4), gen.reals(0.1, 4), gen.dyadic(-16, 16), gen.small_ints(-3, 3))
    box = []
    for _ in range(nv):
        a = draw(c)
        w = draw(st.sampled_from([0, 1e-9, 0.01, 0.1, 0.5, 1.0, 2]))
        box.append([a, a + w])
    u = st.lists(st.floats(0, 1), min_size=nv, max_size=nv)
    return {"e": draw(tree(nv, draw(st.integers(2, 5)))), "box": box, "u": draw(st.lists(u, min_size=1, max_size=3)),
            "array": draw(st.booleans())}


class Undefined(Exception):
    pass


def ivl(e, xs):
    k = e[0]
    if k == "c":
        return gen.mk_scalar(e[1])
    if k == "v":
        return xs[e[1]]
    if k in ("+", "-", "*", "/"):
        p, q = ivl(e[1], xs), ivl(e[2], xs)
        isint = isinstance(p, ip.INTERVAL_CLASSES) or isinstance(q, ip.INTERVAL_CLASSES)
        if not isint:
            p = ip.asinterval(p)
        if k == "/":
            d = ip.asinterval(q)
            if np.any(d.a <= 1e-8) and np.any(d.b >= -1e-8) and np.any((d.a <= 1e-8) & (d.b >= -1e-8)):
                raise Undefined()
            return p / q
        return p + q if k == "+" else p - q if k == "-" else p * q
    p = ip.asinterval(ivl(e[1], xs))
    if k == "neg":
        return -p
    if k == "abs":
        return abs(p)
    if k == "pow":
        n = e[2]
        if not (isinstance(n, int) and n >= 0) and np.any(p.a <= 1e-8):
            raise Undefined()
        return p ** n
    if k in ("sqrt",) and np.any(p.a < 0) or k == "log" and np.any(p.a <= 1e-8):
        raise Undefined()
    if k in ("sqrt", "log") and np.any(p.b <= 0):
        raise Undefined()
    if k == "exp" and np.any(p.b > 100) or np.any(np.maximum(abs(p.a), abs(p.b)) > 1e50):
        raise Undefined()
    return getattr(ip, k)(p)


def real(e, xs):
    k = e[0]
    if k == "c":
        return mpf(gen.mk_scalar(e[1]).item() if hasattr(gen.mk_scalar(e[1]), "item") else e[1][1])
    if k == "v":
        return xs[e[1]]
    if k in ("+", "-", "*", "/"):
        p, q = real(e[1], xs), real(e[2], xs)
        return p + q if k == "+" else p - q if k == "-" else p * q if k == "*" else p / q
    p = real(e[1], xs)
    if k == "neg":
        return -p
    if k == "pow":
        n = e[2]
        return p ** n if isinstance(n, int) else mpmath.exp(mpf(n) * mpmath.log(p)) if p else mpf(0)
    if k == "abs":
        return abs(p)
    return getattr(mpmath, k)(p)


REL, ABS = mpf(10) ** -12, mpf(10) ** -13
PI = mpmath.pi()


def trig(lo, hi, shift):
    """Range of cos(x - shift * pi) over [lo, hi]."""
    f = mpmath.cos if shift == 0 else mpmath.sin
    v = (f(lo), f(hi))
    a, b = min(v), max(v)
    k = mpmath.ceil(lo / PI - shift)                   # extrema at (k + shift) * pi
    if (k + shift) * PI <= hi:
        for q in (k, k + 1):
            if (q + shift) * PI <= hi:
                if int(q) % 2 == 0:
                    b = mpf(1)
                else:
                    a = mpf(-1)
    return a, b


def natural(e, xs, sloppy):
    """The natural interval extension with 400-bit endpoints; with sloppy, every operation is widened a little."""
    k = e[0]
    if k == "c":
        v = gen.mk_scalar(e[1])
        v = mpf(v.item() if hasattr(v, "item") else v)
        return v, v
    if k == "v":
        return xs[e[1]]
    if k in ("+", "-", "*", "/"):
        p, q = natural(e[1], xs, sloppy), natural(e[2], xs, sloppy)
        if k == "+":
            r = p[0] + q[0], p[1] + q[1]
        elif k == "-":
            r = p[0] - q[1], p[1] - q[0]
        else:
            if k == "/":
                if q[0] <= 0 <= q[1]:
                    raise Undefined()
                q = 1 / q[1], 1 / q[0]
            v = [s * t for s in p for t in q]
            r = min(v), max(v)
    else:
        p = natural(e[1], xs, sloppy)
        if k == "neg":
            return -p[1], -p[0]
        if k == "abs":
            v = abs(p[0]), abs(p[1])
            return mpf(0) if p[0] <= 0 <= p[1] else min(v), max(v)
        if k == "pow":
            n = e[2]
            if isinstance(n, int) and n >= 0:
                v = p[0] ** n, p[1] ** n
                r = mpf(0) if n and n % 2 == 0 and p[0] <= 0 <= p[1] else min(v), max(v)
            elif p[0] <= 0:
                raise Undefined()
            else:
                v = [t ** n if isinstance(n, int) else mpmath.exp(mpf(n) * mpmath.log(t)) for t in p]
                r = min(v), max(v)
        elif k in ("sin", "cos"):
            r = trig(p[0], p[1], 0 if k == "cos" else mpf(1) / 2)
        elif k == "sqrt" and p[0] < 0 or k == "log" and p[0] <= 0:
            raise Undefined()
        else:
            r = tuple(getattr(mpmath, k)(t) for t in p)
    if sloppy:
        if max(abs(r[0]), abs(r[1])) > 1e300:
            raise Undefined()
        w = REL * max(abs(r[0]), abs(r[1])) + ABS
        return r[0] - w, r[1] + w
    return r


def ops(e):
    return 0 if e[0] in "cv" else 1 + sum(ops(t) for t in e[1:] if isinstance(t, list))


def uses_var(e):
    return e[0] == "v" or any(uses_var(t) for t in e[1:] if isinstance(t, list) and t and isinstance(t[0], str) and e[0] != "c")


def check(case):
    box, e = case["box"], case["e"]
    if not uses_var(e):
        raise Skip()
    if case["array"]:
        # second cell: the upper half of the box
        X = [ip.ArrayInterval(np.array([gen.mk(p), ip.Interval((p[0] + p[1]) / 2, p[1])], dtype=object)) for p in box]
    else:
        X = [gen.mk(p) for p in box]
    try:
        R = ip.asinterval(ivl(e, X))
    except Undefined:
        raise Skip()
    if case["array"]:
        if not isinstance(R, ip.ArrayInterval):
            raise Skip()
        cells = [(R[0], box), (R[1], [[(p[0] + p[1]) / 2, p[1]] for p in box])]
    else:
        cells = [(R, box)]
    for r, b in cells:
        if not (math.isfinite(r.a) and math.isfinite(r.b)):
            raise Skip()
        for u in case["u"] + [[0.0] * len(b), [1.0] * len(b)]:
            x = [min(max(p[0] + (p[1] - p[0]) * t, p[0]), p[1]) for p, t in zip(b, u)]
            v = real(e, [mpf(t) for t in x])
            # subnormal intermediate results are outside the domain
            require(mpf(r.a) <= v <= mpf(r.b), "the value %s at %r is not in [%r, %r]", mpmath.nstr(v, 20), x, r.a, r.b)
    # the exact natural extension on the box and on a sub-box, from both sides
    u = case["u"][0]
    sub = []
    for p, t in zip(box, u):
        m = min(max(p[0] + (p[1] - p[0]) * t, p[0]), p[1])
        sub.append([p[0], m] if t < 0.5 else [m, p[1]])
    try:
        cells.append((ip.asinterval(ivl(e, [gen.mk(p) for p in sub])), sub))
    except Undefined:
        raise Skip()
    tight = 0
    for r, b in cells:
        xs = [(mpf(p[0]), mpf(p[1])) for p in b]
        lo, hi = natural(e, xs, False)
        w = mpf(2) ** -200 * (1 + abs(lo) + abs(hi))
        require(r.a <= lo + w and r.b >= hi - w, "on the box %r the result is [%r, %r], the natural extension is [%s, %s]", b,
                r.a, r.b, mpmath.nstr(lo, 20), mpmath.nstr(hi, 20))
        try:
            lo, hi = natural(e, xs, True)
        except Undefined:
            continue
        tight += 1
        require(r.a >= lo and r.b <= hi, "on the box %r the result is [%r, %r], with operations widened by a relative 1e-12 "
                "it is [%s, %s]", b, r.a, r.b, mpmath.nstr(lo, 20), mpmath.nstr(hi, 20))
    if ops(e) < 2 or all(p[0] == p[1] for p in box):
        return None
    return ["array" if case["array"] else "scalar", "vars%d" % len(box), "ops%d" % min(ops(e), 8),
            "tight" if tight else "not well-conditioned"]


PARTS = [Part("tree", strat, check, 12000, shards=8, rule="random expressions")]
