"""Undefined operations raise instead of returning an interval."""
import operator

import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require

RULE = ("Dividends of every form (number, numpy number, proper and improper interval, interval array, numeric array) "
        "and divisors whose projection contains zero (zero inside, as either endpoint, degenerate zero, the number "
        "zero, arrays with one such element) through operators, reflected operators, in-place operators and numpy "
        "functions; operands of incompatible shapes; operations no interval operation is defined for. Oracle: the call "
        "raises an ordinary exception and leaves the operands as they were. Non-trivial: every case.")
ASSUMPTIONS = ["division by zero is reported as ValueError (ZeroDivisionError is accepted as well)"]


@st.composite
def zero_iv(draw):
    m = st.one_of(st.integers(1, 9), gen.wide(-20, 20).map(abs), gen.dyadic(1, 40))
    k = draw(st.integers(0, 4))
    a, b = draw(m), draw(m)
    p = [[-a, b], [type(b)(0), b], [-a, type(a)(0)], [0.0, 0.0], [0, 0]][k]
    return p[::-1] if draw(st.integers(0, 2)) == 0 else p


def any_iv():
    return gen.pair(gen.numbers(-30, 30), improper=True)


@st.composite
def strat_div(draw):
    form = draw(st.sampled_from(["num/iv", "num/iv", "npnum/iv", "iv/iv", "iv/iv", "iv/zero", "arr/iv", "iv/arr",
                                 "arr/arr", "num/arr", "nparr/iv", "nparr/arr", "arr/num0", "arr/nparr0", "inplace",
                                 "arrinplace", "inv"]))
    via = draw(st.sampled_from(["operator", "operator", "ufunc"]))
    n = draw(st.integers(1, 4))
    return {"form": form, "via": via, "z": draw(zero_iv()), "x": draw(any_iv()), "s": draw(gen.scalar(-10, 10)),
            "vec": draw(st.lists(any_iv(), min_size=n, max_size=n)),
            "safe": draw(st.lists(gen.pair(st.integers(1, 9)).map(lambda p: [abs(p[0]) or 1, abs(p[1]) or 1]),
                                  min_size=n, max_size=n)),
            "pos": draw(st.integers(0, n - 1)), "zero": draw(st.sampled_from(["int", "float", "float64", "int64"]))}


def check_div(case):
    form, via = case["form"], case["via"]
    div = operator.truediv if via == "operator" else np.true_divide
    Z, X = gen.mk(case["z"]), gen.mk(case["x"])
    num = gen.mk_scalar(case["s"])
    zero = gen.mk_scalar([case["zero"], 0])
    vec = gen.mk_array(case["vec"])
    safe = gen.mk_array([sorted(p) for p in case["safe"]])
    zvec = safe.copy()
    zvec[case["pos"]] = Z
    nums = np.array([float(p[0]) for p in case["vec"]])
    nums0 = np.array([float(p[0]) for p in case["safe"]])
    nums0[case["pos"]] = 0.0
    if form == "num/iv":
        f = lambda: div(num.item() if hasattr(num, "item") else num, Z)
    elif form == "npnum/iv":
        f = lambda: div(np.float64(num), Z)
    elif form == "iv/iv":
        f = lambda: div(X, Z)
    elif form == "iv/zero":
        f = lambda: div(X, zero)
    elif form == "arr/iv":
        f = lambda: vec / Z
    elif form == "iv/arr":
        f = lambda: X / zvec
    elif form == "arr/arr":
        f = lambda: div(vec, zvec)
    elif form == "num/arr":
        f = lambda: div(num, zvec)
    elif form == "nparr/iv":
        f = lambda: div(nums, Z)
    elif form == "nparr/arr":
        f = lambda: div(nums, zvec)
    elif form == "arr/num0":
        f = lambda: div(vec, zero)
    elif form == "arr/nparr0":
        f = lambda: div(vec, nums0)
    elif form == "inplace":
        def f():
            y = X
            y /= Z
            return y
    elif form == "arrinplace":
        def f():
            y = vec.copy()
            y /= zvec
            return y
    else:
        if case["z"][0] and case["z"][1]:
            raise Skip()                       # inv is defined endpoint-wise
        f = lambda: Z.inv
    before = (Z.a, Z.b, X.a, X.b)
    try:
        res = f()
    except (ValueError, ZeroDivisionError):
        require((Z.a, Z.b, X.a, X.b) == before, "an operand was changed")
        return form
    if form == "inv" and (np.isinf(res.a) or np.isinf(res.b)):
        return None
    require(False, "%s (%s) by %r gave %r", form, via, case["z"], res)


SHAPES = [[2], [3], [4], [2, 2], [2, 3], [3, 2], [3, 3], [4, 2]]


def strat_shape():
    return st.fixed_dictionaries({
        "s": st.sampled_from(SHAPES), "t": st.sampled_from(SHAPES),
        "op": st.sampled_from(["+", "-", "*", "/", "@", "@", "intersection", "setitem"]),
        "kind": st.sampled_from(["ii", "in", "ni"])})


def check_shape(case):
    s, t, op, kind = tuple(case["s"]), tuple(case["t"]), case["op"], case["kind"]
    x = np.arange(1.0, 1 + np.prod(s)).reshape(s)
    y = np.arange(1.0, 1 + np.prod(t)).reshape(t)
    try:
        if op == "@":
            want = (x @ y).shape
        elif op == "intersection":
            want = s if s == t else None
        elif op == "setitem":
            z = x.copy()
            z[...] = y
            want = s
        else:
            want = (x + y).shape
    except ValueError:
        want = None
    X = ip.Interval(x, x + 1) if kind[0] == "i" else x
    Y = ip.Interval(y, y + 1) if kind[1] == "i" else y
    if op == "setitem":
        X = ip.Interval(x, x + 1)
    try:
        if op == "intersection":
            res = ip.intersection(X, Y)
        elif op == "setitem":
            X[...] = Y
            res = X
        else:
            res = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
                   "@": operator.matmul}[op](X, Y)
    except (ValueError, AssertionError, TypeError, IndexError):
        require(want is None, "%s of shapes %r and %r (%s) raises", op, s, t, kind)
        return op + " raised"
    require(want is not None, "%s of the incompatible shapes %r and %r (%s) gave a result", op, s, t, kind)
    require(tuple(getattr(res, "shape", ())) == want, "%s of shapes %r and %r (%s) has shape %r", op, s, t, kind,
            getattr(res, "shape", ()))
    return op + " fits"


UNDEFINED = ["tan", "arctan", "sinh", "cosh", "tanh", "arcsin", "log2", "log10", "log1p", "expm1", "exp2", "cbrt",
             "floor", "ceil", "trunc", "sign", "square", "reciprocal", "rint"]


def strat_undef():
    return st.fixed_dictionaries({"x": any_iv(), "f": st.sampled_from(UNDEFINED), "array": st.booleans(),
                                  "what": st.sampled_from(["ufunc", "ufunc", "order", "string", "none", "three",
                                                           "negrad"])})


def check_undef(case):
    X, w = gen.mk(case["x"]), case["what"]
    V = gen.mk_array([case["x"], case["x"]])
    T = V if case["array"] else X
    if w == "ufunc":
        calls = [lambda: getattr(np, case["f"])(T)]
    elif w == "order":
        calls = [lambda: X < "abc", lambda: X <= [1], lambda: X > None, lambda: X >= "z"]
    elif w == "string":
        calls = [lambda: ip.asinterval("[1, 2]"), lambda: ip.Interval("1", 2), lambda: ip.Interval(1, "2")]
    elif w == "none":
        calls = [lambda: ip.asinterval(None), lambda: ip.Interval(1, None)]
    elif w == "three":
        calls = [lambda: ip.Interval(1, 2, 3)]
    else:
        r = -abs(float(case["x"][0])) - 1e-9
        calls = [lambda: ip.Interval(1.0, r, midRadQ=True), lambda: ip.Interval([1.0, 2.0], [r, 1.0], midRadQ=True),
                 lambda: ip.Interval([1.0, r], midRadQ=True)]
    for k, f in enumerate(calls):
        try:
            res = f()
        except Exception:
            continue
        require(False, "call %d of %s (%s) on %r gave %r", k, w, case["f"], T, res)
    return w


METHODS = ["outer", "outer-num", "num-outer", "reduce", "accumulate", "reduceat", "at"]


@st.composite
def strat_method(draw):
    n = draw(st.integers(1, 4))
    return {"x": draw(st.lists(gen.pair(st.integers(1, 9), improper=draw(st.booleans())), min_size=n, max_size=n)),
            "num": draw(st.lists(st.integers(1, 9), min_size=1, max_size=3)), "f": draw(st.sampled_from(["add", "subtract", "multiply", "true_divide"])),
            "m": draw(st.sampled_from(METHODS)), "array": draw(st.booleans()), "what": draw(st.sampled_from(["method", "method", "method", "in", "keyword"]))}


def check_method(case):
    """Either the value that numpy's method has on the elements, or an exception."""
    V = gen.mk_array(case["x"])
    T = V.copy() if case["array"] else V[0]
    data = V.data.copy() if case["array"] else np.array(V[0], dtype=object)
    num = np.array(case["num"], dtype=float)
    f = getattr(np, case["f"])
    if case["what"] == "in":
        for other in ("abc", None, [1, 2], num, V, {}, b"1"):
            try:
                got = other in V[0]
            except Exception:
                continue
            require(False, "%r in %r is %r", other, V[0], got)
        return "in"
    if case["what"] == "keyword":
        mask = np.arange(len(case["x"])) % 2 == 0
        for kw in ({"where": mask}, {"out": np.zeros(len(mask), dtype=object)}, {"out": (V.data.copy(),)}, {"dtype": float}):
            try:
                got = f(T, 2.0, **kw)
            except Exception:
                continue
            want = f(data, 2.0, dtype=object)
            require(got.shape == want.shape and all(x == y for x, y in zip(np.ravel(got.data if isinstance(got, ip.ArrayInterval) else got), want.ravel())),
                    "%s with %r gave %r", case["f"], kw, got)
        return "keyword"
    m = case["m"]

    def call(x):
        if m == "outer":
            return f.outer(x, x)
        if m == "outer-num":
            return f.outer(x, num)
        if m == "num-outer":
            return f.outer(num, x)
        if m == "reduce":
            return f.reduce(x)
        if m == "accumulate":
            return f.accumulate(x)
        if m == "reduceat":
            return f.reduceat(x, [0])
        f.at(x, [0], 2.0)
        return x
    try:
        got = call(T)
    except Exception:
        require(np.array_equal(T.a, V.a if case["array"] else V[0].a), "%s.%s raised and changed its operand", case["f"], m)
        return m
    try:
        want = call(data)
    except Exception:
        require(False, "%s.%s of %r gave %r", case["f"], m, T, got)
    g = np.asarray(got.data if isinstance(got, ip.ArrayInterval) else got, dtype=object)
    w = np.asarray(want.data if isinstance(want, ip.ArrayInterval) else want, dtype=object)
    require(g.shape == w.shape and all(x == y for x, y in zip(g.ravel(), w.ravel())), "%s.%s of %r gave %r, not %r", case["f"], m, V, got, want)
    return m + " defined"


PARTS = [
    Part("division", strat_div, check_div, 6000, shards=3, rule="division by something that contains zero raises"),
    Part("shape", strat_shape, check_shape, 1500, rule="incompatible shapes raise; compatible ones give numpy's shape"),
    Part("undefined", strat_undef, check_undef, 800, rule="undefined functions, orders and constructions raise"),
    Part("method", strat_method, check_method, 700, rule="methods and keywords of numpy functions, containment: the right value or an exception"),
]
