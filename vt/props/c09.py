"""Array operations are the scalar operations, element by element."""
import operator

import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require

RULE = ("Interval arrays (proper and improper elements, 1-3 dimensions, all broadcasting shapes) combined with interval "
        "arrays, single intervals, numbers and numeric arrays on either side through operators, reflected operators, "
        "in-place operators and numpy functions; unary and elementary functions. Oracle: the same operation applied to "
        "each pair of elements with plain python (differential), where the scalar operations are decided by C01-C04. "
        "Non-trivial: more than one element.")
ASSUMPTIONS = ["division: no divisor contains zero", "array and scalar results may differ by 4 units in the last place "
               "(both are rounded outwards)", "in-place operators keep the shape of the left operand"]
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
UFUNC = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide}
IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}


def near(x, y):
    if x == y:
        return True
    return abs(x - y) <= 4 * np.spacing(max(abs(x), abs(y)))


def same(got, want):
    return isinstance(got, ip.ARITHMETICS) and near(got.a, want.a) and near(got.b, want.b)


SHAPES = [([3], [3]), ([2], [2]), ([2, 2], [2, 2]), ([2, 3], [2, 3]), ([2, 3], [3]), ([3], [2, 3]), ([2, 1], [1, 3]),
          ([2, 1], [3]), ([1], [3]), ([3], [1]), ([2, 2, 2], [2, 2, 2]), ([2, 1, 2], [2, 2]), ([1, 1], [2, 2]),
          ([4], [4])]
EMPTY = [([0], [0]), ([0], [1]), ([0, 2], [2]), ([2, 0], [2, 1]), ([1], [0]), ([1, 2], [0, 2])]


@st.composite
def strat_binary(draw):
    s, t = draw(st.sampled_from(SHAPES)) if draw(st.integers(0, 15)) else draw(st.sampled_from(EMPTY))
    improper = draw(st.sampled_from([False, False, True]))
    ends = draw(st.sampled_from(["dyadic", "any", "int"]))
    ends = {"dyadic": gen.dyadic(), "any": gen.floats_any(-20, 20), "int": gen.small_ints()}[ends]
    p = gen.pair(ends, improper=improper)
    n, m = int(np.prod(s)), int(np.prod(t))
    return {"s": s, "t": t, "x": draw(st.lists(p, min_size=n, max_size=n)),
            "y": draw(st.lists(p, min_size=m, max_size=m)), "op": draw(st.sampled_from("+-*/")),
            "kind": draw(st.sampled_from(["aa", "aa", "aa", "ai", "ia", "an", "na", "aN", "Na", "iN", "Ni", "al", "la",
                                          "ss", "aL", "La", "aO", "Oa"])),
            "via": draw(st.sampled_from(["operator", "operator", "ufunc", "inplace"])),
            "num": draw(gen.scalar(-10, 10, big=1000))}


def arr(pairs, shape):
    out = np.empty(len(pairs), dtype=object)
    for k, p in enumerate(pairs):
        out[k] = gen.mk(p)
    return ip.ArrayInterval(out.reshape(shape))


def away(p):
    """An interval of the same kind that does not contain zero."""
    lo, hi = min(p), max(p)
    if lo > 0 or hi < 0:
        return p
    w = hi - lo
    q = [1 + abs(lo), 1 + abs(lo) + w]
    return q if p[0] <= p[1] else q[::-1]


def check_binary(case):
    s, t, op, kind, via = tuple(case["s"]), tuple(case["t"]), case["op"], case["kind"], case["via"]
    xs, ys = case["x"], case["y"]
    num = gen.mk_scalar(case["num"])
    if op == "/":
        ys = [away(p) for p in ys]
        if num == 0:
            num = type(num)(3)
    l, r = kind
    if 0 in s + t and kind in ("al", "la", "ss", "aL", "La", "aO", "Oa"):
        kind = "aa"
        l, r = kind
    X, Y = arr(xs, s), arr(ys, t)
    if kind == "ss":                      # the same object on both sides is no different from two equal arrays
        xs, t, kind = ys, s, "aa"
        l, r = kind
        if len(ys) != int(np.prod(s)):
            xs = ys = (ys * len(case["x"]))[:len(case["x"])]
        X = Y = arr(xs, s)
    left = {"a": X, "i": X.data.ravel()[0] if xs else ip.Interval(1, 3), "n": num, "N": np.array([float(p[0]) for p in xs]).reshape(s),
            "l": np.array([float(p[0]) for p in xs]).reshape(s).tolist(), "L": X.data.tolist(), "O": X.data.copy()}[l]
    right = {"a": Y, "i": Y.data.ravel()[0] if ys else ip.Interval(2, 3), "n": num, "N": np.array([float(p[0]) for p in ys]).reshape(t),
             "l": np.array([float(p[0]) for p in ys]).reshape(t).tolist(), "L": Y.data.tolist(), "O": Y.data.copy()}[r]
    if via == "ufunc" and kind in ("ai", "ia", "iN", "Ni", "al", "la", "aL", "La", "aO", "Oa"):
        via = "operator"
    cl = np.empty(s if l in "aNlLO" else (), dtype=object)
    cr = np.empty(t if r in "aNlLO" else (), dtype=object)
    cl[...] = X.data if l in "aLO" else left
    cr[...] = Y.data if r in "aLO" else right
    bl, br = np.broadcast_arrays(cl, cr)
    if via == "inplace" and (l != "a" or bl.shape != s):
        via = "operator"
    if via == "inplace":
        target = X.copy()
        if X is Y:
            right = target
        res = IOPS[op](target, right)
        require(res is target, "the in-place operator %s= returned another object", op)
    else:
        res = (UFUNC if via == "ufunc" else OPS)[op](left, right)
    what = "%s %s (%s, shapes %r %r)" % (kind, op, via, s, t)
    if isinstance(res, np.ndarray) and res.dtype == object and kind in ("Ni", "iN"):
        res = ip.ArrayInterval(res)
    require(isinstance(res, ip.ArrayInterval), "%s gives a %s", what, type(res).__name__)
    require(res.shape == bl.shape, "%s has shape %r, not %r", what, res.shape, bl.shape)
    for idx in np.ndindex(*bl.shape):
        p, q = bl[idx], br[idx]
        want = OPS[op](p.item() if isinstance(p, np.generic) else p, q.item() if isinstance(q, np.generic) else q)
        require(same(res[idx], want), "%s: element %r of %r %s %r is %r, not %r", what, idx, p, op, q, res[idx], want)
    require(all(e.a == p[0] and e.b == p[1] for e, p in zip(X.data.ravel(), xs)) and
            all(e.a == p[0] and e.b == p[1] for e, p in zip(Y.data.ravel(), ys)), "%s changed an operand", what)
    if bl.size == 1:
        return None
    return [kind + op, via, "same object" if X is Y else "broadcast" if s != t and kind == "aa" else "same",
            "improper" if any(p[0] > p[1] for p in xs + ys) else "proper"]


@st.composite
def strat_unary(draw):
    s = draw(st.sampled_from([[1], [2], [4], [2, 2], [2, 3], [2, 1, 2]])) if draw(st.integers(0, 15)) else draw(st.sampled_from([[0], [0, 2], [2, 0]]))
    n = int(np.prod(s))
    return {"s": s, "x": draw(st.lists(gen.pair(st.one_of(gen.reals(-8, 8), gen.dyadic()), improper=False), min_size=n,
                                       max_size=n)),
            "f": draw(st.sampled_from(["sqrt", "exp", "log", "sin", "cos", "neg", "abs", "sign", "pow", "dual", "pro",
                                       "opp", "inv", "npexp", "npsin", "npcos", "npsqrt", "nplog", "copy"])),
            "n": draw(st.integers(0, 5))}


def check_unary(case):
    s, xs, f = tuple(case["s"]), case["x"], case["f"]
    if f in ("sqrt", "log", "nplog", "npsqrt"):
        xs = [[abs(p[0]), abs(p[0]) + abs(p[1] - p[0])] for p in xs]
        if "log" in f:
            xs = [[p[0] + 0.25, p[1] + 0.25] for p in xs]
    if f == "inv":
        xs = [away(p) for p in xs]
    X = arr(xs, s)
    g = {"neg": operator.neg, "abs": abs, "pow": lambda v: v ** case["n"], "dual": lambda v: v.dual,
         "pro": lambda v: v.pro, "opp": lambda v: v.opp, "inv": lambda v: v.inv, "copy": lambda v: v.copy()}.get(f)
    if g is None:
        g = getattr(np, f[2:]) if f.startswith("np") else getattr(ip, f)
    R = g(X)
    require(isinstance(R, ip.ArrayInterval) and R.shape == s, "%s of an array of shape %r gives %r", f, s, R)
    for idx in np.ndindex(*s):
        want = g(X[idx])
        require(same(R[idx], want), "%s: element %r of %r is %r, not %r", f, idx, X[idx], R[idx], want)
    require(all(e.a == p[0] and e.b == p[1] for e, p in zip(X.data.ravel(), xs)), "%s changed its argument", f)
    if not xs:
        for g in ("a", "b", "inf", "sup", "mid", "rad", "wid", "mig", "mag", "khi"):
            v = getattr(X, g)
            require(isinstance(v, np.ndarray) and v.shape == s, "%s of an array of shape %r is %r", g, s, v)
        require(ip.isnan(X).shape == s and ip.intersection(X, X).shape == s and X.to_float().shape == s, "a function of an array of shape %r has another shape", s)
        require((1 in X) is False, "an empty array contains 1")
        Z = ip.Interval(np.zeros(s), np.zeros(s))
        require(isinstance(Z, ip.ArrayInterval) and Z.shape == s and ip.zeros(s).shape == s, "an empty array is constructed as %r", Z)
        return "empty"
    return f if len(xs) > 1 else None


@st.composite
def strat_power(draw):
    s, t = draw(st.sampled_from(SHAPES))
    kind = draw(st.sampled_from(["aa", "ai", "ia", "an", "aN", "iN", "al"]))
    real = draw(st.booleans()) if kind in ("an", "aN", "iN", "al") else True
    n, m = int(np.prod(s)), int(np.prod(t))
    base = st.tuples(st.integers(1, 40), st.integers(0, 24)).map(lambda q: [q[0] / 8, (q[0] + q[1]) / 8]) if real else gen.pair(gen.dyadic(-24, 24), improper=False)
    ex = st.integers(-16, 24).map(lambda k: k / 8) if real else st.integers(0, 5)
    return {"s": s, "t": t, "kind": kind, "x": draw(st.lists(base, min_size=n, max_size=n)),
            "y": draw(st.lists(st.tuples(ex, ex).map(lambda q: [min(q), max(q)]), min_size=m, max_size=m))}


def check_power(case):
    s, t, kind = tuple(case["s"]), tuple(case["t"]), case["kind"]
    X, Y = arr(case["x"], s), arr(case["y"], t)
    num = np.array([p[0] for p in case["y"]]).reshape(t)
    left = {"a": X, "i": X.data.ravel()[0]}[kind[0]]
    right = {"a": Y, "i": Y.data.ravel()[0], "n": case["y"][0][0], "N": num, "l": num.tolist()}[kind[1]]
    res = left ** right
    cl = np.empty(np.shape(left.data) if kind[0] == "a" else (), dtype=object)
    cr = np.empty(np.shape(right.data if kind[1] == "a" else right) if kind[1] in "aNl" else (), dtype=object)
    cl[...] = left.data if kind[0] == "a" else left
    cr[...] = right.data if kind[1] == "a" else right
    bl, br = np.broadcast_arrays(cl, cr)
    if isinstance(res, np.ndarray):
        res = ip.ArrayInterval(res)
    require(isinstance(res, ip.ArrayInterval) and res.shape == bl.shape, "%s power, shapes %r and %r: %r", kind, s, t, res)
    for idx in np.ndindex(*bl.shape):
        p, q = bl[idx], br[idx]
        want = p ** (q.item() if isinstance(q, np.generic) else q)
        require(same(res[idx], want), "%s power: element %r of %r ** %r is %r, not %r", kind, idx, p, q, res[idx], want)
    return kind if bl.size > 1 else None


LONG = [([70], [70]), ([300], [300]), ([40, 7], [40, 7]), ([40, 7], [7]), ([1, 65], [9, 1]), ([130], [1]), ([513], [513]), ([3, 5, 9], [5, 9])]


@st.composite
def strat_long(draw):
    """Binary operations on up to 585 elements, made from a seed."""
    s, t = draw(st.sampled_from(LONG))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    x, y = (rng.choice([rng.integers(-40, 41, (int(np.prod(u)), 2)) / 8, rng.uniform(-9, 9, (int(np.prod(u)), 2))]) for u in (s, t))
    if draw(st.integers(0, 2)):
        x, y = np.sort(x, axis=1), np.sort(y, axis=1)
    return {"s": s, "t": t, "x": x.tolist(), "y": y.tolist(), "op": draw(st.sampled_from("+-*/")),
            "kind": draw(st.sampled_from(["aa", "aa", "ai", "ia", "an", "na", "aN", "Na", "iN", "Ni", "al", "la", "ss"])),
            "via": draw(st.sampled_from(["operator", "operator", "ufunc", "inplace"])), "num": draw(gen.scalar(-10, 10, big=1000))}


@st.composite
def strat_long_unary(draw):
    case = draw(strat_unary())
    s, _ = draw(st.sampled_from(LONG))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    case.update(s=s, x=np.sort(rng.uniform(-8, 8, (int(np.prod(s)), 2)), axis=1).tolist())
    return case


PARTS = [
    Part("long binary", strat_long, check_binary, 120, thorough=4000, shards=2, rule="binary operations on 45 to 585 elements"),
    Part("long unary", strat_long_unary, check_unary, 60, thorough=2000, shards=2, rule="unary operations on 9 to 513 elements"),
    Part("binary", strat_binary, check_binary, 8000, shards=4, rule="binary operations with broadcasting"),
    Part("power", strat_power, check_power, 1500, shards=2, rule="powers with numbers, arrays and intervals as exponents"),
    Part("unary", strat_unary, check_unary, 2500, shards=2, rule="unary operations and elementary functions"),
]
