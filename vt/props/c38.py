"""Results do not depend on how the arguments are represented."""
import math

import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
import lin
from core import Part, require
from props import c33

RULE = ("One of the 77 calls of C33 and 21 others on objects of the same content in two representations. Numbers, points, weights, matrices: numpy arrays of "
        "float64 against lists, tuples, arrays of int8 to int64, uint8, uint32, float16, float32, objects, with other strides or order. Intervals: "
        "floating-point endpoints of ClassicalArithmetic against integer endpoints, proper intervals of KaucherArithmetic, views with strides, Fortran order. "
        "Oracle: the call with the plain representation. Non-trivial: the call returned and at least one argument was represented otherwise.")
ASSUMPTIONS = ["lists and tuples may be refused where a numpy array is asked for", "row preprocessing, which rounds to 12 decimals, is not asked to work in float16", "results agree to 1e-9 where intermediate roundings may differ"]
NUMERIC, EXPO = ["p", "y", "M", "w", "G", "h"], ["k"]
KINDS = ["list", "tuple", "int8", "int16", "int32", "int64", "uint8", "uint32", "float16", "float32", "object", "fortran", "strides", "ilist"]
IKINDS = ["int", "kaucher", "fortran", "strides", "reversed", "mixed"]

EXTRA = {
    "Cheb.value": lambda q: ip.ChebNorm.value(q["A"], q["b"], q["p"], weight=q["w"]), "Cheb x0": lambda q: ip.ChebNorm.minimize(q["A"], q["b"], x0=q["p"], maxiter=30),
    "Tol w": lambda q: ip.Tol.maximize(q["A"], q["b"], weight=q["w"], maxiter=30), "Uni w": lambda q: ip.Uni.maximize(q["A"], q["b"], x0=q["p"], weight=q["w"], maxiter=30),
    "Uss w": lambda q: ip.Uss.maximize(q["A"], q["b"], x0=q["p"], weight=q["w"], maxiter=30), "Cheb w": lambda q: ip.ChebNorm.minimize(q["A"], q["b"], weight=q["w"], maxiter=30),
    "Uni.value": lambda q: ip.Uni.value(q["A"], q["b"], q["p"], weight=q["w"]), "Uss.value": lambda q: ip.Uss.value(q["A"], q["b"], q["p"], weight=q["w"]),
    "LC": lambda q: _constraint(q), "LC max": lambda q: ip.Tol.maximize(q["A"], q["b"], linear_constraint=_constraint(q), maxiter=30),
    "window": lambda q: ip.IntLinIncR2(q["A"], q["b"], bounds=q["y"], show=False), "intersection num": lambda q: ip.intersection(q["d"], q["p"]),
    "midrad": lambda q: ip.Interval(q["p"], q["w"], midRadQ=True), "number x": lambda q: [f(q["p"][0]) for f in (lambda t: q["x"] * t, lambda t: t - q["x"], lambda t: q["x"] - t, lambda t: t / q["z"])],
    "compare": lambda q: [f(q["p"][0]) for f in (lambda t: q["x"] < t, lambda t: q["x"] >= t, lambda t: t in q["x"], lambda t: q["x"] == t)],
    "write": lambda q: _write(q), "p-x": lambda q: q["p"] - q["x"], "x-p": lambda q: q["x"] - np.asarray(q["p"]), "x*M": lambda q: q["x"] * np.asarray(q["M"]), "M/z": lambda q: np.asarray(q["M"]) / q["z"],
    "predict": lambda q: _predict(q),
}


def _constraint(q):
    return ip.LinearConstraint(q["y"], lb=q["p"])


def _write(q):
    X = q["A"].copy()
    X[0] = q["p"]
    X[:, 1] = q["d"]
    return X


def _predict(q):
    m = ip.WILS()
    m.fit(q["A"], q["b"], x0=q["p"], weight=q["w"], maxiter=15)
    return m.predict(q["M"])


def numeric(v, kind):
    """v (float64) in another representation, or None if that does not hold its values."""
    if kind == "list":
        return v.tolist()
    if kind == "tuple":
        return tuple(tuple(r) if isinstance(r, list) else r for r in v.tolist())
    if kind == "object":
        return v.astype(object)
    if kind == "fortran":
        return np.asfortranarray(v)
    if kind == "strides":
        return np.repeat(v, 3, axis=0)[::-3][::-1]
    with np.errstate(all="ignore"):
        r = v.astype("int64" if kind == "ilist" else kind)
    if not np.array_equal(r.astype(float), v):
        return None
    return r.tolist() if kind == "ilist" else r


def single(x, kind):
    if kind == "int" and x.a == int(x.a) and x.b == int(x.b):
        return ip.ClassicalArithmetic(int(x.a), int(x.b))
    if kind == "mixed" and x.a == int(x.a):
        return ip.ClassicalArithmetic(int(x.a), x.b)
    if kind == "kaucher":
        return ip.KaucherArithmetic(x.a, x.b)
    return x


def interval(v, kind):
    if isinstance(v, ip.ARITHMETICS):
        return single(v, kind)
    d = v.data
    if kind in ("int", "kaucher", "mixed"):
        d = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            d[i] = single(v.data[i], kind)
    elif kind == "fortran":
        d = np.asfortranarray(d)
    elif kind == "strides":
        d = np.repeat(d, 2, axis=0)[::2]
    elif kind == "reversed":
        d = d[::-1].copy()[::-1]
    return ip.ArrayInterval(d)


@st.composite
def strat(draw):
    case = draw(c33.strat())
    case["ops"], case["spoil"] = case["ops"][:1] + draw(st.lists(st.sampled_from(sorted(EXTRA)), min_size=1, max_size=2)), False
    case["whole"] = draw(st.sampled_from(["", "round", "round", "abs"]))
    case["numbers"] = draw(st.sampled_from(KINDS + [""] * 3))
    case["intervals"] = draw(st.sampled_from(IKINDS + [""] * 3))
    return case


def whole(v, how):
    if how and isinstance(v, np.ndarray) and v.dtype == float:
        v = np.round(v)
        return abs(v) if how == "abs" else v
    if how and isinstance(v, ip.ARITHMETICS):
        return ip.Interval(float(math.floor(v.a)), float(math.ceil(v.b)))
    if how and isinstance(v, ip.ArrayInterval):
        return ip.Interval(np.floor(v.a), np.ceil(v.b))
    return v


def pools(case):
    q = c33.fresh(case)
    q["p"] = q["p"] if case["whole"] == "" or np.any(np.round(q["p"])) else q["p"] + 1
    for k in NUMERIC:
        q[k] = whole(q[k], case["whole"])
    for k in ("A", "b", "d", "x0", "x"):
        q[k] = whole(q[k], case["whole"])
    return q


def close(u, v, tol):
    if isinstance(u, tuple):
        return isinstance(v, tuple) and len(u) == len(v) and all(close(a, b, tol) for a, b in zip(u, v))
    if u == v:
        return True
    try:
        a, b = (float.fromhex(t) if isinstance(t, str) else float(t) for t in (u, v))
    except (ValueError, TypeError):
        return False
    return a != a and b != b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def call(name, q):
    if name in c33.OPS:
        return c33.call(name, q)
    np.random.seed(99)
    try:
        return EXTRA[name](q), None
    except Exception as e:
        return None, (type(e).__name__, str(e)[:60])


def check(case):
    out = []
    nk, ik = case["numbers"], case["intervals"]
    for name in case["ops"]:
        plain, other = pools(case), pools(case)
        changed = False
        if nk:
            for k in NUMERIC + EXPO:
                if k in EXPO and not nk.startswith(("int", "uint", "strides", "object", "ilist", "list")):
                    continue
                v = numeric(plain[k], nk)
                if v is not None:
                    other[k], changed = v, True
            if name in ("unique", "clear") and nk == "float16":
                other["G"], other["h"] = plain["G"], plain["h"]
        if ik:
            for k in ("A", "b", "d", "x0", "x", "z"):
                other[k] = interval(plain[k], ik)
            changed = True
        if not changed:
            continue
        want, e = call(name, plain)
        got, g = call(name, other)
        if g is not None and nk in ("list", "tuple", "ilist", "object"):
            continue
        require((e is None) == (g is None), "%s %s with plain arguments and %s with numbers as %s, intervals as %s", name, "returns" if e is None else "raises %r" % (e,),
                "returns" if g is None else "raises %r" % (g,), nk or "before", ik or "before")
        if e is None:
            require(close(c33.flat(want), c33.flat(got), 1e-9), "%s gives %r, with numbers as %s, intervals as %s %r", name, want, nk or "before", ik or "before", got)
            out += [name, "numbers " + (nk or "same"), "intervals " + (ik or "same")]
    return out or None


PARTS = [Part("calls", strat, check, 900, thorough=20000, shards=8, rule="a call returned and an argument was represented otherwise")]
