"""Construction of intervals and arrays."""
import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require
from exact import F

RULE = ("Every documented input form (two numbers, one number, a pair, an interval, two arrays, nested pairs, midpoint "
        "and radius) with int, float, numpy and mixed endpoints, in every order of the endpoints, with and without "
        "sortQ, as lists, tuples and numpy arrays of 1-3 dimensions; asinterval on the same and on nested lists that "
        "mix numbers and intervals; get_shape. Oracle: the documented meaning. Non-trivial: endpoints differ.")
ASSUMPTIONS = ["midpoint-radius endpoints may be off by one rounding"]


def same(got, a, b, what):
    require(isinstance(got, ip.ARITHMETICS), "%s is %r", what, got)
    require(got.a == a and got.b == b, "%s is [%r, %r], not [%r, %r]", what, got.a, got.b, a, b)
    if a <= b:
        require(isinstance(got, ip.ClassicalArithmetic), "%s = [%r, %r] is a %s", what, a, b, type(got).__name__)
    else:
        require(isinstance(got, ip.KaucherArithmetic), "%s = [%r, %r] is a %s", what, a, b, type(got).__name__)


def expect(a, b, sortq):
    return (b, a) if sortq and b < a else (a, b)


def num_kind():
    return st.sampled_from(["float", "int", "float64", "int64"])


def check_scalar(case):
    (ka, a), (kb, b), sortq, form = case["a"], case["b"], case["sortQ"], case["form"]
    va, vb = gen.mk_scalar([ka, a]), gen.mk_scalar([kb, b])
    kw = {} if sortq is None else {"sortQ": sortq}
    sq = True if sortq is None else sortq
    lo, hi = expect(a, b, sq)
    if form == "two":
        same(ip.Interval(va, vb, **kw), lo, hi, "Interval(%r, %r, %r)" % (va, vb, kw))
        same(ip.SingleInterval(va, vb, **kw), lo, hi, "SingleInterval(%r, %r, %r)" % (va, vb, kw))
    elif form == "pair":
        for seq in ([va, vb], (va, vb)):
            same(ip.Interval(seq, **kw), lo, hi, "Interval(%r, %r)" % (seq, kw))
    elif form == "one":
        same(ip.Interval(va, **kw), a, a, "Interval(%r, %r)" % (va, kw))
        same(ip.asinterval(va), a, a, "asinterval(%r)" % va)
    elif form == "again":
        X = ip.Interval(va, vb, **kw)
        same(ip.Interval(X), lo, hi, "Interval of %r" % X)
        same(ip.asinterval(X), lo, hi, "asinterval of %r" % X)
    else:
        c, r = va, vb if b >= 0 else gen.mk_scalar([kb if b not in (-2 ** 7, -2 ** 15, -2 ** 31) else "int", abs(b)])
        if abs(b) >= 2 ** 53:
            raise Skip()
        ea, eb = F(a) - abs(F(b)), F(a) + abs(F(b))
        for got in (ip.Interval(c, r, midRadQ=True, **kw), ip.Interval([c, r], midRadQ=True, **kw)):
            for g, w in ((got.a, ea), (got.b, eb)):
                tol = F(2) * F(np.spacing(max(abs(float(w)), 1e-300)))
                require(abs(F(g) - w) <= tol, "Interval(%r, %r, midRadQ=True) = [%r, %r]", c, r, got.a, got.b)
    return None if a == b else [form, "%s-%s" % (ka, kb), "sorted" if a < b else "descending"]


def strat_scalar():
    s = gen.scalar(-100, 100)
    general = st.tuples(s, s)

    def near(t):
        # equal, or nearly so, in the precision of the smaller type only
        v, k, other, d, swap = t
        v = float(getattr(np, k)(v))
        pair = [k, v], [other, v + d * abs(v)]
        return pair[::-1] if swap else pair
    close = st.tuples(st.floats(-100, 100).filter(lambda v: abs(v) > 1e-3), st.sampled_from(["float16", "float32"]), st.sampled_from(["float", "float64"]),
                      st.sampled_from([0.0, 1e-4, -1e-4, 1e-8, -1e-8, 1e-12, -1e-12]), st.booleans()).map(near)
    both = st.integers(0, 9).flatmap(lambda k: general if k else close)
    rest = st.fixed_dictionaries({"sortQ": st.sampled_from([None, True, False]), "form": st.sampled_from(["two", "pair", "one", "again", "midrad"])})
    return st.tuples(both, rest).map(lambda t: dict(t[1], a=t[0][0], b=t[0][1]))


@st.composite
def strat_array(draw):
    shape = draw(st.sampled_from([[1], [2], [3], [4], [1, 1], [2, 2], [2, 3], [3, 2], [1, 2], [2, 1], [2, 2, 2],
                                  [2, 1, 2], [1, 2, 3]]))
    n = int(np.prod(shape))
    el = draw(st.sampled_from(["float", "int", "mixed"]))
    ends = gen.small_ints(-20, 20) if el == "int" else st.one_of(gen.dyadic(), gen.floats_any(-30, 30)) \
        if el == "float" else st.one_of(gen.small_ints(), gen.dyadic(), gen.floats_any(-30, 30))
    return {"shape": shape, "x": draw(st.lists(st.tuples(ends, ends).map(list), min_size=n, max_size=n)),
            "sortQ": draw(st.sampled_from([None, True, False])),
            "form": draw(st.sampled_from(["two", "nested", "midrad", "again"])),
            "container": draw(st.sampled_from(["list", "ndarray", "tuple"]))}


def nest(values, shape):
    if len(shape) == 1:
        return list(values)
    step = len(values) // shape[0]
    return [nest(values[k * step:(k + 1) * step], shape[1:]) for k in range(shape[0])]


def tup(x):
    return tuple(tup(v) for v in x) if isinstance(x, list) else x


def wrap(x, container):
    return np.array(x) if container == "ndarray" else tup(x) if container == "tuple" else x


def check_array(case):
    shape, pairs, form, cont = tuple(case["shape"]), case["x"], case["form"], case["container"]
    kw = {} if case["sortQ"] is None else {"sortQ": case["sortQ"]}
    sq = case["sortQ"] is not False
    A, B = nest([p[0] for p in pairs], shape), nest([p[1] for p in pairs], shape)
    if form == "midrad":
        B = nest([abs(p[1]) for p in pairs], shape)
        res = ip.Interval(wrap(A, cont), wrap(B, cont), midRadQ=True, **kw)
    elif form == "two":
        res = ip.Interval(wrap(A, cont), wrap(B, cont), **kw)
    else:
        if pairs and len(shape) == 1 and shape[0] == 2 and cont != "ndarray" and False:
            raise Skip()
        res = ip.Interval(wrap(nest(pairs, shape), cont), **kw)
        if form == "again":
            res2 = ip.Interval(res)
            require(isinstance(res2, ip.ArrayInterval) and res2.shape == res.shape, "Interval(array) is %r", res2)
            res = ip.asinterval(res2)
    require(isinstance(res, ip.ArrayInterval), "%s of shape %r gives a %s", form, shape, type(res).__name__)
    require(res.shape == shape and res.ndim == len(shape), "%s: shape %r instead of %r", form, res.shape, shape)
    for p, idx in zip(pairs, np.ndindex(*shape)):
        if form == "midrad":
            got = res[idx]
            ea, eb = F(p[0]) - abs(F(p[1])), F(p[0]) + abs(F(p[1]))
            for g, w in ((got.a, ea), (got.b, eb)):
                require(abs(F(g) - w) <= 2 * F(np.spacing(max(abs(float(w)), 1e-300))),
                        "element %r with midpoint %r and radius %r is [%r, %r]", idx, p[0], abs(p[1]), got.a, got.b)
        else:
            same(res[idx], *expect(p[0], p[1], sq), what="element %r of the array from %r (%s, %s)" % (idx, p, form, kw))
    if all(p[0] == p[1] for p in pairs):
        return None
    return [form, cont, "dim%d" % len(shape), "unsorted" if any(p[0] > p[1] for p in pairs) else "sorted"]


@st.composite
def strat_long(draw):
    """30 to 300 elements, made from a seed."""
    shape = draw(st.sampled_from([[30], [70], [300], [2, 50], [50, 2], [12, 12], [5, 4, 6]]))
    n = int(np.prod(shape))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    el = draw(st.sampled_from(["int", "dyadic", "float"]))
    x = rng.integers(-20, 21, (n, 2)) if el == "int" else rng.integers(-80, 81, (n, 2)) / 8 if el == "dyadic" else rng.uniform(-9, 9, (n, 2)) * 2.0 ** rng.integers(-20, 20, (n, 2))
    if draw(st.booleans()):
        # all but a few in ascending order
        k = rng.integers(0, n, 2)
        y = np.sort(x, axis=1)
        y[k] = x[k]
        x = y
    return {"shape": shape, "x": x.tolist(), "sortQ": draw(st.sampled_from([None, True, False])),
            "form": draw(st.sampled_from(["two", "nested", "midrad", "again"])), "container": draw(st.sampled_from(["list", "ndarray", "tuple"]))}


@st.composite
def strat_as(draw):
    shape = draw(st.sampled_from([[1], [2], [3], [1, 1], [2, 2], [2, 3], [3, 1], [2, 2, 2]]))
    n = int(np.prod(shape))
    item = st.one_of(gen.pair(gen.numbers(-20, 20, big=0), improper=True), gen.numbers(-20, 20, big=0))
    kind = draw(st.sampled_from(["mixed", "numbers", "intervals"]))
    if kind == "numbers":
        item = draw(st.sampled_from([gen.small_ints(), gen.floats_any(-20, 20)]))
    elif kind == "intervals":
        item = gen.pair(gen.numbers(-20, 20, big=0), improper=True)
    return {"shape": shape, "x": draw(st.lists(item, min_size=n, max_size=n)), "kind": kind,
            "container": draw(st.sampled_from(["list", "tuple", "ndarray"]))}


def check_as(case):
    shape, items, cont = tuple(case["shape"]), case["x"], case["container"]
    vals = [gen.mk(v) if isinstance(v, list) else v for v in items]
    data = nest(vals, shape)
    if cont == "ndarray":
        arr = np.empty(shape, dtype=object if case["kind"] != "numbers" else None)
        for v, idx in zip(vals, np.ndindex(*shape)):
            arr[idx] = v
        data = arr
    elif cont == "tuple":
        data = tup(data)
    res = ip.asinterval(data)
    require(isinstance(res, ip.ArrayInterval) and res.shape == shape, "asinterval of shape %r gives %r", shape, res)
    for v, idx in zip(items, np.ndindex(*shape)):
        a, b = v if isinstance(v, list) else (v, v)
        got = res[idx]
        require(got.a == a and got.b == b, "element %r of asinterval is [%r, %r], not [%r, %r]", idx, got.a, got.b, a, b)
    if case["kind"] == "numbers" or cont == "ndarray":
        require(tuple(ip.get_shape(data)) == shape, "get_shape is %r, not %r", ip.get_shape(data), shape)
    require(tuple(ip.get_shape(res.data)) == shape, "get_shape of the data is %r", ip.get_shape(res.data))
    return [case["kind"], cont, "dim%d" % len(shape)]


@st.composite
def strat_new(draw):
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    return {"n": n, "m": m, "k": draw(st.integers(-5, 5)), "inf": draw(gen.floats_any(-20, 20)),
            "wid": draw(st.sampled_from([0.0, 0.5, 1.0, -1.0, 3.0])),
            "what": draw(st.sampled_from(["zeros", "full", "eye", "diag", "diagm", "compmat", "eyeN"])),
            "x": draw(st.lists(gen.pair(gen.numbers(-20, 20, big=0), improper=False), min_size=n * m, max_size=n * m)),
            "shape": draw(st.sampled_from(["int", "tuple1", "tuple2", "tuple3"]))}


def check_new(case):
    n, m, k, w = case["n"], case["m"], case["k"], case["what"]
    shape = {"int": n, "tuple1": (n,), "tuple2": (n, m), "tuple3": (2, n, m)}[case["shape"]]
    full = (shape,) if isinstance(shape, int) else shape
    X = ip.ArrayInterval(np.array([gen.mk(p) for p in case["x"]], dtype=object).reshape(n, m))

    def equal(R, lo, hi, what):
        require(isinstance(R, ip.ArrayInterval) and R.shape == lo.shape, "%s is %r", what, R)
        require(np.array_equal(R.a, lo) and np.array_equal(R.b, hi), "%s is %r, not %r..%r", what, R, lo, hi)
    if w == "zeros":
        z = np.zeros(full)
        equal(ip.zeros(shape), z, z, "zeros(%r)" % (shape,))
    elif w == "full":
        a, b = case["inf"], case["inf"] + case["wid"]
        equal(ip.full(shape, a, b), np.full(full, a), np.full(full, b), "full(%r, %r, %r)" % (shape, a, b))
    elif w == "eye":
        e = np.array([[1.0 if j - i == k else 0.0 for j in range(m)] for i in range(n)])
        equal(ip.eye(n, m, k), e, e, "eye(%d, %d, %d)" % (n, m, k))
        equal(ip.eye(n, M=m, k=k), e, e, "eye(%d, M=%d, k=%d)" % (n, m, k))
    elif w == "eyeN":
        e = np.array([[1.0 if j - i == k else 0.0 for j in range(n)] for i in range(n)])
        equal(ip.eye(n, k=k), e, e, "eye(%d, k=%d)" % (n, k))
    elif w == "diag":
        v = X[0]
        R = ip.diag(v, k)
        s = m + abs(k)
        lo, hi = np.zeros((s, s)), np.zeros((s, s))
        for i in range(m):
            r, c = (i, i + k) if k >= 0 else (i - k, i)
            lo[r, c], hi[r, c] = v[i].a, v[i].b
        equal(R, lo, hi, "diag(v, %d)" % k)
        equal(ip.diag(R, k), v.a, v.b, "diag(diag(v))")
    elif w == "diagm":
        idx = [(i, i + k) for i in range(n) if 0 <= i + k < m]
        if not idx:
            raise Skip()
        R = ip.diag(X, k)
        equal(R, np.array([X[i].a for i in idx]), np.array([X[i].b for i in idx]), "diag(A, %d)" % k)
    else:
        C = ip.compmat(X)
        for i in range(n):
            for j in range(m):
                a, b = X[i, j].a, X[i, j].b
                mag = max(abs(a), abs(b))
                want = (0 if a <= 0 <= b else min(abs(a), abs(b))) if i == j else -mag
                require(C[i, j] == want, "comparison matrix of %r has %r at %d, %d", X, C[i, j], i, j)
    return w


PARTS = [
    Part("scalar", strat_scalar, check_scalar, 4000, shards=1, rule="single intervals"),
    Part("long", strat_long, check_array, 150, thorough=4000, shards=2, rule="arrays of 30 to 300 elements"),
    Part("array", strat_array, check_array, 4000, shards=3, rule="arrays of intervals"),
    Part("asinterval", strat_as, check_as, 2500, shards=2, rule="asinterval and get_shape"),
    Part("new", strat_new, check_new, 3000, shards=2, rule="zeros, full, eye, diag, compmat"),
]
