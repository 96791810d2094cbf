"""Products of interval matrices, vectors and stacks of matrices."""
import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require
from exact import F
from props.c04 import kaucher

RULE = ("Matrix-matrix, matrix-vector, vector-matrix and vector-vector products of interval and numeric arrays on either "
        "side, proper and improper, with dyadic data (oracle: exact sums of products, compared exactly) and with full "
        "mantissas (oracle: rational sums, enclosure and tightness); the product of a member matrix and a member vector "
        "lies in the interval product; sums of up to 90 products in matrices up to 14 x 14. Non-trivial: inner dimension at least 2.")
ASSUMPTIONS = ["slack: 4*(k+2) units in the last place of the sum of magnitudes, k the inner dimension"]


@st.composite
def strat(draw):
    n, k, m = draw(st.integers(1, 4)), draw(st.integers(1, 5)), draw(st.integers(1, 4))
    form = draw(st.sampled_from(["mm", "mm", "mv", "mv", "vm", "vv"]))
    s = [n, k] if form[0] == "m" else [k]
    t = [k, m] if form[1] == "m" else [k]
    data = draw(st.sampled_from(["dyadic", "dyadic", "any", "int"]))
    ends = {"dyadic": gen.dyadic(), "any": gen.floats_any(-20, 20), "int": gen.small_ints()}[data]
    p = gen.pair(ends, improper=draw(st.sampled_from([False, False, True])))
    a, b = int(np.prod(s)), int(np.prod(t))
    return {"s": s, "t": t, "x": draw(st.lists(p, min_size=a, max_size=a)),
            "y": draw(st.lists(p, min_size=b, max_size=b)), "data": data,
            "kind": draw(st.sampled_from(["ii", "ii", "ii", "in", "ni", "il", "li", "iL", "Li", "iO", "Oi"])), "u": draw(st.lists(st.floats(0, 1), min_size=8, max_size=8)),
            "same": draw(st.sampled_from([""] * 8 + ["object", "transposed"]))}


def arr(pairs, shape):
    out = np.empty(len(pairs), dtype=object)
    for k, p in enumerate(pairs):
        out[k] = gen.mk(p)
    return ip.ArrayInterval(out.reshape(shape))


def check(case):
    s, t, kind = tuple(case["s"]), tuple(case["t"]), case["kind"]
    same = case.get("same", "")
    if same and kind == "ii" and (same == "transposed" or s == s[::-1]):
        # a product of an array with itself or its transpose is a product like any other
        t = s[::-1]
        M = arr(case["x"], s)
        case = dict(case, y=[[q.a, q.b] for q in (M.T if same == "transposed" else M).data.ravel()])
    else:
        same = ""
    xs = case["x"] if kind[0] in "iLO" else [[p[0], p[0]] for p in case["x"]]
    ys = case["y"] if kind[1] in "iLO" else [[p[0], p[0]] for p in case["y"]]
    X = arr(xs, s) if kind[0] in "iLO" else np.array([p[0] for p in xs]).reshape(s)
    Y = arr(ys, t) if kind[1] in "iLO" else np.array([p[0] for p in ys]).reshape(t)
    # lists and object arrays of intervals
    if kind[0] in "LO":
        X = X.data.copy() if kind[0] == "O" else X.data.tolist()
    if kind[1] in "LO":
        Y = Y.data.copy() if kind[1] == "O" else Y.data.tolist()
    if kind == "il":
        Y = Y.tolist()
    if kind == "li":
        X = X.tolist()
    if same:
        Y = X if same == "object" else X.T
    R = X @ Y
    k = s[-1]
    px = np.empty(len(xs), dtype=object)
    py = np.empty(len(ys), dtype=object)
    px[:] = [tuple(p) for p in xs]
    py[:] = [tuple(p) for p in ys]
    px = px.reshape(s if len(s) == 2 else (1, k))
    py = py.reshape(t if len(t) == 2 else (k, 1))
    shape = (px.shape[0], py.shape[1])
    want = tuple(d for d, keep in zip(shape, (len(s) == 2, len(t) == 2)) if keep)
    if want == ():
        require(isinstance(R, ip.ARITHMETICS), "the product of vectors is a %s", type(R).__name__)
        cells = {(0, 0): R}
    else:
        require(isinstance(R, ip.ArrayInterval) and R.shape == want, "%r @ %r gives %r, shape %r", s, t,
                type(R).__name__, getattr(R, "shape", None))
        D = R.data.reshape(shape)
        cells = {(i, j): D[i, j] for i in range(shape[0]) for j in range(shape[1])}
    for (i, j), got in cells.items():
        lo = hi = mag = F(0)
        for q in range(k):
            a, b = kaucher("*", px[i, q], py[q, j])
            lo, hi = lo + a, hi + b
            mag += max(abs(a), abs(b))
        ga, gb = F(got.a), F(got.b)
        what = "element %d, %d of %r @ %r is [%r, %r]; exactly [%.17g, %.17g]" % (i, j, X, Y, got.a, got.b, float(lo),
                                                                             float(hi))
        if case["data"] != "any":
            require(ga == lo and gb == hi, what)
        else:
            tol = mag * (k + 2) * 4 / 2 ** 52 + F(1e-300)
            require(lo - tol <= ga <= lo and hi <= gb <= hi + tol, what)
    u = case["u"]
    if kind == "ii" and all(p[0] <= p[1] for p in xs + ys):
        mx = np.array([p[0] + (p[1] - p[0]) * u[i % 8] for i, p in enumerate(xs)]).reshape(px.shape)
        my = np.array([p[0] + (p[1] - p[0]) * u[-1 - i % 8] for i, p in enumerate(ys)]).reshape(py.shape)
        P = mx @ my
        for (i, j), got in cells.items():
            e = 1e-13 * (1 + abs(P[i, j]))
            require(got.a - e <= P[i, j] <= got.b + e, "the product of members %r is not in [%r, %r]", P[i, j], got.a,
                    got.b)
    if k == 1:
        return None
    return [kind, case["data"], "%dd-%dd" % (len(s), len(t)),
            "improper" if any(p[0] > p[1] for p in xs + ys) else "proper"] + ([same] if same else [])


@st.composite
def strat_large(draw):
    return {"n": draw(st.integers(1, 14)), "k": draw(st.integers(1, 90)), "m": draw(st.integers(1, 14)), "form": draw(st.sampled_from(["mm", "mm", "mv", "vm", "vv"])),
            "kind": draw(st.sampled_from(["ii", "ii", "in", "ni"])), "improper": draw(st.booleans()), "seed": draw(st.integers(0, 2 ** 40))}


def check_large(case):
    """Long sums, exact in ordinary floating point; one endpoint at a time."""
    rng = np.random.default_rng(case["seed"])
    n, k, m = case["n"], case["k"], case["m"]
    n, m = (n if case["form"][0] == "m" else 1), (m if case["form"][1] == "m" else 1)

    def operand(s, numbers):
        lo = rng.integers(-40, 41, s) / 4
        hi = lo if numbers else lo + rng.integers(-8 if case["improper"] else 0, 30, s) / 4
        return lo, hi
    (xl, xh), (yl, yh) = operand((n, k), case["kind"][0] == "n"), operand((k, m), case["kind"][1] == "n")
    X = xl if case["kind"][0] == "n" else ip.Interval(xl, xh, sortQ=False)
    Y = yl if case["kind"][1] == "n" else ip.Interval(yl, yh, sortQ=False)
    if case["form"][0] == "v":
        X = X[0]
    if case["form"][1] == "v":
        Y = Y[:, 0]
    R = X @ Y
    xl, xh, yl, yh = xl[:, :, None], xh[:, :, None], yl[None], yh[None]
    pos, neg = lambda v: np.maximum(v, 0), lambda v: np.maximum(-v, 0)
    # Lakeev's formula for the product in Kaucher arithmetic
    lo = np.maximum(pos(xl) * pos(yl), neg(xh) * neg(yh)) - np.maximum(pos(xh) * neg(yl), neg(xl) * pos(yh))
    hi = np.maximum(pos(xh) * pos(yh), neg(xl) * neg(yl)) - np.maximum(pos(xl) * neg(yh), neg(xh) * pos(yl))
    lo, hi = lo.sum(1), hi.sum(1)
    shape = tuple(d for d, f in zip((n, m), case["form"]) if f == "m")
    if shape:
        require(isinstance(R, ip.ArrayInterval) and R.shape == shape, "the product has shape %r", getattr(R, "shape", None))
    else:
        require(isinstance(R, ip.ARITHMETICS), "the product of vectors is a %s", type(R).__name__)
    a, b = np.reshape(np.array(R.a, dtype=float), lo.shape), np.reshape(np.array(R.b, dtype=float), lo.shape)
    for i, j in np.argwhere((a != lo) | (b != hi))[:1]:
        require(False, "element %d, %d of a product with %d summands is [%r, %r] and not [%r, %r]", i, j, k, a[i, j], b[i, j], lo[i, j], hi[i, j])
    return None if k == 1 else [case["form"], case["kind"], "k <= 30" if k <= 30 else "k > 30"]


SHAPES = [([2, 2, 3], [3, 2]), ([2, 2, 3], [2, 3, 2]), ([2, 3], [2, 3, 2]), ([2, 1, 2], [2]), ([2], [2, 2, 3]), ([1, 2, 2], [3, 2, 2]), ([3, 1, 2], [1, 2, 1])]


@st.composite
def strat_stack(draw):
    s, t = draw(st.sampled_from(SHAPES))
    p = gen.pair(st.integers(-6, 6).map(lambda k: k / 2), improper=draw(st.sampled_from([False, False, True])))
    return {"s": s, "t": t, "x": draw(st.lists(p, min_size=3, max_size=12)), "y": draw(st.lists(p, min_size=3, max_size=12)),
            "kind": draw(st.sampled_from(["ii", "in", "ni"])), "ufunc": draw(st.booleans())}


def check_stack(case):
    s, t, kind = tuple(case["s"]), tuple(case["t"]), case["kind"]
    n, m = int(np.prod(s)), int(np.prod(t))
    xs, ys = [case["x"][i * 5 % len(case["x"])] for i in range(n)], [case["y"][i * 7 % len(case["y"])] for i in range(m)]
    if kind[0] == "n":
        xs = [[p[0], p[0]] for p in xs]
    if kind[1] == "n":
        ys = [[p[0], p[0]] for p in ys]
    X = arr(xs, s) if kind[0] in "iLO" else np.array([p[0] for p in xs]).reshape(s)
    Y = arr(ys, t) if kind[1] in "iLO" else np.array([p[0] for p in ys]).reshape(t)
    R = np.matmul(X, Y) if case["ufunc"] else X @ Y
    want = (np.zeros(s) @ np.zeros(t)).shape
    require(isinstance(R, ip.ArrayInterval) and R.shape == want, "%r @ %r has shape %r, not %r", s, t, getattr(R, "shape", None), want)
    ix, iy = np.arange(n).reshape(s), np.arange(m).reshape(t)
    if len(s) == 1:
        ix = ix[None, :]
    if len(t) == 1:
        iy = iy[:, None]
    st_ = np.broadcast_shapes(ix.shape[:-2], iy.shape[:-2])
    ix, iy = np.broadcast_to(ix, st_ + ix.shape[-2:]), np.broadcast_to(iy, st_ + iy.shape[-2:])
    D = R.data.reshape(st_ + (ix.shape[-2], iy.shape[-1]))
    for idx in np.ndindex(*D.shape):
        lo = hi = F(0)
        for q in range(ix.shape[-1]):
            a, b = kaucher("*", tuple(xs[ix[idx[:-2] + (idx[-2], q)]]), tuple(ys[iy[idx[:-2] + (q, idx[-1])]]))
            lo, hi = lo + a, hi + b
        require(F(D[idx].a) == lo and F(D[idx].b) == hi, "%r @ %r (%s): element %r is %r, not [%s, %s]", s, t, kind, idx, D[idx], lo, hi)
    return kind


PARTS = [Part("large", strat_large, check_large, 400, thorough=8000, shards=2, rule="up to 90 summands"),
         Part("stack", strat_stack, check_stack, 300, shards=1, rule="stacks of matrices"),
         Part("product", strat, check, 6000, shards=6, rule="products against exact sums of products")]
