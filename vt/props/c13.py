"""The interval metric."""
import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require

RULE = ("Triples of intervals and arrays (proper and improper, 1-2 dimensions, of magnitudes from 2^-80 to 2^80) and orders 1..6 and infinity. Oracle: the "
        "formula over the endpoint distances, and the axioms of a metric. Non-trivial: the first two operands differ.")
ASSUMPTIONS = ["relative slack 1e-12"]


@st.composite
def strat(draw):
    shape = draw(st.sampled_from([[], [1], [2], [3], [5], [2, 2], [3, 2]]))
    n = int(np.prod(shape))
    p = gen.pair(st.one_of(gen.dyadic(), gen.reals(-100, 100), gen.small_ints()), improper=draw(st.booleans()))
    x = draw(st.lists(p, min_size=n, max_size=n))
    y = list(x) if draw(st.integers(0, 9)) == 0 else draw(st.lists(p, min_size=n, max_size=n))
    if draw(st.integers(0, 3)) == 0:
        # they differ in one endpoint of one component only
        y = [list(q) for q in x]
        k = draw(st.integers(0, n - 1))
        y[k][draw(st.integers(0, 1))] += draw(gen.dyadic())
    z = draw(st.lists(p, min_size=n, max_size=n))
    if draw(st.integers(0, 2)) == 0:
        # quantities of another order of magnitude
        u = 2.0 ** draw(st.integers(-80, 80))
        x, y, z = ([[u * t for t in q] for q in l] for l in (x, y, z))
    return {"shape": shape, "x": x, "y": y, "z": z,
            "order": draw(st.sampled_from(["inf", "default", 1, 2, 3, 4, 6]))}


def check(case):
    shape = tuple(case["shape"])

    def build(q):
        if not shape:
            return gen.mk(q[0])
        out = np.empty(len(q), dtype=object)
        for i, p in enumerate(q):
            out[i] = gen.mk(p)
        return ip.ArrayInterval(out.reshape(shape))
    X, Y, Z = build(case["x"]), build(case["y"]), build(case["z"])
    o = case["order"]
    kw = {} if o == "default" else {"order": ip.infinity if o == "inf" else o}
    d = lambda p, q: float(ip.dist(p, q, **kw))

    def formula(p, q):
        c = [max(abs(u[0] - v[0]), abs(u[1] - v[1])) for u, v in zip(p, q)]
        return float(max(c)) if isinstance(o, str) else sum(float(t) ** o for t in c) ** (1 / o)
    xy, yx, xz, yz = d(X, Y), d(Y, X), d(X, Z), d(Y, Z)
    want = formula(case["x"], case["y"])
    require(abs(xy - want) <= 1e-12 * want, "dist(%r, %r, %r) = %r, not %r", X, Y, o, xy, want)
    require(abs(xz - formula(case["x"], case["z"])) <= 1e-12 * xz, "dist(%r, %r, %r) = %r", X, Z, o, xz)
    require(xy == yx, "dist is not symmetric: %r, %r", xy, yx)
    require(d(X, X) == 0, "dist of %r to itself is %r", X, d(X, X))
    require(xy > 0 or case["x"] == case["y"] or want == 0, "dist of different operands %r, %r is 0", X, Y)
    require(xz <= (xy + yz) * (1 + 1e-12), "the triangle inequality fails: %r > %r + %r", xz, xy, yz)
    if want == 0:
        return None
    return ["order %s" % o, "dim%d" % len(shape)]


PARTS = [Part("metric", strat, check, 5000, shards=2, rule="formula and axioms")]
