"""PPS: optimal componentwise estimates for square systems."""
import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
import lin
from core import Part, require

RULE = ("Square systems up to 5 x 5 of matrices that stay regular (dyadic data, point matrices, point right-hand sides, zero "
        "entries, unknowns with estimates of both signs), all components or one, iteration limits, rows and solutions scaled by powers of two from 2^-13 to 2^20. Oracle: the exact hull of "
        "the united solution set from the vertices of its orthant pieces or linear programs over them. Non-trivial: the result was compared with the "
        "hull.")
ASSUMPTIONS = ["the method starts from interval Gaussian elimination and the Hansen-Bliek-Rohn procedure; where one of them "
               "refuses the matrix (a pivot with zero, no H-matrix), so may PPS", "relative tolerance 1e-6"]
BIG = 10


@st.composite
def strat(draw):
    n = draw(st.sampled_from([2, 2, 2, 3, 3]))
    case = draw(lin.regular_system(n, n, 0, rho=draw(st.sampled_from([0.3, 0.6, 0.8]))))
    case["nu"] = draw(st.one_of(st.none(), st.none(), st.integers(0, n - 1)))
    case["maxiter"] = draw(st.sampled_from([None, None, None, None, 0, 1, 2, 5, 9]))
    case.update(draw(lin.units(n, -13)))
    return case


@st.composite
def strat_large(draw):
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    n = draw(st.integers(4, 5))
    Ac, Ar = lin.large_regular(rng, n, n, rng.choice([0.1, 0.3, 0.5]))
    bc, br = rng.integers(-20, 21, n).astype(float), rng.integers(1, 9, n) / 4
    return {"A": lin.pairs(Ac - Ar, Ac + Ar), "b": lin.pairs(bc - br, bc + br), "nu": draw(st.one_of(st.none(), st.integers(0, n - 1))),
            "maxiter": draw(st.sampled_from([None, None, 3])), **draw(lin.units(n, -13))}


def check(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b, unit = lin.in_units(case)
    n = len(bl)
    h = (lin.hull if n < 4 else lin.hull_lp)(Al, Ah, bl, bh)
    if h is None:
        return None
    lo, hi = h
    kw = {}
    if case["nu"] is not None:
        kw["nu"] = case["nu"]
        lo, hi = lo[case["nu"]:case["nu"] + 1], hi[case["nu"]:case["nu"] + 1]
    if case["maxiter"] is not None:
        kw["maxiter"] = case["maxiter"]
    try:
        x = ip.PPS(A, b, **kw) / unit
    except Exception as e:
        for f in (ip.Gauss, ip.HBR):
            try:
                f(A, b)
            except Exception:
                return None
        require(isinstance(e, AssertionError) or "zero" in str(e).lower(), "PPS: %s: %s", type(e).__name__, e)
        return None
    require(x.shape == lo.shape, "shape %r", x.shape)
    s = 1e-6 * (1 + np.maximum(abs(lo), abs(hi)))
    a, c = x.a.astype(float), x.b.astype(float)
    require(np.all(a <= lo + s) and np.all(c >= hi - s), "PPS %r returned %r, the hull is [%r, %r]", kw, x, lo.tolist(), hi.tolist())
    if case["maxiter"] is None:
        require(np.all(a >= lo - s) and np.all(c <= hi + s), "PPS %r returned %r, not optimal: the hull is [%r, %r]", kw, x,
                lo.tolist(), hi.tolist())
    out = ["n=%d" % n, "limited" if case["maxiter"] is not None else "optimal", "component" if case["nu"] is not None else "all"]
    if np.all(Al == Ah):
        out.append("point matrix")
    if np.any((lo < 0) & (hi > 0)):
        out.append("both signs")
    return out


PARTS = [Part("optimal", strat, check, 260, thorough=6000, shards=8, rule="against the exact hull"),
         Part("large", strat_large, check, 12, thorough=300, shards=4, rule="4 and 5 unknowns against linear programming")]
