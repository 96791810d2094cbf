"""PSS: optimal outer estimates for square and overdetermined systems."""
import itertools

import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
import lin
from core import Part, require

RULE = ("Systems of 2-4 equations and 2-3 unknowns whose matrices keep full rank (dyadic data, point parts, columns with "
        "elements that contain zero), overdetermined ones built around a solution; all components or one, iteration limits, "
        "starting boxes around, across and outside of the set; rows and solutions scaled by powers of two from 2^-13 to 2^20. Oracle: the exact hull of the united solution set "
        "(intersected with the starting box) from the vertices of its orthant pieces. Non-trivial: the result was compared.")
ASSUMPTIONS = ["optimality (relative 1e-6) is required of square systems that interval Gaussian elimination can start, of "
               "overdetermined ones that the Rohn estimate converges for, and with a starting box around the set; otherwise, and when stopped by maxiter, an "
               "outer estimate is required", "with 3 or 4 unknowns in the part larger the hull is only required to 2% (2000 bisections)"]


@st.composite
def strat(draw):
    n = draw(st.sampled_from([2, 2, 2, 3]))
    case = draw(lin.regular_system(n, n, 2, rho=draw(st.sampled_from([0.3, 0.6, 0.8])), zero_width=draw(st.integers(0, 3)) == 0))
    case["nu"] = draw(st.one_of(st.none(), st.none(), st.integers(0, n - 1)))
    case["maxiter"] = draw(st.sampled_from([None, None, None, None, 0, 1, 3, 8]))
    case["x0"] = [draw(st.sampled_from(["none", "none", "wide", "huge", "cut", "far"])),
                  [draw(st.integers(0, 8)) / 8 for _ in range(n)]]
    case.update(draw(lin.units(len(case["b"]), -13)))
    return case


@st.composite
def strat_large(draw):
    """3 or 4 unknowns, up to 10 equations around a solution."""
    n = draw(st.sampled_from([3, 4]))
    m = n + draw(st.sampled_from([0, 0, 0, 1, 3, 6]))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    Ac, Ar = lin.large_regular(rng, n, m, rng.choice([0.2, 0.4]))
    x = rng.integers(-8, 9, n) / 2
    bc = Ac @ x if m > n else rng.integers(-20, 21, m) / 2
    br = rng.integers(2, 9, m) / 4
    return {"A": lin.pairs(Ac - Ar, Ac + Ar), "b": lin.pairs(bc - br, bc + br), "nu": draw(st.sampled_from([None, None, *range(n)])),
            "maxiter": draw(st.sampled_from([None, None, 8])), "x0": [draw(st.sampled_from(["none", "wide"])), (rng.integers(0, 9, n) / 8).tolist()],
            "large": True}


def check(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b, unit = lin.in_units(case)
    m, n = Al.shape
    h = (lin.hull_lp if "large" in case else lin.hull)(Al, Ah, bl, bh)
    if h is None:
        return None
    lo, hi = h
    kw = {}
    kind, t = case["x0"]
    t = np.array(t)
    if kind != "none":
        if kind == "wide":
            xl, xh = lo - 1 - t, hi + 1 + t[::-1]
        elif kind == "huge":
            xl, xh = np.full(n, -1000.0), np.full(n, 1024.0)
        elif kind == "cut":
            xl, xh = lo - 1 + t * 0.875 * (hi - lo + 1), hi + 1
        else:
            xl, xh = hi + 1 + t, hi + 3
        kw["x0"] = ip.Interval(xl * unit, xh * unit)
        if kind in ("cut", "far"):
            Ac, Ar, V = (Al + Ah) / 2, (Ah - Al) / 2, []
            for s in itertools.product([1, -1], repeat=n):
                S = np.array(s)
                G = np.vstack([Ac - Ar * S, -(Ac + Ar * S), -np.diag(S), np.eye(n), -np.eye(n)])
                V.append(lin.vertices(G, np.concatenate([bh, -bl, np.zeros(n), xh, -xl]), 1e-12))
            V = np.vstack(V)
            # contact alone decides nothing
            e = 1e-6 * (1 + abs(xl) + abs(xh))
            if len(V) and not np.any(np.all((V > xl + e) & (V < xh - e), axis=1)) and \
                    not np.all((V.mean(0) > xl + e) & (V.mean(0) < xh - e)):
                return None
            if len(V) == 0:
                kw["maxiter"] = 8 if np.any(bl == bh) else 60
                try:
                    ip.PSS(A, b, **kw)
                except AssertionError:
                    return "refused an empty intersection"
                except Exception as e:
                    require(False, "PSS: %s: %s", type(e).__name__, e)
                return None
            lo, hi = V.min(0), V.max(0)
    if case["nu"] is not None:
        kw["nu"] = case["nu"]
        lo, hi = lo[case["nu"]:case["nu"] + 1], hi[case["nu"]:case["nu"] + 1]
    optimal = kind in ("wide", "huge")
    if kind == "none":
        try:
            x = ip.Gauss(A, b) if m == n else ip.Rohn(A, b)
            x = x / unit
            optimal = bool(np.all(np.isfinite(x.a.astype(float))) and x.mag.max() < 1e4)
        except Exception:
            optimal = False
    if case["maxiter"] is not None:
        kw["maxiter"] = case["maxiter"]
        optimal = False
    if np.any(bl == bh):
        # the set may be flat: bisection resolves it slowly, and GLPK's simplex method may take long on the bars of width
        # 1e-15 that remain, so these systems are stopped early
        optimal = False
        kw["maxiter"] = min(8, kw.get("maxiter", 8))
    if case["maxiter"] is None and not optimal:
        kw["maxiter"] = min(60, kw.get("maxiter", 60))
    x = ip.PSS(A, b, **kw) / unit
    require(x.shape == lo.shape, "shape %r", x.shape)
    s = 1e-6 * (1 + np.maximum(abs(lo), abs(hi)))
    a, c = x.a.astype(float), x.b.astype(float)
    require(np.all(a <= lo + s) and np.all(c >= hi - s), "PSS (x0 %s) %r returned %r, the hull is [%r, %r]", kind, kw, x, lo.tolist(), hi.tolist())
    if optimal and "large" in case:
        # bars around zero are resolved by bisection, slowly when there are several unknowns
        s = 0.02 * (1 + np.maximum(abs(lo), abs(hi)))
        require(np.all(a >= lo - s) and np.all(c <= hi + s), "PSS (x0 %s) %r returned %r, the hull is [%r, %r]", kind, kw, x, lo.tolist(), hi.tolist())
    elif optimal:
        if not (np.all(a >= lo - s) and np.all(c <= hi + s)):
            # 2000 iterations need not be enough
            x = ip.PSS(A, b, **dict(kw, maxiter=20000)) / unit
            a, c = x.a.astype(float), x.b.astype(float)
        require(np.all(a >= lo - s) and np.all(c <= hi + s), "PSS (x0 %s) %r returned %r, not optimal: the hull is [%r, %r]", kind, kw, x,
                lo.tolist(), hi.tolist())
    out = ["%dx%d" % (m, n), "optimal" if optimal else "outer", "component" if case["nu"] is not None else "all", "x0 " + kind]
    if np.any((Al <= 0) & (Ah >= 0)):
        out.append("zeros")
    if "unit" in case:
        out.append("scaled")
    if np.any((lo < 0) & (hi > 0)):
        out.append("both signs")
    return out


PARTS = [Part("optimal", strat, check, 260, thorough=6000, shards=8, rule="against the exact hull"),
         Part("larger", strat_large, check, 40, thorough=1000, shards=4, rule="3 or 4 unknowns, up to 10 equations, against the hull from linear programming")]
