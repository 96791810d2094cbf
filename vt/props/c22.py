"""Rohn's methods: outer estimates for (over)determined systems and the exact hull of the tolerable set."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog

import intvalpy as ip
import lin
from core import Part, require

RULE = ("Rectangular systems (up to 6 x 3, some up to 17 x 5 and for the tolerable set 32 x 12) built around a solution with moderate interval matrices of full rank for the united "
        "set (exact hull from the vertices of the orthant pieces; larger ones by sampled solutions) and systems with a "
        "tolerable set that has an interior (bounded or not). Oracle for the tolerable set: the exact hull by linear programming (HiGHS) on "
        "its defining inequalities; systems with an empty tolerable set have to be refused. Solutions (and for the tolerable set also the rows) are scaled by powers of two from 2^-20 to 2^20. Non-trivial: compared or "
        "refused.")
ASSUMPTIONS = ["the united estimate is examined where its iteration converges (spectral radius of the preconditioned radius matrix "
               "below 0.7)", "tolerable sets are decided where the maximum of Tol is outside of (-0.01, 0.01)"]


def strat_uni():
    return st.tuples(lin.regular_system(2, 3, 3, rho=0.6), st.sampled_from([None, 1e-12, 1e-9, 1e-4])).flatmap(
        lambda t: lin.units(1, rows=False).map(lambda u: dict(t[0], tol=t[1], **u)))


def radius(Al, Ah):
    Ac, Ar = (Al + Ah) / 2, (Ah - Al) / 2
    R = np.linalg.pinv(Ac)
    B = R @ Ac
    return float(max(abs(np.linalg.eigvals(abs(np.eye(len(B)) - B) + abs(R) @ Ar))))


def check_uni(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b, unit = lin.in_units(case)
    if radius(Al, Ah) > 0.7:
        return None
    h = (lin.hull if Al.shape[1] < 4 else lin.hull_lp)(Al, Ah, bl, bh)
    if h is None:
        return None
    lo, hi = h
    x = (ip.Rohn(A, b) if case["tol"] is None else ip.Rohn(A, b, tol=case["tol"])) / unit
    require(x.shape == lo.shape, "shape %r", x.shape)
    s = 1e-7 * (1 + np.maximum(abs(lo), abs(hi)))
    require(np.all(x.a <= lo + s) and np.all(x.b >= hi - s), "Rohn returned %r, the hull is [%r, %r]", x, lo.tolist(), hi.tolist())
    # it is an estimate with an error of the order of the data's widths, not just any box
    if np.all(Al == Ah) and np.all(bl == bh) and case["tol"] != 1e-4 and unit >= 1:
        require(np.all(x.wid <= 1e-6 * (1 + abs(lo))), "Rohn returned %r for a point system", x)
        return "point"
    return ["%dx%d" % Al.shape]


@st.composite
def strat_tol(draw):
    n, m = draw(st.integers(1, 3)), draw(st.integers(1, 6))
    el = st.integers(-6, 6)
    Ac = np.array(draw(st.lists(st.lists(el, min_size=n, max_size=n), min_size=m, max_size=m)), float)
    for i in range(min(m, n)):
        if draw(st.integers(0, 3)):
            Ac[i, i] = draw(st.sampled_from([5.0, 7.0, -6.0, -9.0]))
    Ar = np.array(draw(st.lists(st.lists(st.integers(0, 4), min_size=n, max_size=n), min_size=m, max_size=m)), float) / 8
    x = np.array(draw(st.lists(st.integers(-8, 8), min_size=n, max_size=n)), float) / 2
    off = np.array(draw(st.lists(st.integers(-2, 2), min_size=m, max_size=m)), float) / 4
    slack = np.array(draw(st.lists(st.integers(1, 12), min_size=m, max_size=m)), float) / 4
    bc, br = Ac @ x + off, Ar @ abs(x) + abs(off) + slack
    if draw(st.integers(0, 5)) == 0:
        br = br * draw(st.sampled_from([0.0, 0.25, 0.5]))
    return {"A": lin.pairs(Ac - Ar, Ac + Ar), "b": lin.pairs(bc - br, bc + br), **draw(lin.units(m))}


@st.composite
def strat_uni_large(draw):
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    n = draw(st.integers(4, 5))
    m = n + draw(st.integers(0, 12))
    Ac, Ar = lin.large_regular(rng, n, m, rng.choice([0.1, 0.3, 0.5]))
    bc, br = Ac @ rng.integers(-3, 4, n), rng.integers(1, 9, m) / 4
    return {"A": lin.pairs(Ac - Ar, Ac + Ar), "b": lin.pairs(bc - br, bc + br), "tol": draw(st.sampled_from([None, 1e-9])),
            **draw(lin.units(1, rows=False))}


@st.composite
def strat_tol_large(draw):
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    n = draw(st.integers(4, 12))
    m = n + draw(st.integers(0, 20))
    Ac, Ar = lin.large_regular(rng, n, m, 1e9)
    x = rng.integers(-8, 9, n) / 2
    off, slack = rng.integers(-2, 3, m) / 4, rng.integers(1, 13, m) / 4
    bc, br = Ac @ x + off, (Ar @ abs(x) + abs(off) + slack) * rng.choice([1.0, 1.0, 1.0, 0.25])
    return {"A": lin.pairs(Ac - Ar, Ac + Ar), "b": lin.pairs(bc - br, bc + br), **draw(lin.units(m))}


def check_tol(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b, unit = lin.in_units(case)
    m, n = Al.shape
    best, _ = lin.functional_lp(Al, Ah, bl, bh, np.ones(m), "tol")
    if best is None or abs(best) < 0.01:
        return None
    G = np.vstack([np.hstack([Ah, -Al]), np.hstack([-Al, Ah])])
    h = np.hstack([bh, -bl])
    lo, hi, bounded = np.zeros(n), np.zeros(n), True
    if best > 0:
        for k in range(n):
            c = np.zeros(2 * n)
            c[k], c[k + n] = 1, -1
            r1 = linprog(c, A_ub=G, b_ub=h, bounds=[(0, None)] * (2 * n))
            r2 = linprog(-c, A_ub=G, b_ub=h, bounds=[(0, None)] * (2 * n))
            if r1.status or r2.status:
                bounded = False
                break
            lo[k], hi[k] = r1.fun, -r2.fun
    try:
        x = ip.Rohn(A, b, consistency="tol") / unit
    except Exception as e:
        require(best < 0 or not bounded, "Rohn refused (%s), but the tolerable set is a bounded set with interior (Tol = %r)", e, best)
        return "refused: " + ("empty" if best < 0 else "unbounded")
    require(best > 0, "Rohn returned %r, but the tolerable set is empty (Tol = %r)", x, best)
    require(bounded, "Rohn returned %r, but the tolerable set is unbounded", x)
    s = 1e-6 * (1 + np.maximum(abs(lo), abs(hi)))
    a, c = x.a.astype(float), x.b.astype(float)
    require(x.shape == (n,), "shape %r", x.shape)
    require(np.all(abs(a - lo) <= s) and np.all(abs(c - hi) <= s), "Rohn returned %r, the hull of the tolerable set is [%r, %r]", x,
            lo.tolist(), hi.tolist())
    return ["%dx%d" % (m, n)] + (["both signs"] if np.any((lo < 0) & (hi > 0)) else [])


PARTS = [
    Part("united", strat_uni, check_uni, 500, thorough=12000, shards=4, rule="estimates of the united set"),
    Part("united large", strat_uni_large, check_uni, 25, thorough=500, shards=2, rule="4 and 5 unknowns"),
    Part("tolerable large", strat_tol_large, check_tol, 60, thorough=2000, shards=2, rule="4 to 12 unknowns"),
    Part("tolerable", strat_tol, check_tol, 400, thorough=9000, shards=4, rule="hulls of the tolerable set"),
]
