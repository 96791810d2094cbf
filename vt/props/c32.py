"""Measure of variability of an interval system (ive)."""
import itertools

import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
import lin
from core import Part, Skip, require

RULE = ("Systems of up to 5 equations and 3 unknowns with at most 8 interval entries in the matrix, numbers of sampled "
        "corner matrices from 1 to 400, several seeds of numpy's generator. Oracle: the defining product, with the maximum "
        "of Tol from Tol.maximize and linear programming and the condition numbers of all corner matrices. Non-trivial: "
        "the matrix has interval entries.")
ASSUMPTIONS = ["the right-hand side is not zero, the best condition number is below 1e6 and the maximum of Tol is found by the subgradient method"]


@st.composite
def strat(draw):
    n = draw(st.integers(1, 3))
    m = draw(st.integers(n, 5))
    q = draw(st.sampled_from([1, 2, 4]))
    A = [[[a / q, a / q] for a in draw(st.lists(st.integers(-12, 12), min_size=n, max_size=n))] for _ in range(m)]
    k = draw(st.integers(0, 8))
    for _ in range(k):
        i, j = draw(st.integers(0, m - 1)), draw(st.integers(0, n - 1))
        A[i][j][1] = A[i][j][0] + draw(st.integers(1, 8)) / q
    b = [[c / q, (c + draw(st.integers(0, 30))) / q] for c in draw(st.lists(st.integers(-30, 30), min_size=m, max_size=m))]
    return {"A": A, "b": b, "N": draw(st.sampled_from([1, 2, 5, None, 400])), "seed": draw(st.integers(0, 1000))}


def check(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b = lin.objects(case)
    m, n = Al.shape
    nb = np.sqrt((np.maximum(abs(bl), abs(bh)) ** 2).sum())
    if nb == 0:
        raise Skip()
    wide = list(zip(*np.where(Al != Ah)))
    conds = []
    for v in itertools.product([0, 1], repeat=len(wide)):
        M = Al.copy()
        for s, ij in zip(v, wide):
            M[ij] = Ah[ij] if s else Al[ij]
        conds.append(np.linalg.cond(M))
    conds = np.array(conds)
    if not conds.min() < 1e6:
        raise Skip()
    xr, fr, _, _, cc = ip.Tol.maximize(A, b)
    o, _ = lin.functional_lp(Al, Ah, bl, bh, np.ones(m), "tol")
    if cc == 5 or o is None or abs(fr - o) > 1e-4 * (1 + abs(o)):
        raise Skip()
    unit = np.sqrt(n) * fr * np.linalg.norm(xr) / nb
    out = []
    Ns = [case["N"]] if case["N"] in (None, 400) else [case["N"], case["N"] + 3]
    for N in Ns:
        np.random.seed(case["seed"])
        out.append(float(ip.ive(A, b) if N is None else ip.ive(A, b, N=N)))
    require(np.array_equal(A.a, Al) and np.array_equal(A.b, Ah) and np.array_equal(b.a, bl) and np.array_equal(b.b, bh),
            "the system was changed")
    if abs(unit) < 1e-7:
        for v in out:
            require(abs(v) <= abs(unit) * conds.max() * 1.001 + 1e-6 or not np.isfinite(conds.max()), "%r although the product without the condition number is %r", v, unit)
        return "zero"
    kappas = [v / unit for v in out]
    for k in kappas:
        require(k >= conds.min() * (1 - 1e-6), "the condition number in %r is %r, the smallest one of the corner matrices is %r", out, k, conds.min())
        near = conds > 1e8 if not k < 1e8 else abs(np.minimum(conds, 1e9) - k) <= 1e-6 * (1 + k)
        require(np.any(near), "%r corresponds to the condition number %r, which no corner matrix has: %r", out, k, np.unique(conds)[:9])
    if len(kappas) == 2:
        require(kappas[1] <= kappas[0] * (1 + 1e-6), "more corner matrices gave %r after %r", kappas[1], kappas[0])
    if case["N"] == 400 and len(wide) <= 4:
        require(kappas[0] <= conds.min() * (1 + 1e-6), "400 random corner matrices of %d: condition %r, the best one is %r", len(conds), kappas[0], conds.min())
        return ["exhaustive"] if wide else None
    return ["sampled"] if wide else None


PARTS = [Part("product", strat, check, 500, thorough=8000, shards=4, rule="the matrix has interval entries")]
