"""The subdifferential Newton method: formal solutions in complete (Kaucher) interval arithmetic."""
import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
import lin
from core import Part, require

RULE = ("Square systems up to 5 x 5 with diagonally dominant interval matrices, proper and improper elements, elements that "
        "contain zero, and a right-hand side that is either the product with a chosen (proper, improper or mixed) vector or arbitrary; starting "
        "step factors 1 and 0.8, rows and solutions scaled by powers of two from 2^-20 to 2^20, and at most 12 steps allowed (the Newton method needs about 5). Oracle: substitution of the result (independent Kaucher product) has to reproduce the right-hand side, and the result has to be the chosen vector. "
        "Non-trivial: a solution was returned and substituted.")
ASSUMPTIONS = ["the diagonal dominance makes the formal solution unique and the Newton iteration converge"]


def product(al, ah, xl, xh):
    """Kaucher product, elementwise."""
    p, n = (lambda v: np.maximum(v, 0)), (lambda v: np.maximum(-v, 0))
    lo = np.maximum(p(al) * p(xl), n(ah) * n(xh)) - np.maximum(p(ah) * n(xl), n(al) * p(xh))
    hi = np.maximum(p(ah) * p(xh), n(al) * n(xl)) - np.maximum(p(al) * n(xh), n(ah) * p(xl))
    return lo, hi


def times(Al, Ah, xl, xh):
    lo, hi = product(Al, Ah, xl[None], xh[None])
    return lo.sum(1), hi.sum(1)


@st.composite
def strat(draw):
    n = draw(st.integers(1, 5))
    imp = draw(st.booleans())
    el = st.integers(-8, 8).map(lambda k: k / 8)
    C = np.array(draw(st.lists(st.lists(el, min_size=n, max_size=n), min_size=n, max_size=n)))
    R = np.array(draw(st.lists(st.lists(st.integers(0, 6), min_size=n, max_size=n), min_size=n, max_size=n))) / 16
    if draw(st.integers(0, 3)) == 0:
        R[:] = 0
    if imp:
        R = R * np.array(draw(st.lists(st.lists(st.sampled_from([1, -1]), min_size=n, max_size=n), min_size=n, max_size=n)))
    q = draw(st.sampled_from([1, 1, 3]))            # how much the rest counts against the diagonal
    C, R = C / q, R
    for i in range(n):
        s = draw(st.sampled_from([1.0, -1.0]))
        rest = (abs(C[i]) + abs(R[i])).sum() - abs(C[i, i]) - abs(R[i, i])
        C[i, i] = s * (abs(R[i, i]) + draw(st.sampled_from([0.0625, 0.25, 0.5, 1.0, 2.0])) + rest)
    case = {"A": [[[C[i, j] - R[i, j], C[i, j] + R[i, j]] for j in range(n)] for i in range(n)]}
    num = st.integers(-16, 16).map(lambda k: k / 8)
    xs = []
    for _ in range(n):
        a, b = draw(num), draw(num)
        t = draw(st.integers(0, 5))
        if t < 3:
            a, b = min(a, b), max(a, b)
        elif t == 3:
            b = a
        elif t == 4:
            a = 0.0
        xs.append([a, b])
    case["x"] = xs
    case["mode"] = draw(st.sampled_from(["product", "product", "free"]))
    case["tau"] = draw(st.sampled_from([None, None, None, 0.8]))
    case["maxiter"] = draw(st.sampled_from([None, 12, 12])) if case["tau"] is None else None
    if case["tau"] is None:
        case.update(draw(lin.units(n)))
    return case


@st.composite
def strat_large(draw):
    n = draw(st.integers(6, 16))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    C = rng.integers(-8, 9, (n, n)) / 8 * (rng.random((n, n)) < rng.choice([0.3, 1.0]))
    R = rng.integers(0, 7, (n, n)) / 16 * rng.choice([0, 1, 1])
    if rng.integers(0, 2):
        R = R * rng.choice([1, -1], (n, n))
    for i in range(n):
        C[i, i] = rng.choice([1, -1]) * (rng.choice([0.0625, 0.5, 2.0]) + (abs(C[i]) + abs(R[i])).sum() - abs(C[i, i]))
    x = rng.integers(-16, 17, (n, 2)) / 8
    x = np.where((rng.random(n) < 0.6)[:, None], np.sort(x, axis=1), x)
    case = {"A": lin.pairs(C - R, C + R), "x": x.tolist(), "mode": draw(st.sampled_from(["product", "product", "free"])), "tau": None,
            "maxiter": None}
    case.update(draw(lin.units(n)))
    return case


def check(case):
    A = np.array(case["A"])
    Al, Ah = A[..., 0], A[..., 1]
    x = np.array(case["x"])
    n = len(x)
    if case["mode"] == "product":
        bl, bh = times(Al, Ah, x[:, 0], x[:, 1])
    else:
        bl, bh = x[:, 0] * 4, x[:, 1] * 4
    f, s = lin.factors(case, n)
    IA, Ib = ip.Interval(Al * f[:, None], Ah * f[:, None], sortQ=False), ip.Interval(bl * f * s, bh * f * s, sortQ=False)
    kw = {} if case["tau"] is None else {"tau": case["tau"]}
    if case.get("maxiter") is not None:
        kw["maxiter"] = case["maxiter"]
    r = ip.Subdiff(IA, Ib, **kw) / s
    require(r.shape == (n,), "shape %r", r.shape)
    ra, rb = r.a.astype(float), r.b.astype(float)
    lo, hi = times(Al, Ah, ra, rb)
    e = max(abs(lo - bl).max(), abs(hi - bh).max())
    scale = 1 + max(abs(bl).max(), abs(bh).max())
    require(e <= 1e-8 * scale, "Subdiff returned %r; substituted, it misses the right-hand side by %r", r, e)
    if case["mode"] == "product":
        e = max(abs(ra - x[:, 0]).max(), abs(rb - x[:, 1]).max())
        require(e <= 1e-7 * (1 + abs(x).max()), "Subdiff returned %r, the formal solution is %r", r, case["x"])
    out = ["n=%d" % n, case["mode"]]
    if case.get("maxiter"):
        out.append("few steps")
    if np.any(Al > Ah):
        out.append("improper matrix")
    if np.any(ra > rb + 1e-9):
        out.append("improper solution")
    if np.any((np.minimum(Al, Ah) <= 0) & (np.maximum(Al, Ah) >= 0)):
        out.append("zeros in the matrix")
    if np.any((np.minimum(ra, rb) < 0) & (np.maximum(ra, rb) > 0)):
        out.append("zeros in the solution")
    return out


PARTS = [Part("formal", strat, check, 2400, thorough=40000, shards=6, rule="substitution"),
         Part("large", strat_large, check, 150, thorough=4000, shards=2, rule="6 to 16 unknowns: substitution")]
