"""Neumaier's inner estimate of the tolerable solution set around a given point."""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
import lin
from core import Part, require

RULE = ("Systems up to 6 x 4, and some up to 60 x 14, with a tolerable set around a chosen centre, with and without weights of the directions (including "
        "zero weights), centres strictly inside and on the boundary, in units of the equations and unknowns between 2^-40 and 2^40. Oracles: the box is centred and has the requested "
        "proportions, the interval product of the matrix and the box lies in the right-hand side (independent evaluation), the radius equals the "
        "largest one of the defining inequality, and for point matrices no larger box of these proportions fits. Non-trivial: a box was compared.")
ASSUMPTIONS = ["the centre belongs to the tolerable set; relative tolerance 1e-9"]


@st.composite
def strat(draw):
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 6))
    q = draw(st.sampled_from([1, 2, 4]))
    el = st.integers(-20, 20).map(lambda k: k / q)
    Ac = np.array(draw(st.lists(st.lists(el, min_size=n, max_size=n), min_size=m, max_size=m)))
    for i in range(m):
        if not np.any(Ac[i]):
            Ac[i, draw(st.integers(0, n - 1))] = 1.0
    Ar = np.array(draw(st.lists(st.lists(st.integers(0, 6), min_size=n, max_size=n), min_size=m, max_size=m))) / 4
    if draw(st.integers(0, 2)) == 0:
        Ar[:] = 0
    y = np.array(draw(st.lists(st.integers(-12, 12), min_size=n, max_size=n))) / 4
    off = np.array(draw(st.lists(st.integers(-4, 4), min_size=m, max_size=m))) / 4
    slack = np.array(draw(st.lists(st.integers(0, 16), min_size=m, max_size=m))) / 4
    bc, br = Ac @ y + off, Ar @ abs(y) + abs(off) + slack
    w = draw(st.one_of(st.none(), st.lists(st.one_of(st.sampled_from([0.5, 1.0, 2.0, 0.1, 3.0, 0.0]), st.floats(0.001, 20)), min_size=n, max_size=n)))
    if w is not None and not any(w):
        w[0] = 1.0
    unit = st.lists(st.integers(-40, 40), min_size=m + n, max_size=m + n)
    return {"A": lin.pairs(Ac - Ar, Ac + Ar), "b": lin.pairs(bc - br, bc + br), "y": y.tolist(), "w": w,
            "units": draw(st.one_of(st.none(), unit))}


@st.composite
def strat_large(draw):
    n, m = draw(st.integers(4, 14)), draw(st.integers(5, 60))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    Ac = rng.integers(-20, 21, (m, n)) / 4 * (rng.random((m, n)) < rng.choice([0.4, 1.0]))
    Ac[np.arange(m), rng.integers(0, n, m)] += 6
    Ar = rng.integers(0, 7, (m, n)) / 4 * rng.choice([0, 1, 1])
    y = rng.integers(-12, 13, n) / 4
    off, slack = rng.integers(-4, 5, m) / 4, rng.integers(0, 17, m) / 4 + rng.choice([0, 1])
    bc, br = Ac @ y + off, Ar @ abs(y) + abs(off) + slack
    return {"A": lin.pairs(Ac - Ar, Ac + Ar), "b": lin.pairs(bc - br, bc + br), "y": y.tolist(),
            "w": None if rng.integers(0, 2) else rng.choice([0.5, 1.0, 2.0, 0.1], n).tolist(),
            "units": None if rng.integers(0, 2) else rng.integers(-40, 41, m + n).tolist()}


def check(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b = lin.objects(case)
    y = np.array(case["y"])
    w = np.ones(len(y)) if case["w"] is None else np.array(case["w"])
    mag = np.maximum(abs(Al), abs(Ah)) @ w
    if np.any(mag == 0):
        return None                      # a row that no direction enters
    lo = np.where(y >= 0, Al, Ah) @ y
    hi = np.where(y >= 0, Ah, Al) @ y
    bm, br = (bl + bh) / 2, (bh - bl) / 2
    if lin.tol_member(Al, Ah, bl, bh, y) < 0:
        return None
    want = np.min((br - np.maximum(abs(bm - lo), abs(bm - hi))) / mag)
    args = [A, b, y.copy()] + ([] if case["w"] is None else [w.copy()])
    x = ip.Neumaier(*args)
    require(np.array_equal(args[2], y) and (case["w"] is None or np.array_equal(args[3], w)), "the arguments were changed")
    require(x.shape == y.shape, "shape %r", x.shape)
    a, c = x.a.astype(float), x.b.astype(float)
    s = 1e-9 * (1 + abs(y).max() + abs(want) * w.max())
    require(np.all(abs(a - (y - want * w)) <= s) and np.all(abs(c - (y + want * w)) <= s),
            "Neumaier returned %r, expected the centre %r and the radius %r times %r", x, y.tolist(), want, w.tolist())
    if case["units"] is not None:
        # other units of the equations and of the unknowns: the same box in those units
        r, k = (2.0 ** np.array(u, dtype=float) for u in (case["units"][:len(bl)], case["units"][len(bl):]))
        q = r[:, None] / k
        z = ip.Neumaier(ip.Interval(Al * q, Ah * q), ip.Interval(bl * r, bh * r), y * k, w * k)
        require(np.all(abs(z.a.astype(float) / k - a) <= s) and np.all(abs(z.b.astype(float) / k - c) <= s),
                "equations in the units %r and unknowns in the units %r: %r instead of %r", r.tolist(), k.tolist(), z, x)
    plo = np.minimum.reduce([Al * a, Al * c, Ah * a, Ah * c]).sum(1)
    phi = np.maximum.reduce([Al * a, Al * c, Ah * a, Ah * c]).sum(1)
    t = 1e-9 * (1 + abs(bl) + abs(bh) + mag * (1 + abs(y).max()))
    require(np.all(plo >= bl - t) and np.all(phi <= bh + t), "the product with the box %r is [%r, %r], outside of the right-hand side", x,
            plo.tolist(), phi.tolist())
    if np.all(Al == Ah):
        # the largest box of these proportions: a larger one leaves the set
        g = want * (1 + 1e-6) + 1e-6
        big = (abs(Al) @ w) * g
        require(np.any(lo - big < bl - 1e-12) or np.any(hi + big > bh + 1e-12), "a larger box than %r fits", x)
    return ["weights" if case["w"] is not None else "equal", "point matrix" if np.all(Al == Ah) else "interval matrix",
            "boundary" if want == 0 else "inside"] + ["units"] * (case["units"] is not None)


PARTS = [Part("box", strat, check, 1500, thorough=40000, shards=4, rule="the box around the centre"),
         Part("large", strat_large, check, 300, thorough=8000, shards=2, rule="up to 60 equations in 14 unknowns")]
