"""Values of the recognizing functionals and what their sign means."""
import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
import lin
from core import Part, Skip, require

RULE = ("Interval linear systems of every shape up to 6 x 4, and some up to 70 x 14, with dyadic data (so that the oracle is exact), points inside, "
        "on the boundary of and outside the solution sets and with zero and negative coordinates, weights, units from 2^-40 to 2^40. Oracles: "
        "closed formulas over the endpoints; A x inside b for Tol, the Oettli-Prager condition for Uni and Uss, the "
        "largest residual over sampled members for ChebNorm; the subgradient inequality for the convex ones; supergradient "
        "direction checks by finite differences for the others. Non-trivial: the point is not zero.")
ASSUMPTIONS = ["weights are positive"]
KINDS = ("Tol", "Uni", "Uss", "ChebNorm")


@st.composite
def strat(draw):
    case = draw(lin.any_system(4, 6, draw(st.sampled_from([1, 2, 4]))))
    m, n = len(case["b"]), len(case["A"][0])
    pts = st.one_of(st.integers(-6, 6).map(lambda k: k / 2), st.integers(-40, 40).map(lambda k: k / 16), st.just(0.0))
    case["x"] = draw(st.lists(pts, min_size=n, max_size=n))
    case["y"] = draw(st.lists(pts, min_size=n, max_size=n))
    if draw(st.booleans()):
        # place the right-hand side near the image, so that the signs vary
        Al, Ah, bl, bh = lin.arrays(case)
        x = np.array(case["x"])
        lo, hi = np.where(x >= 0, Al, Ah) @ x, np.where(x >= 0, Ah, Al) @ x
        g = lambda: np.array(draw(st.lists(st.sampled_from([0.0, 0.0, 0.5, 1.0, -0.5, 3.0]), min_size=m, max_size=m)))
        p, q = lo - g(), hi + g()
        case["b"] = lin.pairs(np.minimum(p, q), np.maximum(p, q))
    case["w"] = draw(st.one_of(st.none(), st.lists(st.sampled_from([0.25, 0.5, 1.0, 2.0, 3.0]), min_size=m, max_size=m)))
    case["units"] = draw(st.one_of(st.none(), st.lists(st.integers(-40, 40), min_size=n + 1, max_size=n + 1)))
    case["u"] = draw(st.lists(st.sampled_from([0.0, 1.0, 0.5]), min_size=m * n + m, max_size=m * n + m))
    return case


@st.composite
def strat_large(draw):
    case, rng = draw(lin.large_system(1, 14, -13, 70))
    m, n = len(case["b"]), len(case["A"][0])
    case["x"], case["y"] = (rng.integers(-24, 25, n) / 8).tolist(), (rng.integers(-24, 25, n) / 8).tolist()
    if rng.integers(0, 2):
        Al, Ah, bl, bh = lin.arrays(case)
        x = np.array(case["x"])
        lo, hi = np.where(x >= 0, Al, Ah) @ x, np.where(x >= 0, Ah, Al) @ x
        g, h = (rng.choice([0.0, 0.5, 1.0, 3.0], m) for _ in range(2))
        case["b"] = lin.pairs(lo - g, hi + h) if rng.integers(0, 2) else lin.pairs((lo + hi) / 2 - g, (lo + hi) / 2 + h)
    case["w"] = None if rng.integers(0, 2) else rng.choice([0.25, 0.5, 1.0, 2.0, 3.0], m).tolist()
    case["u"] = rng.choice([0.0, 1.0, 0.5], m * n + m).tolist()
    case["units"] = None if rng.integers(0, 2) else rng.integers(-40, 41, n + 1).tolist()
    return case


def check(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b = lin.objects(case)
    m, n = Al.shape
    x, y = np.array(case["x"]), np.array(case["y"])
    w = None if case["w"] is None else np.array(case["w"])
    w1 = np.ones(m) if w is None else w
    labels = []
    for k in KINDS:
        f = getattr(ip, k)
        want = lin.constituents(k, Al, Ah, bl, bh, x, w1)
        c = np.asarray(f.constituent(A, b, x, weight=w), dtype=float)
        require(c.shape == (m,), "%s.constituent has shape %r", k, c.shape)
        require(np.all(abs(c - want) <= 1e-10), "%s.constituent at %r is %r, not %r", k, x, c, want)
        v = f.value(A, b, x, weight=w)
        best = want.max() if k == "ChebNorm" else want.min()
        require(np.ndim(v) == 0 and abs(float(v) - best) <= 1e-10, "%s.value at %r is %r, not %r", k, x, v, best)
        if case["units"] is not None:
            # other units of the unknowns leave the functional alone, other units of the equations multiply it
            q, r = 2.0 ** case["units"][0], 2.0 ** np.array(case["units"][1:], dtype=float)
            As, bs = ip.Interval(Al * (q / r), Ah * (q / r)), ip.Interval(bl * q, bh * q)
            c1 = np.asarray(f.constituent(As, bs, x * r, weight=w), dtype=float)
            v1 = float(f.value(As, bs, x * r, weight=w))
            require(np.all(abs(c1 / q - want) <= 1e-10) and abs(v1 / q - best) <= 1e-10,
                    "%s of the system times %r, unknowns times %r: %r, %r instead of the multiples of %r, %r", k, q,
                    r.tolist(), c1, v1, want, best)
        # the value and the subgradient that the optimisation uses
        try:
            fx, gx = f.calcfg(x, Al, Ah, (Al + Ah) / 2, (Ah - Al) / 2, (bl + bh) / 2, (bh - bl) / 2, w1)
        except (TypeError, AttributeError):
            continue                      # calcfg is an internal function; C17 sees its effect
        sign = 1 if k == "ChebNorm" else -1
        require(abs(fx - sign * best) <= 1e-10, "%s: the optimised function is %r, the functional %r", k, fx, best)
        gx = np.asarray(gx, dtype=float)
        require(gx.shape == (n,), "%s: subgradient %r", k, gx)
        if k in ("Tol", "ChebNorm"):
            wy = lin.constituents(k, Al, Ah, bl, bh, y, w1)
            fy = wy.max() if k == "ChebNorm" else -wy.min()
            require(fy >= fx + gx @ (y - x) - 1e-9, "%s: %r is no subgradient at %r: the value at %r is %r < %r", k, gx, x,
                    y, fy, fx + gx @ (y - x))
        elif np.all(x != 0):
            # where the active equation is unique and x has no zero coordinate, the function is differentiable
            s = np.sort(want)
            if m == 1 or s[1] - s[0] > 1e-3:
                i = int(np.argmin(want))
                bm = (bl + bh)[i] / 2
                lo = (np.where(x >= 0, Al, Ah) @ x)[i]
                hi = (np.where(x >= 0, Ah, Al) @ x)[i]
                inner = min(abs(bm - lo), abs(bm - hi)) if k == "Uni" else abs(bm - ((Al + Ah) / 2 @ x)[i])
                if inner > 1e-3 and not (k == "Uni" and (bm - lo) * (bm - hi) < 0):
                    h = 1e-6
                    for j in range(n):
                        e = np.zeros(n)
                        e[j] = h
                        d = (-lin.constituents(k, Al, Ah, bl, bh, x + e, w1)[i] +
                             lin.constituents(k, Al, Ah, bl, bh, x - e, w1)[i]) / (2 * h)
                        require(abs(d - gx[j]) <= 1e-5 * (1 + abs(d)), "%s: partial derivative %d at %r is %r, not %r", k, j,
                                x, gx[j], d)
    tm, um = lin.tol_member(Al, Ah, bl, bh, x), lin.united_member(Al, Ah, bl, bh, x)
    t, u, s = (float(getattr(ip, k).value(A, b, x, weight=w)) for k in KINDS[:3])
    if abs(tm) > 1e-12 or tm == 0:
        require((t >= -1e-13) == (tm >= 0), "Tol = %r at %r, but A x %s b", t, x, "lies in" if tm >= 0 else "is not in")
    if abs(um) > 1e-12 or um == 0:
        for name, v in (("Uni", u), ("Uss", s)):
            require((v >= -1e-13) == (um >= 0), "%s = %r at %r, which %s the united solution set", name, v, x,
                    "is in" if um >= 0 else "is not in")
    # ChebNorm bounds every residual
    U = np.array(case["u"])
    M = Al + (Ah - Al) * U[:m * n].reshape(m, n)
    r = bl + (bh - bl) * U[m * n:]
    res = np.max(w1 * abs(M @ x - r))
    cn = float(ip.ChebNorm.value(A, b, x, weight=w))
    require(res <= cn + 1e-9, "a member system has the residual %r at %r, ChebNorm is %r", res, x, cn)
    if not np.any(x):
        return None
    labels += ["tol " + ("in" if tm > 0 else "boundary" if tm == 0 else "out"),
               "united " + ("in" if um > 0 else "boundary" if um == 0 else "out"),
               "weighted" if w is not None else "plain", "zero coordinate" if np.any(x == 0) else "no zero",
               "units" if case["units"] is not None else "given units"]
    return labels


PARTS = [Part("value", strat, check, 5000, shards=7, rule="constituents, values, signs, subgradients"),
         Part("large", strat_large, check, 500, thorough=10000, shards=1, rule="up to 70 equations in 14 unknowns")]
