"""IntLinIncR2: the united and tolerable solution sets with two unknowns, orthant by orthant."""
import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
import lin
from core import Part, require

RULE = ("Interval systems of 1-5, and some of up to 24, equations and two unknowns (point and interval rows, elements that contain zero, wide and narrow right-hand sides, rows multiplied by 0.01 to 1000, solutions by 0.01 to 1e6), both "
        "consistencies, with and without a window. Oracle: vertices of every orthant's piece by enumeration; "
        "emptiness, boundedness and inner radius by linear programming; unbounded pieces are compared in the common square window that "
        "the result itself shows. Point systems have to give what lineqs gives. Non-trivial: at least one piece with an interior was compared.")
ASSUMPTIONS = ["pieces without interior only have to be answered with points of the piece", "points are matched to 1e-6 and compared to 1e-11 times their size and condition number, divided by factors below one (numbers are rounded to 12 decimals)"]
ORTHANTS = [(1, 1), (-1, 1), (-1, -1), (1, -1)]


@st.composite
def strat(draw, dim=2, nmin=1, nmax=5):
    n = draw(st.integers(nmin, nmax))
    q = draw(st.sampled_from([1, 2, 2, 10, 7]))
    Ac = np.array(draw(st.lists(st.lists(st.integers(-4 * q, 4 * q), min_size=dim, max_size=dim), min_size=n, max_size=n))) / q
    Ar = np.array(draw(st.lists(st.lists(st.integers(0, 2), min_size=dim, max_size=dim), min_size=n, max_size=n))) / 2
    z = draw(st.integers(0, 4))
    if z == 0:
        Ar[:] = 0
    elif z == 1:
        Ar = Ar / 4
    t = draw(st.integers(0, 2))
    x = np.array(draw(st.lists(st.integers(-4, 4), min_size=dim, max_size=dim))) / 2
    bc = np.array(draw(st.lists(st.integers(-8, 8), min_size=n, max_size=n)), float)
    br = np.array(draw(st.lists(st.integers(0, 8), min_size=n, max_size=n))) / 2
    if t:
        bc = Ac @ x
    if t == 2:
        br = br + Ar @ abs(x)              # the tolerable set contains x
    w = None
    if draw(st.booleans()):
        w = [[-float(draw(st.integers(1, 6))) for _ in range(dim)], [float(draw(st.integers(1, 6))) for _ in range(dim)]]
    if not np.any(Ac) and not np.any(Ar):
        Ac[0, 0] = 1.0
    return {"A": lin.pairs(Ac - Ar, Ac + Ar), "b": lin.pairs(bc - br, bc + br), "consistency": draw(st.sampled_from(["uni", "tol"])),
            "bounds": w, **draw(lin.scales(n))}


@st.composite
def strat_large(draw):
    n = draw(st.integers(6, 24))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    Ac = rng.integers(-8, 9, (n, 2)).astype(float)
    Ac[~Ac.any(1)] = [1.0, 2.0]
    Ar = rng.integers(0, 3, (n, 2)) / 2 * rng.choice([0, 0.5, 1])
    x = rng.integers(-4, 5, 2) / 2
    bc, br = Ac @ x + rng.integers(-1, 2, n) / 4, rng.integers(2, 12, n) / 4
    cons = draw(st.sampled_from(["uni", "tol"]))
    if cons == "tol":
        br = br + Ar @ abs(x)
    w = [(x - rng.integers(1, 5, 2)).tolist(), (x + rng.integers(1, 5, 2)).tolist()] if draw(st.booleans()) else None
    return {"A": lin.pairs(Ac - Ar, Ac + Ar), "b": lin.pairs(bc - br, bc + br), "consistency": cons, "bounds": w, **draw(lin.scales(n))}


def check(case):
    case = dict(case, bounded=lin.huge(case) and all(lin.bounded(*p) for p in (lin.piece(case, s, case["consistency"]) for s in ORTHANTS) if lin.depth(*p) > -1e-6))
    A, b, scale, w = lin.scaled_objects(case)
    try:
        R = ip.IntLinIncR2(A, b, show=False, consistency=case["consistency"], bounds=w)
    except Exception:
        if any(abs(lin.depth(*lin.piece(case, s, case["consistency"]))) < 1e-6 for s in ORTHANTS):
            return None
        raise
    require(len(R) == 4, "%d pieces", len(R))
    raw = R
    R = [np.asarray(r, dtype=float).reshape(-1, 2) / scale if len(r) else np.zeros((0, 2)) for r in R]
    info, out, M = [], [], 0.0
    for s, r in zip(ORTHANTS, R):
        G, h = lin.piece(case, s, case["consistency"])
        d = lin.depth(G, h)
        bnd = d < 1e-6 or lin.bounded(G, h)
        info.append((G, h, d, bnd))
        if not bnd:
            M = max(M, abs(r).max(initial=0.0))
    for s, r, (G, h, d, bnd) in zip(ORTHANTS, R, info):
        if d < -1e-6:
            require(len(r) == 0, "the piece in the orthant %r is empty, returned %r", s, r.tolist())
            continue
        if d < 1e-6:
            r = r[np.all(np.isfinite(r), axis=1)]       # flat pieces may be unbounded lines
        require(np.all(np.isfinite(r)), "orthant %r: %r", s, r.tolist())
        require(np.all(r @ G.T <= h + 1e-6 * (1 + abs(r).max(initial=0))), "orthant %r: point(s) of %r are outside of the piece", s, r.tolist())
        if d < 1e-6:
            continue
        if not bnd:
            lo, hi = ([-M] * 2, [M] * 2) if case["bounds"] is None else case["bounds"]
            true = lin.distinct(lin.vertices(G, h))
            if case["bounds"] is None:
                require(lin.subset(true, r), "orthant %r: the vertices %r are not all in %r", s, true.tolist(), r.tolist())
            G, h = lin.window(G, h, lo, hi)
            if lin.depth(G, h) < 1e-6:
                require(case["bounds"] is not None, "orthant %r: an unbounded piece with interior is not shown", s)
                continue
        V, U = lin.distinct(lin.vertices(G, h)), lin.distinct(r)
        require(len({tuple(p) for p in (r + 0.0).tolist()}) == len(r), "orthant %r: repeated vertices in %r", s, r.tolist())
        require(len(r) == len(U), "orthant %r: nearly equal vertices in %r", s, r.tolist())
        require(len(U) == len(V) and lin.subset(V, U) and lin.subset(U, V), "orthant %r: returned %r, the vertices are %r%s", s,
                r.tolist(), V.tolist(), "" if bnd else " (window [%r, %r])" % (lo, hi))
        bad = lin.inaccurate(G, h, V, r, lin.base(case, 1e-11))
        require(bad is None, "orthant %r: %s", s, bad)
        require(lin.ring(r), "orthant %r: the vertices %r are not in order", s, r.tolist())
        out += ["bounded" if bnd else "unbounded" if case["bounds"] is None else "window"]
    if case["bounds"] is None and out:
        # nothing stays behind from one call to the next
        R2 = ip.IntLinIncR2(A, b, show=False, consistency=case["consistency"])
        require(all(np.array_equal(np.asarray(u, float).reshape(-1), np.asarray(v, float).reshape(-1)) for u, v in zip(R2, raw)), "another call gives %r, not %r", R2, raw)
    return sorted(set(out)) + [case["consistency"]] if out else None


@st.composite
def strat_point(draw):
    from props import c25
    return draw(c25.strat())


def check_point(case):
    if not np.any(np.array(case["A"])):
        return None
    A, b = np.array(case["A"]), np.array(case["b"])
    r, s = ip.IntLinIncR2(A, b, show=False, bounds=case["bounds"]), ip.lineqs(A, b, show=False, bounds=case["bounds"])
    require(np.array_equal(np.asarray(r), np.asarray(s)), "%r, lineqs gives %r", r, s)
    return "point" if len(s) else None


PARTS = [Part("large", strat_large, check, 120, thorough=4000, shards=2, rule="6 to 24 equations"),
         Part("pieces", strat, check, 700, thorough=20000, shards=6, rule="against vertex enumeration"),
         Part("point", strat_point, check_point, 150, thorough=2000, shards=1, rule="point systems are passed on to lineqs")]
