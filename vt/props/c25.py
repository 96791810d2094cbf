"""lineqs: vertices of the solution set of a system of linear inequalities with two unknowns."""
import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
import lin
from core import Part, require

RULE = ("Systems A x >= b of 1-9 inequalities, and polygons cut by up to 60, with two unknowns (dyadic and decimal data, repeated and parallel rows, redundant "
        "rows, zero rows that hold or contradict, rows multiplied by 0.01 to 1000, solutions multiplied by 0.01 to 1e6), with and without a window. Oracle: the vertices by enumeration of all pairs of "
        "constraints; emptiness, boundedness and the largest inscribed ball by linear programming. Non-trivial: the set is "
        "empty or has an interior and was compared.")
ASSUMPTIONS = ["sets without interior (a segment, a point) only have to be answered with points of the set", "data has at most three decimals; "
               "points are matched to 1e-6 and compared to 1e-11 times their size and condition number, divided by factors below one (numbers are rounded to 12 decimals)"]


@st.composite
def strat(draw):
    n = draw(st.integers(1, 9))
    q = draw(st.sampled_from([1, 1, 2, 10, 1000, 3, 7]))
    el = st.integers(-4 * q, 4 * q)
    A = [[a / q for a in draw(st.lists(el, min_size=2, max_size=2))] for _ in range(n)]
    b = [c / q for c in draw(st.lists(st.integers(-8 * q, 4 * q), min_size=n, max_size=n))]
    t = draw(st.integers(0, 9))
    if t == 0:
        A[draw(st.integers(0, n - 1))] = [0.0, 0.0]
    elif t == 1 and n > 1:
        A[0], b[0] = list(A[1]), b[1]
    elif t == 2 and n > 1:
        A[0], b[0] = [2 * v for v in A[1]], 2 * b[1] - draw(st.integers(0, 2))
    elif t == 3 and n > 1:
        A[0], b[0] = [-v for v in A[1]], -b[1] - draw(st.integers(-1, 3))
    elif t <= 6:
        # bounded by construction
        A += [[1.0, 0.0], [-1.0, -1.0], [0.0, 1.0]]
        b += [float(draw(st.integers(-5, 0))), float(draw(st.integers(-8, -1))), float(draw(st.integers(-5, 0)))]
    w = None
    if draw(st.booleans()):
        w = [[float(draw(st.integers(-9, 0))), float(draw(st.integers(-9, 0)))],
             [float(draw(st.integers(1, 9))), float(draw(st.integers(1, 9)))]]
    kind = draw(st.sampled_from(lin.KINDS))
    if kind == "uint8":
        A, b = [[abs(a) for a in r] for r in A], [abs(c) for c in b]
    f = draw(st.sampled_from([1.0, 1.0, 10.0, 15.0])) if q == 1 else 1.0
    return {"A": [[a * f for a in r] for r in A], "b": [c * f for c in b], "bounds": w, "kind": kind, **draw(lin.scales(len(b)))}


@st.composite
def strat_large(draw):
    """Polygons of many sides, none of which is far from the set."""
    n = draw(st.integers(8, 60))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    A = rng.integers(-12, 13, (n, 2)).astype(float)
    A[~A.any(1)] = [1.0, -3.0]
    if rng.integers(0, 4) == 0:
        A[:, 0] = abs(A[:, 0])                # most of them are unbounded
    c = rng.integers(-6, 7, 2)
    b = np.floor(-4 * np.linalg.norm(A, axis=1) * (2 + rng.integers(0, 9, n) / 8 * rng.choice([0, 1]))) / 4 + A @ c
    w = [(c - rng.integers(1, 9, 2)).astype(float).tolist(), (c + rng.integers(1, 9, 2)).astype(float).tolist()] if draw(st.booleans()) else None
    return {"A": A.tolist(), "b": b.tolist(), "bounds": w, "kind": draw(st.sampled_from(["array", "array", "list"])), **draw(lin.scales(n))}


def check(case):
    A, b = np.array(case["A"], dtype=float), np.array(case["b"], dtype=float)
    if not np.any(A):
        return None
    case = dict(case, bounded=lin.huge(case) and lin.bounded(-A, -b))
    f, s, w = lin.scaled(case)
    argA, argb = lin.as_kind(A * f[:, None], b * f * s, case["kind"])
    R = ip.lineqs(argA, argb, show=False, bounds=w)
    require(np.array_equal(np.asarray(argA, float), A * f[:, None]) and np.array_equal(np.asarray(argb, float), b * f * s), "the system was changed")
    R = np.asarray(R, dtype=float) / s
    R = R.reshape(-1, 2) if R.size else np.zeros((0, 2))
    G, h = -A, -b
    d = lin.depth(G, h)
    if d < -1e-6:
        require(len(R) == 0, "the system has no solutions, returned %r", R.tolist())
        return "empty"
    require(np.all(np.isfinite(R)), "returned %r", R.tolist())
    require(np.all(R @ A.T >= b - 1e-6 * (1 + abs(R).max(initial=0))), "the point(s) %r violate the system", R.tolist())
    if d < 1e-6:
        return None
    out = []
    if lin.bounded(G, h):
        V = lin.distinct(lin.vertices(G, h))
        out.append("bounded")
    elif case["bounds"] is not None:
        G, h = lin.window(G, h, *case["bounds"])
        if lin.depth(G, h) < 1e-6:
            return None
        V = lin.distinct(lin.vertices(G, h))
        out.append("window")
    else:
        V = lin.distinct(lin.vertices(G, h))
        U = lin.distinct(R)
        require(len(U) >= 3, "an unbounded set with interior is shown as %r", R.tolist())
        require(lin.subset(V, U), "the vertices %r are not all in %r", V.tolist(), R.tolist())
        bad = lin.inaccurate(G, h, V, R, lin.base(case, 1e-11))
        require(bad is None, "%s", bad)
        require(lin.ring(R), "the vertices %r are not in order", R.tolist())
        return ["unbounded", "%d vertices" % len(V)]
    U = lin.distinct(R)
    require(len({tuple(p) for p in (R + 0.0).tolist()}) == len(R), "repeated vertices in %r", R.tolist())
    require(len(R) == len(U), "nearly equal vertices in %r", R.tolist())
    require(len(U) == len(V) and lin.subset(V, U) and lin.subset(U, V), "returned %r, the vertices are %r", R.tolist(), V.tolist())
    bad = lin.inaccurate(G, h, V, R, lin.base(case, 1e-11))
    require(bad is None, "%s", bad)
    require(lin.ring(R), "the vertices %r are not in order", R.tolist())
    return out + ["%d vertices" % len(V)]


PARTS = [Part("vertices", strat, check, 1200, thorough=40000, shards=6, rule="against vertex enumeration"),
         Part("large", strat_large, check, 150, thorough=5000, shards=2, rule="8 to 60 inequalities")]
