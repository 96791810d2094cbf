"""lineqs3D and IntLinIncR3: faces of solution sets with three unknowns."""
import itertools

import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
import lin
from core import Part, require
from props import c26

RULE = ("Systems of 1-9 inequalities with three unknowns and interval systems of 2-4 equations with three unknowns (dyadic data, both "
        "consistencies, windows; inequalities as lists and as numpy arrays of several types; rows multiplied by 0.01 to 1000, solutions by 0.01 to 1e6). Oracle: the vertices and facets by enumeration of all triples of constraints; emptiness, "
        "boundedness, inner radius by linear programming. Every returned face has to be a facet with its vertices in order, and every facet has to be returned. "
        "Non-trivial: a set (or piece) with an interior was compared.")
ASSUMPTIONS = ["sets without interior only have to be answered with points of the set", "points are matched to 1e-6 and compared to 1e-9 times their size and condition number, divided by factors below one (numbers are rounded to 12 decimals)"]
ORTHANTS = [(1, 1, 1), (-1, 1, 1), (-1, -1, 1), (1, -1, 1), (1, 1, -1), (-1, 1, -1), (-1, -1, -1), (1, -1, -1)]


def facets(G, h, V):
    """Vertex sets (as frozensets of row numbers of V) of the two-dimensional faces."""
    out = {}
    for g, c in zip(G, h):
        if not np.any(g):
            continue
        on = np.where(abs(V @ g - c) < 1e-7 * (1 + abs(c) + np.linalg.norm(g)))[0]
        if len(on) >= 3 and np.linalg.matrix_rank(V[on] - V[on[0]], tol=1e-7) == 2:
            out[frozenset(on.tolist())] = g
    return out


def index_of(V, p):
    d = np.abs(V - p).max(1)
    k = int(np.argmin(d))
    return k if d[k] < 1e-6 else None


def faces_match(G, h, R, tol, where=""):
    """R: list of polygons; the bounded polyhedron G x <= h has an interior."""
    V = lin.distinct(lin.vertices(G, h))
    want = facets(G, h, V)
    got = set()
    for P in R:
        idx = [index_of(V, p) for p in P]
        require(None not in idx, "%sthe face %r has points that are no vertices (%r)", where, P.tolist(), V.tolist())
        ring = [k for j, k in enumerate(idx) if k != idx[j - 1]] if len(idx) > 1 else idx
        f = frozenset(ring)
        if len(f) < 3:
            # an edge or a vertex that a redundant constraint touches
            continue
        require(f in want, "%sthe face %r is no facet", where, P.tolist())
        require(len(ring) == len(f), "%sthe face %r passes a vertex twice", where, P.tolist())
        g = want[f]
        u = np.linalg.svd(g[None])[2][1:]
        require(lin.ring(V[ring] @ u.T), "%sthe vertices of the face %r are not in order", where, P.tolist())
        got.add(f)
    P = np.vstack([P for P in R if len(P)])
    bad = lin.inaccurate(G, h, V, P, tol)
    require(bad is None, "%s%s", where, bad)
    require(got == set(want), "%sthe facet(s) with vertices %r are missing", where,
            [V[sorted(f)].tolist() for f in set(want) - got][:2])
    return len(want)


def clean(R, scale):
    return [np.asarray(P, dtype=float).reshape(-1, 3) / scale for P in R if len(P)]


@st.composite
def strat(draw):
    n = draw(st.integers(1, 9))
    q = draw(st.sampled_from([1, 1, 2, 10, 3, 7]))
    A = [[a / q for a in draw(st.lists(st.integers(-3 * q, 3 * q), min_size=3, max_size=3))] for _ in range(n)]
    b = [c / q for c in draw(st.lists(st.integers(-8 * q, 2 * q), min_size=n, max_size=n))]
    t = draw(st.integers(0, 5))
    if t == 0:
        A[draw(st.integers(0, n - 1))] = [0.0, 0.0, 0.0]
    elif t == 1 and n > 1:
        A[0], b[0] = list(A[1]), b[1]
    elif t <= 4:
        A += [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, -1.0, -1.0]]
        b += [float(draw(st.integers(-4, 0))) for _ in range(3)] + [float(draw(st.integers(-8, -1)))]
    w = None
    if draw(st.booleans()):
        w = [[-float(draw(st.integers(1, 6))) for _ in range(3)], [float(draw(st.integers(1, 6))) for _ in range(3)]]
    kind = draw(st.sampled_from(lin.KINDS))
    f = draw(st.sampled_from([1.0, 1.0, 10.0, 15.0])) if q == 1 else 1.0
    return {"A": [[a * f for a in r] for r in A], "b": [c * f for c in b], "bounds": w, "kind": kind, **draw(lin.scales(len(b)))}


@st.composite
def strat_large(draw):
    n = draw(st.integers(8, 26))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    A = rng.integers(-4, 5, (n, 3)).astype(float)
    A[~A.any(1)] = [1.0, -3.0, 2.0]
    c = rng.integers(-6, 7, 3)
    b = np.floor(-2 * np.linalg.norm(A, axis=1) * (2 + rng.integers(0, 9, n) / 8 * rng.choice([0, 1]))) / 2 + A @ c
    w = [(c - rng.integers(1, 9, 3)).astype(float).tolist(), (c + rng.integers(1, 9, 3)).astype(float).tolist()] if draw(st.booleans()) else None
    return {"A": A.tolist(), "b": b.tolist(), "bounds": w, "kind": "array", **draw(lin.scales(n))}


def check(case):
    A, b = np.array(case["A"], dtype=float), np.array(case["b"], dtype=float)
    if not np.any(A):
        return None
    G, h = -A, -b
    d = lin.depth(G, h)
    case = dict(case, bounded=lin.huge(case) and lin.bounded(-A, -b))
    f, scale, w = lin.scaled(case)
    try:
        R = ip.lineqs3D(*lin.as_kind(A * f[:, None], b * f * scale, case.get("kind", "array")), show=False, bounds=w)
    except Exception:
        if abs(d) < 1e-6:
            return None
        raise
    R = clean(R, scale)
    pts = np.vstack(R) if R else np.zeros((0, 3))
    if d < -1e-6:
        require(len(pts) == 0, "the system has no solutions, returned %r", pts.tolist())
        return "empty"
    if d < 1e-6:
        pts = pts[np.all(np.isfinite(pts), axis=1)]
    require(np.all(np.isfinite(pts)), "returned %r", pts.tolist())
    require(np.all(pts @ A.T >= b - 1e-6 * (1 + abs(pts).max(initial=0))), "point(s) of %r violate the system", pts.tolist())
    if d < 1e-6:
        return None
    if lin.bounded(G, h):
        k = faces_match(G, h, R, lin.base(case, 1e-9))
        return ["bounded", "%d facets" % k]
    if case["bounds"] is not None:
        G, h = lin.window(G, h, *case["bounds"])
        if lin.depth(G, h) < 1e-6:
            return None
        k = faces_match(G, h, R, lin.base(case, 1e-9))
        return ["window", "%d facets" % k]
    V = lin.distinct(lin.vertices(G, h))
    require(len(pts) >= 4, "an unbounded set with interior is shown as %r", pts.tolist())
    require(lin.subset(V, pts), "the vertices %r are not all in %r", V.tolist(), pts.tolist())
    # the faces of the set within the box that the result shows
    G, h = lin.window(G, h, pts.min(0), pts.max(0))
    if lin.depth(G, h) > 1e-6:
        faces_match(G, h, R, lin.base(case, 1e-9), "unbounded: ")
    return "unbounded"


def strat_int():
    return c26.strat(3, 2, 4)


def check_int(case):
    case = dict(case, bounded=lin.huge(case) and all(lin.bounded(*p) for p in (lin.piece(case, s, case["consistency"]) for s in ORTHANTS) if lin.depth(*p) > -1e-6))
    A, b, scale, w = lin.scaled_objects(case)
    try:
        R = ip.IntLinIncR3(A, b, show=False, consistency=case["consistency"], bounds=w)
    except Exception:
        if any(abs(lin.depth(*lin.piece(case, s, case["consistency"]))) < 1e-6 for s in ORTHANTS):
            return None
        raise
    require(len(R) == 8, "%d pieces", len(R))
    R = [clean(r, scale) for r in R]
    pts = [np.vstack(r) if r else np.zeros((0, 3)) for r in R]
    info, out, M = [], [], 0.0
    for s, r in zip(ORTHANTS, pts):
        G, h = lin.piece(case, s, case["consistency"])
        d = lin.depth(G, h)
        bnd = d < 1e-6 or lin.bounded(G, h)
        info.append((G, h, d, bnd))
        if not bnd:
            M = max(M, abs(r).max(initial=0.0))
    for s, P, r, (G, h, d, bnd) in zip(ORTHANTS, R, pts, info):
        where = "orthant %r: " % (s,)
        if d < -1e-6:
            require(len(r) == 0, "%sthe piece is empty, returned %r", where, r.tolist())
            continue
        if d < 1e-6:
            r = r[np.all(np.isfinite(r), axis=1)]
        require(np.all(np.isfinite(r)), "%s%r", where, r.tolist())
        require(np.all(r @ G.T <= h + 1e-6 * (1 + abs(r).max(initial=0))), "%spoint(s) of %r are outside of the piece", where, r.tolist())
        if d < 1e-6:
            continue
        if not bnd:
            lo, hi = ([-M] * 3, [M] * 3) if case["bounds"] is None else case["bounds"]
            if case["bounds"] is None:
                true = lin.distinct(lin.vertices(G, h))
                require(lin.subset(true, r), "%sthe vertices %r are not all in %r", where, true.tolist(), r.tolist())
            G, h = lin.window(G, h, lo, hi)
            if lin.depth(G, h) < 1e-6:
                require(case["bounds"] is not None, "%san unbounded piece with interior is not shown", where)
                continue
        faces_match(G, h, P, lin.base(case, 1e-9), where)
        out += ["bounded" if bnd else "unbounded" if case["bounds"] is None else "window"]
    return sorted(set(out)) + [case["consistency"]] if out else None


PARTS = [Part("inequalities", strat, check, 500, thorough=12000, shards=6, rule="lineqs3D against facet enumeration"),
         Part("large", strat_large, check, 60, thorough=2000, shards=3, rule="8 to 26 inequalities"),
         Part("pieces", strat_int, check_int, 240, thorough=6000, shards=6, rule="IntLinIncR3 against facet enumeration")]
