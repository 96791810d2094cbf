"""Generators and oracles for interval linear systems."""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog

import gen
import intvalpy as ip


def arrays(case):
    A, b = np.array(case["A"], dtype=float), np.array(case["b"], dtype=float)
    return A[..., 0], A[..., 1], b[..., 0], b[..., 1]


def objects(case):
    Al, Ah, bl, bh = arrays(case)
    return ip.Interval(Al, Ah), ip.Interval(bl, bh)


KINDS = ["list", "array", "array", "int", "int8", "int16", "uint8", "float32", "float16"]


def as_kind(A, b, kind):
    """The same system in the given representation, as floats if that does not hold its numbers."""
    if kind == "list":
        return A.tolist(), b.tolist()
    if kind != "array":
        with np.errstate(all="ignore"):
            P, q = A.astype(kind), b.astype(kind)
        if np.array_equal(P.astype(float), A) and np.array_equal(q.astype(float), b):
            return P, q
    return A.copy(), b.copy()


@st.composite
def scales(draw, n):
    """Factors of the rows and of the solutions of a system."""
    if draw(st.booleans()):
        return {}
    return {"s": draw(st.sampled_from([0.01, 7.0, 300.0, 1e3, 1e4, 1e6])), "r": draw(st.lists(st.sampled_from([1.0, 1.0, 0.3, 7.0, 0.01, 1e3]), min_size=n, max_size=n))}


@st.composite
def units(draw, m, low=-20, high=20, rows=True):
    """Powers of two that multiply the rows and the solutions: they change nothing but the scale, without rounding."""
    if draw(st.integers(0, 2)):
        return {}
    k = [p for p in (-20, -13, -7, 0, 3, 10, 20) if low <= p <= high]
    r = draw(st.lists(st.sampled_from([0, 0, -2, 3, -7, 10, 17, -20]), min_size=m, max_size=m)) if rows else [0] * m
    return {"unit": [draw(st.sampled_from(k)), r]}


def factors(case, m):
    k, r = case.get("unit", [0, [0] * m])
    return 2.0 ** np.array(r), 2.0 ** k


def in_units(case):
    """The system in its scale, and that scale of the solutions."""
    Al, Ah, bl, bh = arrays(case)
    f, s = factors(case, len(bl))
    return ip.Interval(Al * f[:, None], Ah * f[:, None]), ip.Interval(bl * f * s, bh * f * s), s


def huge(case):
    return case.get("s", 1.0) > 1e3 and case.get("bounds") is None


def scaled(case):
    """Row factors, scale of the solutions and the window in that scale."""
    s, w = case.get("s", 1.0), case.get("bounds")
    if huge(case) and not case["bounded"]:
        s = 1e3         # the picture of a cone need not have the scale of the data
    return np.array(case.get("r", [1.0] * len(case["b"]))), s, None if w is None else (np.array(w) * s).tolist()


def base(case, tol):
    """Relative accuracy of vertices of a scaled system, whose numbers are rounded to 12 decimals."""
    f, s, w = scaled(case)
    return tol / (min(1.0, s) * min(1.0, f.min()))


def scaled_objects(case):
    Al, Ah, bl, bh = arrays(case)
    f, s, w = scaled(case)
    return ip.Interval(Al * f[:, None], Ah * f[:, None]), ip.Interval(bl * f * s, bh * f * s), s, w


def pairs(lo, hi):
    return np.stack([lo, hi], axis=-1).tolist()


@st.composite
def any_system(draw, nmax=3, mmax=6, q=2):
    """Arbitrary system with small dyadic data."""
    n, m = draw(st.integers(1, nmax)), draw(st.integers(1, mmax))
    el = st.integers(-5 * q, 5 * q)
    w = st.one_of(st.just(0), st.integers(0, 2 * q), st.integers(0, 4 * q))
    A = [[[a / q, (a + draw(w)) / q] for a in draw(st.lists(el, min_size=n, max_size=n))] for _ in range(m)]
    b = [[c / q, (c + draw(w)) / q] for c in draw(st.lists(st.integers(-9 * q, 9 * q), min_size=m, max_size=m))]
    return {"A": A, "b": b}


@st.composite
def large_system(draw, nlo, nhi, extra, mhi, q=2, mid=None):
    """System of a size that is not drawn number by number; also the generator of further numbers. At least n + extra rows."""
    n = draw(st.integers(nlo, nhi))
    m = draw(st.integers(max(1, n + extra), max(mhi, n + extra)))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    sparse = (rng.random((m, n)) < rng.choice([1.0, 1.0, 0.4])).astype(float)
    Al = rng.integers(-5 * q, 5 * q + 1, (m, n)) / q * sparse
    Ah = Al + rng.integers(0, 2 * q + 1, (m, n)) / q * sparse * rng.choice([0, 1, 1])
    bl = rng.integers(-9 * q, 9 * q + 1, m) / q
    bh = bl + rng.integers(0, 4 * q + 1, m) / q * rng.choice([0, 1, 1])
    return {"A": pairs(Al, Ah), "b": pairs(bl, bh)}, rng


@st.composite
def regular_system(draw, nmin=2, nmax=3, extra=2, rho=0.85, zero_width=True):
    """System around a solution, of a matrix that stays regular (rho(|Ac^+| Ar) < rho)."""
    n = draw(st.integers(nmin, nmax))
    m = n + draw(st.integers(0, extra))
    Ac = np.array(draw(st.lists(st.lists(st.integers(-6, 6), min_size=n, max_size=n), min_size=m, max_size=m)), float)
    for i in range(n):
        if abs(Ac[i]).sum() == 0 or draw(st.booleans()):
            Ac[i, i] = draw(st.sampled_from([4.0, 5.0, 6.0, 7.0, -4.0, -5.0, 8.0]))
    q = 8.0
    Ar = np.array(draw(st.lists(st.lists(st.integers(0, 6), min_size=n, max_size=n), min_size=m, max_size=m)), float) / q
    if draw(st.integers(0, 3)) == 0:
        Ar = np.where(Ar < 0.5, 0.0, Ar)
    if np.linalg.matrix_rank(Ac) < n:
        Ac[:n] += np.diag(np.where(np.diag(Ac[:n]) >= 0, 11.0, -11.0))
    if np.linalg.matrix_rank(Ac) < n:
        Ac[:n] = np.eye(n) * 5
    for _ in range(40):
        if spectral(Ac, Ar) < rho:
            break
        Ar = np.floor(Ar * q / 2) / q
    else:
        Ar = np.zeros_like(Ar)
    xc = np.array(draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n)), float)
    if m == n:
        bc = np.array(draw(st.lists(st.integers(-9, 9), min_size=m, max_size=m)), float)
    else:
        bc = Ac @ xc
    br = np.array(draw(st.lists(st.integers(0 if zero_width else 1, 8), min_size=m, max_size=m)), float) / 4
    return {"A": pairs(Ac - Ar, Ac + Ar), "b": pairs(bc - br, bc + br)}


def large_regular(rng, n, m, rho):
    """Midpoint and radius of a matrix that stays of full rank, with its large elements in a permuted order."""
    Ac = rng.integers(-6, 7, (m, n)).astype(float) * (rng.random((m, n)) < rng.choice([0.4, 1.0]))
    for i, j in enumerate(rng.permutation(n)):
        Ac[i, j] = rng.choice([-1.0, 1.0]) * (n + rng.integers(3, 9))
    while np.linalg.matrix_rank(Ac) < n:
        Ac[:n] += np.eye(n)
    Ar = rng.integers(0, 7, (m, n)) / 8 * rng.choice([0, 1, 1]) * (rng.random((m, n)) < 0.7)
    while spectral(Ac, Ar) >= rho:
        Ar = np.floor(Ar * 32) / 64
    return Ac, Ar


def hull_lp(Ai, As, bi, bs):
    """Interval hull of the (bounded, non-empty) united solution set by linear programming."""
    n = Ai.shape[1]
    Ac, Ar = (Ai + As) / 2, (As - Ai) / 2
    lo, hi = np.full(n, np.inf), np.full(n, -np.inf)
    for s in itertools.product([1, -1], repeat=n):
        S = np.array(s, dtype=float)
        G, h = np.vstack([Ac - Ar * S, -(Ac + Ar * S)]), np.r_[bs, -bi]
        bounds = [(0, None) if t > 0 else (None, 0) for t in s]
        for k in range(n):
            for t in (1, -1):
                r = linprog(t * np.eye(n)[k], A_ub=G, b_ub=h, bounds=bounds)
                if r.status == 2:
                    break
                if r.status:
                    return None
                if t == 1:
                    lo[k] = min(lo[k], r.fun)
                else:
                    hi[k] = max(hi[k], -r.fun)
            if r.status == 2:
                break
    return (lo, hi) if np.all(lo <= hi) else None


def spectral(Ac, Ar):
    try:
        return float(max(abs(np.linalg.eigvals(abs(np.linalg.pinv(Ac)) @ Ar))))
    except np.linalg.LinAlgError:
        return np.inf


def united_vertices(Ai, As, bi, bs, tol=1e-9):
    """Vertices of the pieces (one per orthant) of the united solution set."""
    m, n = Ai.shape
    out = []
    Ac, Ar = (Ai + As) / 2, (As - Ai) / 2
    for s in itertools.product([1, -1], repeat=n):
        S = np.array(s)
        G = np.vstack([Ac - Ar * S, -(Ac + Ar * S), -np.diag(S)])
        h = np.concatenate([bs, -bi, np.zeros(n)])
        out.append(vertices(G, h, tol))
    return out


def vertices(G, h, tol=1e-9):
    """Vertices of {x: G x <= h}."""
    n = G.shape[1]
    idx = np.array(list(itertools.combinations(range(len(G)), n)))
    if len(idx) == 0:
        return np.zeros((0, n))
    M = G[idx]
    d = np.linalg.det(M)
    ok = abs(d) > 1e-12
    X = np.linalg.solve(M[ok], h[idx[ok]][..., None])[..., 0]
    if len(X) == 0:
        return X
    feas = (X @ G.T <= h + tol * (1 + abs(h))).all(1)
    return X[feas]


def hull(Ai, As, bi, bs):
    """Interval hull of the (bounded) united solution set."""
    v = np.vstack(united_vertices(Ai, As, bi, bs))
    if len(v) == 0:
        return None
    return v.min(0), v.max(0)


def united_member(Al, Ah, bl, bh, x):
    """Oettli-Prager slack: >= 0 iff x belongs to the united solution set."""
    lo = np.where(x >= 0, Al, Ah) @ x
    hi = np.where(x >= 0, Ah, Al) @ x
    return np.min(np.minimum(bh - lo, hi - bl))


def tol_member(Al, Ah, bl, bh, x):
    lo = np.where(x >= 0, Al, Ah) @ x
    hi = np.where(x >= 0, Ah, Al) @ x
    return np.min(np.minimum(lo - bl, bh - hi))


def constituents(kind, Al, Ah, bl, bh, x, w):
    lo = np.where(x >= 0, Al, Ah) @ x
    hi = np.where(x >= 0, Ah, Al) @ x
    bm, br = (bl + bh) / 2, (bh - bl) / 2
    mag = np.maximum(abs(bm - lo), abs(bm - hi))
    if kind == "Tol":
        return w * (br - mag)
    if kind == "Uni":
        mig = np.where((bm - hi) * (bm - lo) <= 0, 0, np.minimum(abs(bm - lo), abs(bm - hi)))
        return w * (br - mig)
    if kind == "Uss":
        return w * (br + ((Ah - Al) / 2) @ abs(x) - abs(bm - (Al + Ah) / 2 @ x))
    return w * (br + mag)


def functional_lp(Al, Ah, bl, bh, w, sense, C=None, lb=None, ub=None):
    """Optimum of Tol (sense 'tol', maximum) or ChebNorm ('cheb', minimum), optionally under lb <= C x <= ub."""
    m, n = Al.shape
    bm, br = (bl + bh) / 2, (bh - bl) / 2
    s = 1 if sense == "tol" else -1
    G = [np.hstack([Ah, -Al, (s / w)[:, None]]), np.hstack([-Al, Ah, (s / w)[:, None]])]
    h = [bm + s * br, -bm + s * br]
    if C is not None:
        for c, l, u in zip(C, lb, ub):
            if u < np.inf:
                G.append(np.r_[c, -c, 0][None])
                h.append([u])
            if l > -np.inf:
                G.append(-np.r_[c, -c, 0][None])
                h.append([-l])
    r = linprog(np.r_[np.zeros(2 * n), -s], A_ub=np.vstack(G), b_ub=np.hstack(h),
                bounds=[(0, None)] * (2 * n) + [(None, None)])
    if r.status != 0:
        return None, None
    return (-r.fun if s == 1 else r.fun), r.x[:n] - r.x[n:2 * n]


def uss_lp(Al, Ah, bl, bh, w, G=None, g=None, mu=None):
    """Global maximum of Uss (one linear program per orthant); inf where unbounded. With G x <= g a penalty of mu times
    the sum of the violations is subtracted."""
    m, n = Al.shape
    p = 0 if G is None else len(G)
    Ac, Ar, bm, br = (Al + Ah) / 2, (Ah - Al) / 2, (bl + bh) / 2, (bh - bl) / 2
    best = -np.inf
    for s in itertools.product([1, -1], repeat=n):
        S = np.array(s)
        H = np.vstack([np.hstack([Ac - Ar * S, (1 / w)[:, None], np.zeros((m, p))]),
                       np.hstack([-Ac - Ar * S, (1 / w)[:, None], np.zeros((m, p))])])
        h = np.hstack([bm + br, -bm + br])
        if p:
            H = np.vstack([H, np.hstack([G, np.zeros((p, 1)), -np.eye(p)])])
            h = np.hstack([h, g])
        r = linprog(np.r_[np.zeros(n), -1, np.full(p, 0 if mu is None else mu)], A_ub=H, b_ub=h,
                    bounds=[(0, None) if q > 0 else (None, 0) for q in s] + [(None, None)] + [(0, None)] * p)
        if r.status == 3:
            return np.inf
        if r.status == 0:
            best = max(best, -r.fun)
    return best


# ----------------------------------------------------------------------------------------------------------------
# polyhedra {x: G x <= h}
def depth(G, h):
    """Radius of the largest ball in the polyhedron (at most 1); negative for an empty one."""
    g = np.linalg.norm(G, axis=1)
    r = linprog(np.r_[np.zeros(G.shape[1]), -1], A_ub=np.c_[G, np.where(g > 0, g, 1)], b_ub=h,
                bounds=[(None, None)] * G.shape[1] + [(None, 1)])
    return -r.fun if r.status == 0 else -1.0


def bounded(G, h):
    """Whether a non-empty polyhedron is bounded."""
    n = G.shape[1]
    for k in range(n):
        for s in (1, -1):
            c = np.zeros(n)
            c[k] = s
            if linprog(c, A_ub=G, b_ub=np.zeros(len(h)), bounds=[(-1, 1)] * n).fun < -1e-9:
                return False
    return True


def distinct(V, tol=1e-7):
    V, out = np.asarray(V, dtype=float), []
    for v in V:
        if not any(np.abs(v - w).max() < tol for w in out):
            out.append(v)
    return np.array(out).reshape(len(out), V.shape[1])


def subset(U, V, tol=1e-6):
    """Every row of U is close to a row of V."""
    return all(len(V) and np.min(np.abs(V - u).max(1)) < tol for u in U)


def inaccurate(G, h, V, U, base):
    """A vertex of {x: G x <= h} from V that no row of U is as close to as rounding errors explain, or None."""
    n = G.shape[1]
    g = np.linalg.norm(G, axis=1)
    keep = g > 0
    Gn, hn = G[keep] / g[keep, None], h[keep] / g[keep]
    for v in V:
        m = 1 + np.abs(v).max()
        act = np.where(abs(Gn @ v - hn) <= 1e-7 * m)[0]
        det = [abs(np.linalg.det(Gn[list(c)])) for c in itertools.combinations(act.tolist(), n)]
        K = 1 / min([d for d in det if d > 1e-9], default=1e-9)
        d = np.abs(U - v).max(1)
        k = int(np.argmin(d))
        if d[k] > base * K * m:
            return "the vertex %r is returned as %r" % (v.tolist(), U[k].tolist())
    return None


def piece(case, sign, consistency):
    """The part of the solution set in one orthant, as (G, h)."""
    Al, Ah, bl, bh = arrays(case)
    S = np.array(sign, dtype=float)
    if consistency == "uni":
        lo, hi = np.where(S > 0, Al, Ah), np.where(S > 0, Ah, Al)
        return np.vstack([lo, -hi, -np.diag(S)]), np.concatenate([bh, -bl, np.zeros(len(S))])
    lo, hi = np.where(S > 0, Al, Ah), np.where(S > 0, Ah, Al)
    return np.vstack([hi, -lo, -np.diag(S)]), np.concatenate([bh, -bl, np.zeros(len(S))])


def window(G, h, lo, hi):
    n = G.shape[1]
    return np.vstack([G, np.eye(n), -np.eye(n)]), np.concatenate([h, np.asarray(hi, float), -np.asarray(lo, float)])


def ring(P, tol=1e-9):
    """Whether planar points are listed in order around a convex polygon."""
    P = np.asarray(P)
    n = len(P)
    if n < 4:
        return True
    c = P.mean(0)
    ang = np.arctan2(P[:, 1] - c[1], P[:, 0] - c[0])
    d = np.diff(np.r_[ang, ang[:1]])
    d = (d + np.pi) % (2 * np.pi) - np.pi
    return bool(np.all(d > -tol) or np.all(d < tol))


def orthant_lp(kind, Al, Ah, bl, bh, w, norm, S):
    """Maximum of Uni or Uss (norm inf or l1) in the orthant with the signs S, where they are concave; inf if unbounded."""
    m, n = Al.shape
    bm, br = (bl + bh) / 2, (bh - bl) / 2
    Ac, Ar = (Al + Ah) / 2, (Ah - Al) / 2
    T = (np.ones((m, 1)) if norm == "inf" else np.eye(m)) / w[:, None]
    k = T.shape[1]
    G = [np.hstack([-(Ac + Ar * S), T]), np.hstack([Ac - Ar * S, T])]
    h = [br - bm, br + bm]
    if kind == "Uni":
        G.append(np.hstack([np.zeros((m, n)), T]))
        h.append(br)
    G.append(np.hstack([-np.diag(S), np.zeros((n, k))]))
    h.append(np.zeros(n))
    r = linprog(np.r_[np.zeros(n), -np.ones(k)], A_ub=np.vstack(G), b_ub=np.hstack(h), bounds=[(None, None)] * (n + k))
    return -r.fun if r.status == 0 else np.inf if r.status == 3 else None


def random_systems(seed, count, nmax=3, mmax=7):
    """A reproducible sample of systems with at least as many rows as unknowns."""
    rng = np.random.default_rng(seed)
    out = []
    while len(out) < count:
        n = int(rng.integers(1, nmax + 1))
        m = int(rng.integers(n, mmax + 1))
        Al = rng.integers(-10, 11, (m, n)) / 2
        Ah = Al + rng.integers(0, 5, (m, n)) / 2 * rng.choice([0, 1, 1])
        bl = rng.integers(-18, 19, m) / 2
        bh = bl + rng.integers(0, 9, m) / 4
        w = rng.choice([0.5, 1.0, 1.0, 2.0], m) if rng.integers(0, 2) else np.ones(m)
        if np.linalg.matrix_rank((Al + Ah) / 2) == n:
            out.append((Al, Ah, bl, bh, w))
    return out


def best_of_orthant(kind, Al, Ah, bl, bh, w, norm, x, tol=3e-3):
    """Whether x is (nearly) the best point of its orthant; None where that says nothing."""
    if not np.all(np.isfinite(x)) or abs(x).max() > 1e6:
        return None
    o = orthant_lp(kind, Al, Ah, bl, bh, w, norm, np.where(x >= 0, 1.0, -1.0))
    if o is None or o == np.inf:
        return None
    c = constituents(kind, Al, Ah, bl, bh, x, w)
    return bool(o - (c.min() if norm == "inf" else c.sum()) <= tol * (1 + abs(o)))


def tol_lp(Al, Ah, bl, bh, w, norm, lb=None, ub=None):
    """Maximum of Tol (norm inf or l1), possibly in a box."""
    m, n = Al.shape
    bm, br = (bl + bh) / 2, (bh - bl) / 2
    T = np.ones((m, 1)) if norm == "inf" else np.eye(m)
    # w (br - |..|) >= t, i.e. +-(bm - Ax) + t/w <= br
    G = [np.hstack([Ah, -Al, T / w[:, None]]), np.hstack([-Al, Ah, T / w[:, None]])]
    h = [bm + br, -bm + br]
    k = T.shape[1]
    bounds = [(0, None)] * (2 * n) + [(None, None)] * k
    if lb is not None:
        E = np.hstack([np.eye(n), -np.eye(n), np.zeros((n, k))])
        for j in range(n):
            if ub[j] < np.inf:
                G.append(E[j:j + 1])
                h.append([ub[j]])
            if lb[j] > -np.inf:
                G.append(-E[j:j + 1])
                h.append([-lb[j]])
    r = linprog(np.r_[np.zeros(2 * n), -np.ones(k)], A_ub=np.vstack(G), b_ub=np.hstack(h), bounds=bounds)
    return -r.fun if r.status == 0 else None
