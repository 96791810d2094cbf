"""Test systems (Neumaier, Shary, Toft) and the preprocessing of rows."""
import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
from core import Part, require

RULE = ("Dimensions 1-30 and all parameters of the three test systems, including invalid ones; integer and float matrices of "
        "up to 150 rows with repeated, opposite and zero rows and rows that differ by less or more than the rounding. "
        "Oracle: the published formulas; first occurrences of distinct rows. Non-trivial: parameters that are not the defaults, "
        "matrices with a repeated or zero row.")
ASSUMPTIONS = []

v = st.integers(-16, 16).map(lambda k: k / 4)
u = st.integers(0, 16).map(lambda k: k / 16)


@st.composite
def strat_sys(draw):
    n = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(8, 30)))
    kind = draw(st.sampled_from(["neumaier", "shary", "toft"]))
    case = {"kind": kind, "n": n}
    if kind == "neumaier":
        lo = draw(st.one_of(st.none(), v))
        case.update(theta=draw(st.one_of(st.integers(0, 20), v)), infb=lo,
                    supb=draw(st.one_of(st.none(), st.just(None) if lo is None else u.map(lambda t: lo + t))))
        if lo is not None and lo > 1 and case["supb"] is None:
            case["supb"] = lo + 1
    elif kind == "shary":
        case["n"] = n = max(n, 2)
        a = draw(st.one_of(st.none(), u))
        case.update(N=draw(st.one_of(st.none(), st.integers(n - 1, n + 9), st.integers(0, 9).map(lambda k: n - 1 + k / 4), st.just(n - 2))),
                    alpha=a, beta=draw(st.one_of(st.none(), u, st.sampled_from([1.0, 1.25]))))
    else:
        big = st.one_of(st.just(0), u, u, st.integers(0, 40).map(lambda k: k / 4))
        case.update(r=draw(st.one_of(big, big, big, st.just(-0.5))), R=draw(st.one_of(big, big, big, st.just(-1))))
    return case


def same(X, lo, hi, what):
    require(X.shape == lo.shape, "%s: shape %r, not %r", what, X.shape, lo.shape)
    a, b = X.a.astype(float), X.b.astype(float)
    e = 4e-16 * (1 + np.maximum(abs(lo), abs(hi)))
    require(np.all(abs(a - lo) <= e) and np.all(abs(b - hi) <= e), "%s is %r, not [%r, %r]", what, X, lo.tolist(), hi.tolist())


def check_sys(case):
    n, kind = case["n"], case["kind"]
    E = np.eye(n, dtype=bool)
    if kind == "neumaier":
        lo = -1 if case["infb"] is None else case["infb"]
        hi = 1 if case["supb"] is None else case["supb"]
        kw = {k: case[k] for k in ("infb", "supb") if case[k] is not None}
        A, b = ip.Neumaier_system(n, case["theta"], **kw)
        t = float(case["theta"])
        same(A, np.where(E, t, 0.0), np.where(E, t, 2.0), "the matrix")
        same(b, np.full(n, float(lo)), np.full(n, float(hi)), "the right-hand side")
        return kind if kw else None
    if kind == "shary":
        kw = {k: case[k] for k in ("N", "alpha", "beta") if case[k] is not None}
        N = n if case["N"] is None else case["N"]
        al = 0.23 if case["alpha"] is None else case["alpha"]
        be = 0.35 if case["beta"] is None else case["beta"]
        if N < n - 1 or be < al or be > 1:
            try:
                R = ip.Shary_system(n, **kw)
            except Exception:
                return "refused"
            require(False, "Shary_system(%d, %r) returned %r", n, kw, R)
        A, b = ip.Shary_system(n, **kw)
        same(A, np.where(E, n - 1.0, al - 1), np.where(E, float(N), 1 - be), "the matrix")
        same(b, np.full(n, 1.0 - n), np.full(n, n - 1.0), "the right-hand side")
        return kind if kw else None
    r, R = case["r"], case["R"]
    if r < 0 or R < 0:
        try:
            Q = ip.Toft_system(n, r=r, R=R)
        except Exception:
            return "refused"
        require(False, "Toft_system(%d, r=%r, R=%r) returned %r", n, r, R, Q)
    A, b = ip.Toft_system(n, r=r, R=R)
    M = np.eye(n)
    M[:, -1] = M[-1, :] = np.arange(1, n + 1)
    D = np.where(M != 0, r, 0.0)
    same(A, M - D, M + D, "the matrix")
    same(b, np.full(n, 1.0 - R), np.full(n, 1.0 + R), "the right-hand side")
    # the entries are objects of their own
    A[0, 0] = ip.Interval(50, 60)
    if n > 1:
        require(A[-1, 0].a == 1 - r and A[0, -1].a == 1 - r and A[-1, -1].b == n + r, "an assignment to one entry changed another one: %r", A)
    return kind if r or R else None


@st.composite
def strat_rows(draw):
    m, n = draw(st.integers(1, 7)), draw(st.sampled_from([1, 2, 2, 3, 3]))
    base = draw(st.lists(st.lists(st.integers(-3, 3), min_size=n, max_size=n), min_size=m, max_size=m))
    rows, b = [], []
    for r in base:
        k = draw(st.integers(0, 5))
        if rows and k == 0:
            i = draw(st.integers(0, len(rows) - 1))
            d = draw(st.sampled_from([0.0, 1e-15, 1e-9, -1e-9, 1e-4]))
            r = [x + (d if j == 0 else 0.0) for j, x in enumerate(rows[i])]
            b.append(b[i] + draw(st.sampled_from([0.0, 0.0, 1.0, 1e-15])))
        else:
            r = [x / 2 for x in ([0] * n if k == 1 else r)]
            b.append(draw(st.integers(-3, 3)) / 2)
        rows.append(r)
    return {"a": rows, "b": b, "ints": draw(st.booleans()), "decimals": draw(st.sampled_from([None, 12, 6, 3, 0]))}


@st.composite
def strat_many(draw):
    """Up to 150 rows of few different values in up to 6 columns."""
    m, n = draw(st.integers(8, 150)), draw(st.sampled_from([1, 2, 3, 6]))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    a = rng.integers(-2, 3, (m, n)) / 2 * rng.choice([1.0, 1.0, 0.0], (m, 1))
    b = rng.integers(-2, 3, m) / 2
    a += (rng.random((m, n)) < 0.1) * rng.choice([1e-15, 1e-9, -1e-9, 1e-4], (m, n))
    b += (rng.random(m) < 0.1) * rng.choice([1e-15, -1e-15, 1e-9], m)
    return {"a": a.tolist(), "b": b.tolist(), "ints": draw(st.booleans()), "decimals": draw(st.sampled_from([None, 12, 6, 3, 0]))}


def firsts(rows):
    out = []
    for i, r in enumerate(rows):
        if not any(np.array_equal(r, rows[j]) for j in out):
            out.append(i)
    return out


def check_rows(case):
    a, b = np.array(case["a"], dtype=float), np.array(case["b"], dtype=float)
    if case["ints"] and np.all(a == np.floor(a)):
        a = a.astype(int)
    n = a.shape[1]
    a0, b0 = a.copy(), b.copy()
    d = 12 if case["decimals"] is None else case["decimals"]
    r = np.around(a, d) + 0.0
    i = firsts(r)
    got = ip.unique(a) if case["decimals"] is None else ip.unique(a, decimals=case["decimals"])
    require(np.array_equal(got, r[i]), "unique(%r, decimals=%r) is %r, not %r", a, d, got, r[i])
    ra, rb = np.around(a, 12) + 0.0, np.around(b, 12) + 0.0
    j = firsts(np.column_stack((ra, rb)))
    x, y = ip.non_repeat(a, b)
    require(np.array_equal(x, np.asarray(a)[j]) and np.array_equal(y, np.asarray(b)[j]), "non_repeat(%r, %r) is %r, %r", a, b, x, y)
    zero = np.all(abs(ra) <= 1e-12, axis=1)
    x, y, ok = ip.clear_zero_rows(a, b, ndim=n)
    require(np.array_equal(x, np.asarray(a)[~zero]) and np.array_equal(y, np.asarray(b)[~zero]), "clear_zero_rows(%r, %r) is %r, %r", a, b, x, y)
    require(bool(ok) == (not np.any(zero & (rb > 0))), "clear_zero_rows(%r, %r) declares the system %s", a, b, "consistent" if ok else "inconsistent")
    if n == 2:
        p = ip.clear_zero_rows(a, b)
        require(np.array_equal(p[0], x) and np.array_equal(p[1], y) and p[2] == ok, "clear_zero_rows without ndim: %r", p)
    require(np.array_equal(a, a0) and np.array_equal(b, b0), "an argument was changed")
    labels = []
    if len(i) < len(a) or len(j) < len(a):
        labels.append("repeated")
    if zero.any():
        labels.append("zero rows")
    return labels or None


PARTS = [Part("test systems", strat_sys, check_sys, 1500, thorough=20000, shards=3, rule="parameters that are not the defaults"),
         Part("rows", strat_rows, check_rows, 1500, thorough=40000, shards=2, rule="a repeated or zero row"),
         Part("many rows", strat_many, check_rows, 200, thorough=3000, shards=2, rule="up to 150 rows, a repeated or zero row")]
