"""Gauss, Gauss-Seidel and Hansen-Bliek-Rohn: outer estimates of the united solution set."""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
import lin
from core import Part, Skip, require

RULE = ("Square systems: up to 4 x 4 whose matrices stay regular (compared with the exact hull from the orthants' "
        "vertices; rows and solutions also scaled by powers of two from 2^-20 to 2^20), up to 16 x 16 with strictly regular matrices (points of the solution set sampled by solving vertex "
        "systems), arbitrary square systems for Gauss, and point systems with a rational exact solution. Gauss-Seidel is also "
        "given starting boxes, preconditioners and iteration limits, and then has to keep the part of the set inside the box. "
        "Non-trivial: an estimate was returned (or, for singular systems, refused) and compared.")
ASSUMPTIONS = ["Gauss raises when a pivot contains zero and Hansen-Bliek-Rohn when the preconditioned matrix is no H-matrix; "
               "that is no violation unless the matrix is a point matrix (Gauss) or the preconditioned radius matrix has "
               "spectral radius below 0.85 (Hansen-Bliek-Rohn)",
               "Hansen-Bliek-Rohn is computed in ordinary floating point: relative tolerance 1e-9"]


def encloses(x, lo, hi, what, tol=1e-9, also=""):
    s = tol * (1 + np.maximum(abs(lo), abs(hi)))
    require(x.shape == lo.shape, "%s: shape %r", what, x.shape)
    a, b = x.a.astype(float), x.b.astype(float)
    require(np.all(np.isfinite(a)) and np.all(np.isfinite(b)) and np.all(a <= b), "%s: %r", what, x)
    require(np.all(a <= lo + s) and np.all(b >= hi - s), "%s returned %r, the hull is [%r, %r]%s", what, x, lo.tolist(),
            hi.tolist(), also)


def strat_hull():
    return lin.regular_system(1, 4, 0).flatmap(lambda c: lin.units(len(c["b"])).map(lambda u: dict(c, **u)))


def attempt(f, *args, **kw):
    try:
        return f(*args, **kw)
    except Exception as e:
        return e


def check_hull(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b, unit = lin.in_units(case)
    n = len(bl)
    h = lin.hull(Al, Ah, bl, bh)
    lo, hi = h
    labels = []
    x = attempt(ip.Gauss, A, b)
    if isinstance(x, Exception):
        require(isinstance(x, AssertionError) or "zero" in str(x).lower() or "ноль" in str(x).lower(), "Gauss: %s: %s",
                type(x).__name__, x)
        require(np.any(Al != Ah), "Gauss refused a regular point matrix: %s", x)
        labels.append("Gauss refused")
    else:
        encloses(x / unit, lo, hi, "Gauss")
        labels.append("Gauss")
    for k in (-40, 30):
        y = attempt(ip.Gauss, A * 2.0 ** k, b * 2.0 ** k)
        require(isinstance(x, Exception) == isinstance(y, Exception) and (isinstance(x, Exception) or (np.all(x.a == y.a) and np.all(x.b == y.b))),
                "Gauss: %r, for the system times 2**%d: %r", x, k, y)
    x = ip.HBR(A, b)
    encloses(x / unit, lo, hi, "HBR")
    labels.append("HBR")
    x = attempt(ip.Gauss_Seidel, A, b)
    big = max(abs(lo).max(), abs(hi).max())
    if big * unit < 1000:
        require(not isinstance(x, Exception), "Gauss_Seidel: %s", x)
        encloses(x / unit, lo, hi, "Gauss_Seidel")
        labels.append("Gauss_Seidel")
    return labels + ["n=%d" % n]


@st.composite
def strat_identity(draw):
    """Midpoint matrix is the identity: Hansen-Bliek-Rohn is optimal, and C is the identity."""
    n = draw(st.integers(1, 4))
    Ar = np.array(draw(st.lists(st.lists(st.integers(0, 7), min_size=n, max_size=n), min_size=n, max_size=n)), float) / 32
    while lin.spectral(np.eye(n), Ar) > 0.85:
        Ar = np.floor(Ar * 16) / 32
    q = draw(st.sampled_from([1.0, 2.0, 0.5, 4.0]))
    bc = np.array(draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n)), float)
    br = np.array(draw(st.lists(st.integers(0, 8), min_size=n, max_size=n)), float) / 4
    return {"A": lin.pairs(q * (np.eye(n) - Ar), q * (np.eye(n) + Ar)), "b": lin.pairs(bc - br, bc + br)}


def check_identity(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b = lin.objects(case)
    lo, hi = lin.hull(Al, Ah, bl, bh)
    x = ip.HBR(A, b)
    encloses(x, lo, hi, "HBR")
    s = 1e-7 * (1 + np.maximum(abs(lo), abs(hi)))
    require(np.all(x.a >= lo - s) and np.all(x.b <= hi + s), "HBR returned %r; for a centred matrix it is optimal: [%r, %r]", x,
            lo.tolist(), hi.tolist())
    y = ip.Gauss_Seidel(A, b)
    if max(abs(lo).max(), abs(hi).max()) < 1000:
        encloses(y, lo, hi, "Gauss_Seidel")
    return "n=%d" % len(bl) if np.any(Al != Ah) else "point"


@st.composite
def strat_sampled(draw):
    n = draw(st.integers(3, 7))
    case = {"A": None, "b": None}
    num = st.integers(-9, 9)
    Ac = np.array(draw(st.lists(st.lists(num, min_size=n, max_size=n), min_size=n, max_size=n)), float)
    # row dominance in a permuted order, so that rows have to be exchanged
    perm = draw(st.permutations(range(n)))
    for i in range(n):
        Ac[i, perm[i]] = np.where(Ac[i, perm[i]] >= 0, 1, -1) * (abs(Ac[i]).sum() + draw(st.integers(1, 6)))
    Ar = np.array(draw(st.lists(st.lists(st.integers(0, 4), min_size=n, max_size=n), min_size=n, max_size=n)), float) / 64
    bc = np.array(draw(st.lists(st.integers(-20, 20), min_size=n, max_size=n)), float)
    br = np.array(draw(st.lists(st.integers(0, 8), min_size=n, max_size=n)), float) / 4
    case["A"], case["b"] = lin.pairs(Ac - Ar, Ac + Ar), lin.pairs(bc - br, bc + br)
    case["pick"] = draw(st.integers(0, 2 ** 31))
    return case


@st.composite
def strat_large(draw):
    n, seed = draw(st.integers(5, 16)), draw(st.integers(0, 2 ** 40))
    rng = np.random.default_rng(seed)
    Ac, Ar = lin.large_regular(rng, n, n, rng.choice([0.2, 0.5, 0.8]))
    bc, br = rng.integers(-30, 31, n).astype(float), rng.integers(0, 9, n) / 4 * rng.choice([0, 1, 1])
    return {"A": lin.pairs(Ac - Ar, Ac + Ar), "b": lin.pairs(bc - br, bc + br), "pick": seed}


def check_sampled(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b = lin.objects(case)
    n = len(bl)
    rng = np.random.default_rng(case["pick"])
    X = []
    for _ in range(60):
        M = np.where(rng.random((n, n)) < 0.5, Al, Ah)
        if rng.random() < 0.3:
            M = Al + (Ah - Al) * rng.random((n, n))
        r = np.where(rng.random(n) < 0.5, bl, bh)
        if abs(np.linalg.det(M)) > 1e-9:
            X.append(np.linalg.solve(M, r))
    X = np.array(X)
    labels = []
    for name in ("Gauss", "HBR", "Gauss_Seidel"):
        x = attempt(getattr(ip, name), A, b)
        if isinstance(x, Exception):
            Ac, Ar = (Al + Ah) / 2, (Ah - Al) / 2
            require(name == "Gauss" and np.any(Ar), "%s refused: %s", name, x)
            labels.append("Gauss refused")
            continue
        encloses(x, X.min(0), X.max(0), name, 1e-8)
        labels.append(name)
    return labels


@st.composite
def strat_exact(draw):
    n = draw(st.integers(1, 5))
    num = st.one_of(st.integers(-9, 9).map(float), st.floats(-10, 10).map(lambda v: v if abs(v) > 1e-4 else 0.0), st.sampled_from([0.1, 1 / 3, 0.7, 1e-3, 1e4]))
    A = draw(st.lists(st.lists(num, min_size=n, max_size=n), min_size=n, max_size=n))
    b = draw(st.lists(num, min_size=n, max_size=n))
    return {"A": A, "b": b, "k": [draw(st.sampled_from([0, 0, -30, -60, 40])) for _ in range(2)]}


def solve(A, b):
    """Exact solution over the rationals; None for singular."""
    n = len(b)
    M = [[F(v) for v in r] + [F(c)] for r, c in zip(A, b)]
    for j in range(n):
        p = max(range(j, n), key=lambda i: abs(M[i][j]))
        if M[p][j] == 0:
            return None
        M[j], M[p] = M[p], M[j]
        for i in range(n):
            if i != j:
                q = M[i][j] / M[j][j]
                M[i] = [u - q * v for u, v in zip(M[i], M[j])]
    return [M[i][n] / M[i][i] for i in range(n)]


def check_exact(case):
    """Point systems: the exact solution belongs to what interval arithmetic returns."""
    A, b = np.array(case["A"], dtype=float), np.array(case["b"], dtype=float)
    n = len(b)
    x = solve(case["A"], case["b"])
    # the matrix and the right-hand side in other units: powers of two change no digit of the solution
    k, l = case.get("k", [0, 0])
    IA, Ib = ip.Interval(A * 2.0 ** k, A * 2.0 ** k), ip.Interval(b * 2.0 ** l, b * 2.0 ** l)
    r = attempt(ip.Gauss, IA, Ib)
    if not isinstance(r, Exception):
        r = r * 2.0 ** (k - l)
    if x is None:
        require(isinstance(r, Exception), "Gauss solved a singular system: %r", r)
        return "singular"
    if isinstance(r, Exception):
        require(np.linalg.cond(A) > 1e8 or (abs(A) < 1e-6).any(), "Gauss refused a system of condition %g: %s", np.linalg.cond(A), r)
        return "refused"
    for k in range(n):
        require(F(float(r[k].a)) <= x[k] <= F(float(r[k].b)), "Gauss: the component %d, %r, misses the exact solution %.20g", k,
                r[k], float(x[k]))
    return "n=%d" % n


@st.composite
def strat_seidel(draw):
    case = draw(lin.regular_system(2, 3, 0, rho=0.7))
    n = len(case["b"])
    case["maxiter"] = draw(st.sampled_from([0, 1, 2, 10, 2000]))
    case["box"] = [draw(st.sampled_from(["wide", "half", "shift", "none", "far"])), [draw(st.integers(0, 8)) / 8 for _ in range(n)]]
    case["C"] = draw(st.sampled_from(["none", "eye", "inv", "interval", "scaled"]))
    return case


def check_seidel(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b = lin.objects(case)
    n = len(bl)
    lo, hi = lin.hull(Al, Ah, bl, bh)
    kind, t = case["box"]
    t = np.array(t)
    w = hi - lo + 1
    if kind == "none":
        x0, xl, xh = None, np.full(n, -1000.0), np.full(n, 1000.0)
    else:
        if kind == "wide":
            xl, xh = lo - 3, hi + 3
        elif kind == "half":
            xl, xh = lo - 1 + t * w / 2, hi + 1
        elif kind == "shift":
            xl, xh = lo - t * w, hi - t * w / 2
        else:
            xl, xh = hi + 1 + t, hi + 2 + t
        x0 = ip.Interval(xl, xh)
    Ac = (Al + Ah) / 2
    C = {"none": None, "eye": np.eye(n), "inv": np.linalg.inv(Ac), "scaled": np.diag([2.0 ** k for k in range(n)]) @ np.linalg.inv(Ac),
         "interval": ip.asinterval(np.linalg.inv(Ac))}[case["C"]]
    kw = {"maxiter": case["maxiter"]}
    if C is not None:
        kw["C"] = C
    if x0 is not None:
        kw["x0"] = x0
    # the part of the set inside the box: vertices per orthant, with the box as further half-spaces
    V = []
    import itertools
    Ar = (Ah - Al) / 2
    for s in itertools.product([1, -1], repeat=n):
        S = np.array(s)
        G = np.vstack([Ac - Ar * S, -(Ac + Ar * S), -np.diag(S), np.eye(n), -np.eye(n)])
        h = np.concatenate([bh, -bl, np.zeros(n), xh, -xl])
        V.append(lin.vertices(G, h, 1e-12))
    V = np.vstack(V)
    r = attempt(ip.Gauss_Seidel, A, b, **kw)
    if isinstance(r, Exception):
        if case["C"] == "eye":
            return None                 # an unpreconditioned matrix need not be an H-matrix
        require(len(V) == 0 or "intersect" not in str(r), "Gauss_Seidel: %s, but e.g. %r belongs to both", r,
                V[0].tolist() if len(V) else None)
        require("intersect" in str(r), "Gauss_Seidel: %s: %s", type(r).__name__, r)
        return "refused an empty intersection"
    require(np.all(r.a >= xl) and np.all(r.b <= xh), "Gauss_Seidel: %r leaves the starting box [%r, %r]", r, xl.tolist(), xh.tolist())
    if len(V) == 0:
        return None
    vl, vh = V.min(0), V.max(0)
    s = 1e-7 * (1 + np.maximum(abs(vl), abs(vh)))
    require(np.all(r.a <= vl + s) and np.all(r.b >= vh - s), "Gauss_Seidel returned %r, the part of the set in the box is [%r, %r]", r,
            vl.tolist(), vh.tolist())
    if case["maxiter"] == 2000 and kind != "none":
        # a fixed point: another call that starts from the result does not lose or gain anything
        z = ip.Gauss_Seidel(A, b, **dict(kw, x0=r.copy()))
        require(np.all(abs(z.a - r.a) <= 1e-9 * (1 + abs(r.a))) and np.all(abs(z.b - r.b) <= 1e-9 * (1 + abs(r.b))),
                "Gauss_Seidel from its own result %r gives %r", r, z)
    return [kind, "C " + case["C"]]


PARTS = [
    Part("hull", strat_hull, check_hull, 700, thorough=20000, shards=4, rule="against the exact hull"),
    Part("identity", strat_identity, check_identity, 300, thorough=8000, shards=2, rule="centred matrices: optimality of HBR"),
    Part("sampled", strat_sampled, check_sampled, 300, thorough=8000, shards=3, rule="larger systems, sampled solutions"),
    Part("large", strat_large, check_sampled, 150, thorough=3000, shards=2, rule="up to 16 unknowns, sampled solutions"),
    Part("exact", strat_exact, check_exact, 600, thorough=15000, shards=2, rule="rational solutions of point systems"),
    Part("seidel", strat_seidel, check_seidel, 400, thorough=10000, shards=3, rule="starting boxes, preconditioners, limits"),
]
