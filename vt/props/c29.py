"""Krawczyk's and the Hansen-Sengupta operator."""
import mpmath
import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
from core import Part, Skip, require

RULE = ("Equations and systems of 1-3 unknowns with known zeros (polynomials given by their roots, sine and exponential "
        "equations; linear parts plus squares and products of the unknowns), starting boxes around one, several or none of "
        "the zeros, centred or not, unknowns in units from 2^-20 to 2^20, iteration limits and tolerances. Oracle: no zero inside the starting box may be lost, the "
        "result lies in the starting box, and when the preconditioned Jacobian stays within 0.4 of the identity the "
        "result has shrunk to the zero; irrational zeros computed to 300 bits may not be lost by rounding, "
        "without any tolerance. Non-trivial: the starting box contains a zero.")
ASSUMPTIONS = ["both methods may raise, when a preconditioned Jacobian is not invertible, or when the function's range shows that there is no zero",
               "in the parts one equation and systems zeros are compared with the absolute and relative tolerance 1e-12 of contact in the intersection"]


UNITS = [1.0] * 5 + [4096.0, 2.0 ** 20, 2.0 ** -20]


def in_unit(f, J, U):
    """The same functions of unknowns measured in another unit (a power of two)."""
    return (lambda x: f(x / U)), (lambda x: J(x / U) / U)


@st.composite
def strat_single(draw):
    z = sorted(draw(st.lists(st.integers(-16, 16).map(lambda k: k / 8), min_size=1, max_size=3, unique=True)))
    kind = draw(st.sampled_from(["linear", "poly", "poly", "cubic", "sin", "exp"]))
    r = draw(st.sampled_from([1e-3, 0.05, 0.3, 1.0, 3.0]))
    c = draw(st.one_of(st.sampled_from(z), st.integers(-24, 24).map(lambda k: k / 8)))
    f = st.integers(0, 16).map(lambda k: k / 16)
    return {"kind": kind, "z": z, "s": draw(st.sampled_from([1.0, -1.0, 2.5, 0.1, 4.0])), "m": float(draw(st.integers(-3, 3))),
            "x0": [c - r * draw(f), c + r * draw(f)], "maxiter": draw(st.sampled_from([0, 1, 2, 5, 2000])),
            "tol": draw(st.sampled_from([1e-12, 1e-12, 1e-3])), "U": draw(st.sampled_from(UNITS))}


def single(case):
    k, z, s, m = case["kind"], case["z"], case["s"], case["m"]
    z0 = z[0]
    if k == "linear":
        return (lambda x: (x - z0) * s), (lambda x: ip.Interval(s, s)), [z0]
    if k == "cubic":
        return (lambda x: (x - z0) ** 3 + (x - z0) * abs(s)), (lambda x: 3 * (x - z0) ** 2 + abs(s)), [z0]
    if k == "sin":
        return (lambda x: np.sin(x - z0) * s + m * (x - z0)), (lambda x: s * np.cos(x - z0) + m), [z0]
    if k == "exp":
        return (lambda x: s * (np.exp(x - z0) - 1)), (lambda x: s * np.exp(x - z0)), [z0]

    def f(x):
        p = s
        for v in z:
            p = p * (x - v)
        return p

    def J(x):
        t = 0
        for i in range(len(z)):
            p = s
            for j, v in enumerate(z):
                if j != i:
                    p = p * (x - v)
            t = t + p
        return ip.asinterval(t)
    return f, J, z


METHODS = (("Krawczyk", ip.Krawczyk), ("HansenSengupta", ip.HansenSengupta))


def run(nm, method, f, J, x0, case):
    try:
        return method(f, J, x0, maxiter=case["maxiter"], tol=case["tol"]), None
    except Exception as e:
        return None, e


def check_single(case):
    f, J, zeros = single(case)
    a, b = case["x0"]
    if a > b:
        raise Skip()
    U = case.get("U", 1.0)
    if U != 1:
        f, J = in_unit(f, J, U)
        a, b, zeros = a * U, b * U, [z * U for z in zeros]
    big = max(1.0, U)
    x0 = ip.Interval(a, b)
    inside = [z for z in zeros if a <= z <= b]
    labels = []
    mid = (a + b) / 2
    L0 = J(x0)
    Lm = (L0.a + L0.b) / 2
    good = bool(inside) and Lm != 0 and max(abs(1 - L0.a / Lm), abs(1 - L0.b / Lm)) <= 0.4
    for nm, method in METHODS:
        x, e = run(nm, method, f, J, x0, case)
        require((x0.a, x0.b) == (a, b), "%s changed the starting interval to %r", nm, x0)
        if e is not None:
            require(not good, "%s raised %s: %s although its operator contracts on %r", nm, type(e).__name__, e, x0)
            if inside:
                require("не содержит решений" not in str(e), "%s found no zero in %r, which contains %r", nm, x0, inside)
            labels.append("raised")
            continue
        xa, xb = float(x.a), float(x.b)
        if inside:
            for z in inside:
                t = 1e-12 * (big + abs(z))
                require(xa - t <= z <= xb + t, "%s lost the zero %r of %r in %r: returned %r", nm, z, case["kind"], x0, x)
        elif np.isnan(xa):
            labels.append("empty")
            continue
        require(a - 1e-14 <= xa and xb <= b + 1e-14 and xa <= xb, "%s: %r leaves the starting interval %r", nm, x, x0)
        if good and case["maxiter"] >= 2000:
            t = 1e-10 if case["tol"] < 1e-6 else 10 * case["tol"]
            require(xb - xa <= t * (big + abs(xa)), "%s: %r has not converged to the zero %r", nm, x, inside)
            labels.append("converged")
        else:
            labels.append("%d zeros" % len(inside))
    return labels if inside else None


@st.composite
def strat_system(draw):
    n = draw(st.integers(1, 3))
    M = draw(st.lists(st.lists(st.integers(-4, 4).map(lambda k: k / 2), min_size=n, max_size=n), min_size=n, max_size=n))
    for i in range(n):
        M[i][i] = draw(st.sampled_from([2.0, 3.0, 5.0, -2.0, -4.0])) if draw(st.integers(0, 3)) else M[i][i]
    z = draw(st.lists(st.integers(-16, 16).map(lambda k: k / 8), min_size=n, max_size=n))
    r = draw(st.sampled_from([1e-3, 0.03, 0.2, 1.0]))
    f = st.integers(0, 16).map(lambda k: k / 16)
    shift = draw(st.sampled_from([0.0, 0.0, 0.0, 0.0, 2.5])) * r
    return {"M": M, "z": z, "e": draw(st.sampled_from([0.0, 0.125, 1.0, -1.0])), "g": draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])),
            "x0": [[v + shift - r * draw(f), v + shift + r * draw(f)] for v in z],
            "maxiter": draw(st.sampled_from([0, 1, 2, 5, 2000])), "tol": draw(st.sampled_from([1e-12, 1e-12, 1e-3])),
            "plain": draw(st.booleans()), "U": draw(st.sampled_from(UNITS))}


@st.composite
def strat_large(draw):
    """4-10 unknowns; the linear part dominates by its diagonal, in a permuted order of the equations, or does not."""
    n = draw(st.integers(4, 10))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    M = rng.integers(-4, 5, (n, n)) / 2 * (rng.random((n, n)) < rng.choice([0.4, 1.0]))
    if draw(st.integers(0, 3)):
        for i, j in enumerate(rng.permutation(n)):
            M[i, j] = rng.choice([-1.0, 1.0]) * (n + rng.integers(0, 6))
    z = rng.integers(-16, 17, n) / 8
    r = draw(st.sampled_from([1e-3, 0.03, 0.2, 1.0]))
    shift = draw(st.sampled_from([0.0, 0.0, 0.0, 0.0, 2.5])) * r
    d = rng.integers(0, 17, (n, 2)) / 16 * r
    return {"M": M.tolist(), "z": z.tolist(), "e": draw(st.sampled_from([0.0, 0.125, 1.0, -1.0])), "g": draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])),
            "x0": np.c_[z + shift - d[:, 0], z + shift + d[:, 1]].tolist(),
            "maxiter": draw(st.sampled_from([1, 3, 2000, 2000])), "tol": draw(st.sampled_from([1e-12, 1e-12, 1e-3])),
            "plain": draw(st.booleans()), "U": draw(st.sampled_from(UNITS))}


def system(case):
    M, z, e, g = np.array(case["M"]), np.array(case["z"]), case["e"], case["g"]
    n = len(z)

    def f(x):
        d = ip.asinterval(x) - z
        out = M @ d
        for i in range(n):
            out[i] = out[i] + e * d[i] ** 2 + g * d[i] * d[(i + 1) % n]
        return out

    def J(x):
        d = ip.asinterval(x) - z
        A = ip.asinterval(M.copy())
        for i in range(n):
            j = (i + 1) % n
            A[i, i] = A[i, i] + 2 * e * d[i] + g * d[j]
            A[i, j] = A[i, j] + g * d[i]
        if case["plain"] and e == g == 0:
            return M.copy()
        return A
    return f, J


def check_system(case):
    f, J = system(case)
    box = np.array(case["x0"])
    if np.any(box[:, 0] > box[:, 1]):
        raise Skip()
    z = np.array(case["z"])
    n = len(z)
    U = case.get("U", 1.0)
    if U != 1:
        f, J = in_unit(f, J, U)
        box, z = box * U, z * U
    big = max(1.0, U)
    x0 = ip.Interval(box)
    inside = bool(np.all(box[:, 0] <= z) and np.all(z <= box[:, 1]))
    L = ip.asinterval(J(x0)).to_float()
    Lm = (np.asarray(L.a, float) + np.asarray(L.b, float)) / 2
    good = False
    if inside and abs(np.linalg.det(Lm * U)) > 1e-3 and np.linalg.cond(Lm) < 50:
        R = np.linalg.inv(Lm)
        B = abs(R) @ ((L.b - L.a) / 2)
        good = np.max(B.sum(1)) <= 0.4
    labels = []
    for nm, method in METHODS:
        x, e = run(nm, method, f, J, x0, case)
        require(np.array_equal(x0.a, box[:, 0]) and np.array_equal(x0.b, box[:, 1]), "%s changed the starting box to %r", nm, x0)
        if e is not None:
            require(not good, "%s raised %s: %s although its operator contracts on %r", nm, type(e).__name__, e, x0)
            if inside:
                require("не содержит решений" not in str(e), "%s found no zero in %r, which contains %r", nm, x0, z)
            labels.append("raised")
            continue
        xa, xb = np.asarray(x.a, dtype=float), np.asarray(x.b, dtype=float)
        require(xa.shape == (n,), "%s returned %r", nm, x)
        if inside:
            t = 1e-12 * (big + abs(z))
            require(np.all(xa - t <= z) and np.all(z <= xb + t), "%s lost the zero %r in %r: returned %r", nm, z, x0, x)
        elif np.isnan(xa).any():
            labels.append("empty")
            continue
        require(np.all(box[:, 0] - 1e-14 <= xa) and np.all(xb <= box[:, 1] + 1e-14) and np.all(xa <= xb),
                "%s: %r leaves the starting box %r", nm, x, x0)
        if good and case["maxiter"] >= 2000:
            t = 1e-10 if case["tol"] < 1e-6 else 10 * case["tol"]
            require(np.all(xb - xa <= t * (big + abs(z))), "%s: %r has not converged to the zero %r", nm, x, z)
            labels.append("converged")
        else:
            labels.append("zero inside" if inside else "no known zero")
    return labels if inside else None


# ---- zeros that are no doubles: nothing may be lost by rounding ------------------------------------------------------
mpmath.mp.prec = 300
mpf = mpmath.mpf
EPS = mpf(2) ** -220           # accuracy of the reference zeros


@st.composite
def strat_rigorous(draw):
    num = st.one_of(st.floats(0.3, 3), st.integers(1, 30).map(lambda k: k / 10))
    kind = draw(st.sampled_from(["cubic", "sin", "exp", "quotient", "linear", "system", "system"]))
    f = st.integers(1, 16).map(lambda k: k / 16)
    return {"kind": kind, "p": draw(num), "q": draw(num), "t": draw(num) * draw(st.sampled_from([1.0, -1.0])), "u": draw(num),
            "r": [draw(st.sampled_from([1e-3, 0.02, 0.1])) * draw(f) for _ in range(4)], "sign": draw(st.sampled_from([1.0, -1.0])),
            "maxiter": draw(st.sampled_from([1, 3, 2000, 2000, 2000])), "tol": draw(st.sampled_from([1e-12, 1e-12, 1e-9, 1e-6]))}


def check_rigorous(case):
    k, p, q, t, u, sg = (case[c] for c in ("kind", "p", "q", "t", "u", "sign"))
    r = case["r"]
    if k == "system":
        def f(x, lib=None):
            return [x[0] ** 2 * p + x[1] * q - t, x[0] * q - x[1] ** 2 * u - 0.7 * x[1] - sg]

        def F(x):
            return ip.asinterval(f(x))

        def J(x):
            return ip.asinterval([[2 * p * x[0], ip.Interval(q, q)], [ip.Interval(q, q), -(2 * u * x[1]) - 0.7]])
        z = [mpf(0.9), mpf(0.8)]
        for _ in range(60):
            a, b, c, d = 2 * p * z[0], mpf(q), mpf(q), -2 * u * z[1] - mpf(0.7)
            D = a * d - b * c
            if abs(D) < 1e-3 or max(abs(v) for v in z) > 50:
                return None
            g = f(z)
            z = [z[0] - (d * g[0] - b * g[1]) / D, z[1] - (a * g[1] - c * g[0]) / D]
        if max(abs(v) for v in f(z)) > mpf(2) ** -240 or max(abs(v) for v in z) > 50:
            return None
        x0 = ip.Interval([float(z[0]) - r[0], float(z[1]) - r[1]], [float(z[0]) + r[2], float(z[1]) + r[3]])
    else:
        fs = {"linear": lambda x, e: x * p - t,
              "cubic": lambda x, e: x * x * x * p + x * q - t,
              "sin": lambda x, e: e.sin(x) * p + x * (p + q) - t,
              "exp": lambda x, e: e.exp(x) * p + x * q - t,
              "quotient": lambda x, e: x * p - q / (x * x + 1) * u}
        ds = {"linear": lambda x: ip.Interval(p, p) + 0 * x, "cubic": lambda x: 3 * p * x ** 2 + q, "sin": lambda x: p * ip.cos(x) + p + q,
              "exp": lambda x: p * ip.exp(x) + q, "quotient": lambda x: p + 2 * q * u * x / (x * x + 1) ** 2}

        def F(x):
            return sg * fs[k](x, ip)

        def J(x):
            return sg * ds[k](x)
        lo, hi = mpf(-60), mpf(60)                      # increasing functions, except quotient, whose zero is positive
        if k == "quotient":
            lo = mpf(0)
        for _ in range(330):
            m = (lo + hi) / 2
            lo, hi = (m, hi) if fs[k](m, mpmath) < 0 else (lo, m)
        z = [lo]
        x0 = ip.Interval(float(lo) - r[0], float(lo) + r[1])
    labels = []
    for nm, method in METHODS:
        x, e = run(nm, method, F, J, x0, case)
        if e is not None:
            require("не содержит решений" not in str(e), "%s found no zero in %r, which contains %s", nm, x0, z)
            labels.append("raised")
            continue
        a, b = np.atleast_1d(np.asarray(x.a, dtype=float)), np.atleast_1d(np.asarray(x.b, dtype=float))
        for i, v in enumerate(z):
            require(mpf(a[i]) <= v + EPS and v - EPS <= mpf(b[i]), "%s lost the zero %s (unknown %d) in %r: returned [%r, %r]", nm,
                    mpmath.nstr(v, 25), i, x0, a[i], b[i])
        labels.append(k + (" sharp" if np.max(b - a) < 1e-13 else ""))
    return labels


PARTS = [
    Part("zero lost by rounding", strat_rigorous, check_rigorous, 350, thorough=25000, shards=4,
         rule="irrational zeros known to 300 bits; the result contains them without any tolerance"),
    Part("one equation", strat_single, check_single, 2000, thorough=25000, shards=4, rule="the starting interval contains a zero"),
    Part("systems", strat_system, check_system, 1100, thorough=12000, shards=4, rule="the starting box contains the zero"),
    Part("large systems", strat_large, check_system, 120, thorough=2500, shards=4, rule="4-10 unknowns; the starting box contains the zero"),
]
