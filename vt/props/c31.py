"""Interval polynomial regression (ISPAE)."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.optimize import linprog

import intvalpy as ip
import lin
from core import Part, Skip, require

RULE = ("Data frames (and arrays of numbers) of up to 8 observations of 1-2 features, interval or numeric features and targets, orders 1-4 "
        "per feature, the five bases, with and without intercept, weights, smoothing, starting points, both objectives and "
        "norms, iteration limits. Oracles: exact polynomial ranges from the critical points, the objective's formula at the "
        "returned coefficients, linear programming for the optimum of Tol when the features are numbers, sampled points for "
        "predictions. Non-trivial: a range with a critical point inside, or a fit.")
ASSUMPTIONS = ["the optimum is only required where the objective is concave and its subgradient exact: Tol over point features, and order one in the monomial basis without an order effect",
               "relative tolerance 1e-9 (values) and 1e-3 (optimum)"]

BASES = {"monom": np.polynomial.polynomial.Polynomial, "chebyshev": np.polynomial.chebyshev.Chebyshev,
         "hermite": np.polynomial.hermite.Hermite, "laguerre": np.polynomial.laguerre.Laguerre,
         "legendre": np.polynomial.legendre.Legendre}


def poly_of(basis, coef, degs):
    """Ordinary polynomial (numpy Polynomial) sum coef_j * basis_degs_j."""
    p = np.polynomial.Polynomial([0.0])
    for c, d in zip(coef, degs):
        p = p + float(c) * BASES[basis].basis(int(d)).convert(kind=np.polynomial.Polynomial)
    return p


def prange(p, lo, hi):
    """Range of p over [lo, hi]: critical points with a negligible imaginary part."""
    c = p.deriv().roots() if p.degree() > 0 else np.array([])
    pts = [lo, hi] + [float(np.clip(r.real, lo, hi)) for r in c if abs(r.imag) <= 1e-5 * (1 + abs(r)) and lo - 1e-9 <= r.real <= hi + 1e-9]
    v = p(np.array(pts))
    return v.min(), v.max(), len(pts) > 2


def scale(p, lo, hi):
    x = max(abs(lo), abs(hi), 1.0)
    return float(np.polynomial.Polynomial(abs(p.coef))(x)) + 1.0


num = st.integers(-12, 12).map(lambda k: k / 4)


@st.composite
def strat_value(draw):
    k = draw(st.integers(1, 5))
    degs = draw(st.one_of(st.none(), st.lists(st.integers(1, 6), min_size=k, max_size=k, unique=True)))
    x = [[a, a + w] for a, w in draw(st.lists(st.tuples(num, st.one_of(st.just(0.0), st.integers(1, 16).map(lambda k: k / 4))), min_size=1, max_size=4))]
    return {"basis": draw(st.sampled_from(sorted(BASES))), "beta": draw(st.lists(num, min_size=k, max_size=k)), "degs": degs, "x": x,
            "series": draw(st.booleans())}


def check_value(case):
    beta, degs = case["beta"], case["degs"] or list(range(1, len(case["beta"]) + 1))
    if not any(beta):
        raise Skip()
    p = poly_of(case["basis"], beta, degs)
    X = ip.Interval(case["x"])
    if case["series"]:
        X = pd.Series(list(X.data))
    model = ip.ISPAE(basis=case["basis"])
    kw = {} if case["degs"] is None else {"deg": np.array(case["degs"])}
    y = model.value_of_one_col(np.array(beta), X, **kw)
    require(len(y) == len(case["x"]), "%r values for %r inputs", len(y), len(case["x"]))
    inner = False
    for k, (lo, hi) in enumerate(case["x"]):
        a, b, c = prange(p, lo, hi)
        s = 1e-9 * scale(p, lo, hi)
        require(abs(y[k].a - a) <= s and abs(y[k].b - b) <= s, "%s polynomial with coefficients %r (degrees %r) over [%r, %r]: %r, "
                "its range is [%r, %r]", case["basis"], beta, degs, lo, hi, y[k], a, b)
        inner |= c
    return case["basis"] if inner else None


@st.composite
def strat_fit(draw):
    m, n = draw(st.integers(2, 8)), draw(st.integers(1, 2))
    point = draw(st.booleans())
    w = st.just(0.0) if point else st.one_of(st.just(0.0), st.integers(0, 8).map(lambda k: k / 8))
    X = [[[a, a + draw(w)] for a in draw(st.lists(num, min_size=n, max_size=n))] for _ in range(m)]
    y = [[c, c + draw(st.integers(0, 16)) / 4] for c in draw(st.lists(st.integers(-20, 20).map(lambda k: k / 2), min_size=m, max_size=m))]
    order = draw(st.one_of(st.integers(1, 3), st.lists(st.integers(1, 4), min_size=n, max_size=n)))
    bias = draw(st.booleans())
    orders = [order] * n if isinstance(order, int) else order
    N = sum(orders) + bias
    t = [[[a, a + draw(st.integers(0, 8)) / 8] for a in draw(st.lists(num, min_size=n, max_size=n))] for _ in range(draw(st.integers(1, 3)))]
    return {"X": X, "y": y, "order": order, "bias": bias, "basis": draw(st.sampled_from(sorted(BASES) + ["monom", "monom"])),
            "w": draw(st.one_of(st.none(), st.lists(st.sampled_from([0.5, 1.0, 2.0, 3.0]), min_size=m, max_size=m))),
            "x0": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(-3, 3).map(float), min_size=N, max_size=N))),
            "alpha": draw(st.sampled_from([0, 0, 0.25, 0.5])), "beta": draw(st.sampled_from([1, 1, 0.5, 2])),
            "objective": draw(st.sampled_from(["Tol", "Tol", "Uni", None])), "norm": draw(st.sampled_from(["inf", None, "l1"])),
            "maxiter": draw(st.sampled_from([None, None, 20, 3, 0] if point else [20, 5, 1, 0])), "plain": draw(st.booleans()),
            "test": t, "defaults": draw(st.integers(0, 1)), "twice": draw(st.booleans())}


def frame(X, plain, names="x%d"):
    X = np.array(X, dtype=float)
    if plain:
        return X[..., 0].copy()
    return pd.DataFrame({(names % j if names else j): list(ip.Interval(X[:, j, 0], X[:, j, 1]).data) for j in range(X.shape[1])})


def ranges(basis, orders, bias, beta, X):
    """Exact range of the additive polynomial over every row of X, and a magnitude."""
    X = np.array(X, dtype=float)
    lo, hi, s = np.zeros(len(X)), np.zeros(len(X)), 1.0
    k = 0
    if bias:
        at = 0.0 if basis == "laguerre" else 1.0
        v = beta[0] * BASES[basis].basis(1)(at)
        lo, hi, k = lo + v, hi + v, 1
        s += abs(v)
    for j, o in enumerate(orders):
        p = poly_of(basis, beta[k:k + o], range(1, o + 1))
        for i in range(len(X)):
            a, b, _ = prange(p, *X[i, j])
            lo[i] += a
            hi[i] += b
            s = max(s, scale(p, *X[i, j]))
        k += o
    return lo, hi, s


def objective(kind, norm, lo, hi, bl, bh, w):
    bm, br = (bl + bh) / 2, (bh - bl) / 2
    if kind == "Tol":
        c = w * (br - np.maximum(abs(bm - lo), abs(bm - hi)))
    else:
        c = w * (br - np.where((bm - hi) * (bm - lo) <= 0, 0, np.minimum(abs(bm - lo), abs(bm - hi))))
    return c.min() if norm == "inf" else c.sum()


def design(basis, orders, bias, P):
    cols = []
    if bias:
        cols.append(np.full(len(P), BASES[basis].basis(1)(0.0 if basis == "laguerre" else 1.0)))
    for j, o in enumerate(orders):
        cols += [BASES[basis].basis(d)(P[:, j]) for d in range(1, o + 1)]
    return np.array(cols).T


def check_fit(case):
    X, y = np.array(case["X"], dtype=float), np.array(case["y"], dtype=float)
    m, n = X.shape[:2]
    order = case["order"]
    orders = [order] * n if isinstance(order, int) else order
    N = sum(orders) + case["bias"]
    point = bool(np.all(X[..., 0] == X[..., 1]))
    plain = case["plain"] and point
    names = "" if plain else "x%d"
    D = frame(case["X"], plain)
    Y = ip.Interval(y)
    w1 = np.ones(m) if case["w"] is None else np.array(case["w"])
    ws = list(w1)
    ws[0] = case["beta"] * ws[0] * (1 - case["alpha"])
    for k in range(1, m):
        ws[k] = case["beta"] * (ws[k] * (1 - case["alpha"]) + case["alpha"] * ws[k - 1])
    ws = np.array(ws)
    kw = {"order": order}
    if not case["bias"] or case["defaults"] == 0:
        kw["bias"] = case["bias"]
    if order == 3 and case["defaults"]:
        del kw["order"]
    if case["w"] is not None:
        kw["weight"] = w1.copy()
    if case["x0"] is not None:
        kw["x0"] = np.array(case["x0"])
    for k in ("objective", "norm", "maxiter"):
        if case[k] is not None:
            kw[k] = case[k]
    model = ip.ISPAE(alpha=case["alpha"], beta=case["beta"], basis=case["basis"])
    if case["twice"]:
        model.fit(frame(np.repeat((X + 1)[:, :1], 2, axis=1), False), Y, order=2, bias=not case["bias"], maxiter=1)
    D0 = D.copy()
    model.fit(D, Y, **kw)
    e = model.estimator
    xr, fr = np.asarray(e["xr"], dtype=float), float(e["fr"])
    require(xr.shape == (N,) and e["ccode"] in (1, 2, 3, 4, 5), "the estimator is %r", e)
    if isinstance(D, pd.DataFrame):
        require(list(D.columns) == list(D0.columns) and D.shape == D0.shape and all(
            (D.iloc[i, j].a, D.iloc[i, j].b) == tuple(X[i, j]) for i in range(m) for j in range(n)), "the features became %r", D)
    else:
        require(np.array_equal(D, X[..., 0]), "the features became %r", D)
    require(np.array_equal(Y.a, y[:, 0]) and np.array_equal(Y.b, y[:, 1]), "the targets became %r", Y)
    require(case["w"] is None or np.array_equal(kw["weight"], w1), "the weights became %r", kw.get("weight"))
    require(case["x0"] is None or np.array_equal(kw["x0"], case["x0"]), "the starting point became %r", kw.get("x0"))
    if not np.all(np.isfinite(xr)) or abs(xr).max() > 1e7:
        return ["unbounded"]
    obj, norm = case["objective"] or "Tol", case["norm"] or "inf"
    lo, hi, s = ranges(case["basis"], orders, case["bias"], xr, X)
    v = objective(obj, norm, lo, hi, y[:, 0], y[:, 1], ws)
    tol = 1e-8 * (s + abs(v)) * max(1.0, ws.max()) * m
    require(abs(fr - v) <= tol, "the value of %s (norm %s) is %r, the objective at %r is %r", obj, norm, fr, xr, v)
    if case["x0"] is not None:
        l0, h0, s0 = ranges(case["basis"], orders, case["bias"], np.array(case["x0"]), X)
        v0 = objective(obj, norm, l0, h0, y[:, 0], y[:, 1], ws)
        require(fr >= v0 - 1e-8 * (s0 + abs(v0)) * m * max(1.0, ws.max()), "%r at the start, %r returned", v0, fr)
    # predictions enclose the fitted polynomial, and are exact for order one and for numbers
    T = np.array(case["test"], dtype=float)
    lo, hi, s = ranges(case["basis"], orders, case["bias"], xr, T)
    out = model.predict(frame(case["test"], False, names))
    require(len(out) == len(T), "%r predictions for %r rows", len(out), len(T))
    if n > 1 and not plain:
        # features are found by their names
        q = frame(case["test"], False, names)
        u = model.predict(q[list(q.columns)[::-1]])
        require(all(ip.inf(g) == ip.inf(h) and ip.sup(g) == ip.sup(h) for g, h in zip(out, u)), "%r predicted, with the columns in reverse order %r", out, u)
    t = 1e-8 * s
    a, b = np.asarray(ip.inf(out), dtype=float), np.asarray(ip.sup(out), dtype=float)
    require(np.all(a <= lo + t) and np.all(b >= hi - t), "the prediction is [%r, %r], the fitted polynomial takes [%r, %r]", a, b, lo, hi)
    if max(orders) == 1:
        require(np.all(abs(a - lo) <= t) and np.all(abs(b - hi) <= t), "the prediction is [%r, %r] and not [%r, %r]", a, b, lo, hi)
    out = model.predict(T[..., 0] if plain else pd.DataFrame(T[..., 0], columns=[names % j for j in range(n)]))
    want = design(case["basis"], orders, case["bias"], T[..., 0]) @ xr
    require(np.all(abs(np.asarray(ip.mid(out), dtype=float) - want) <= t) and np.all(np.asarray(ip.rad(out), dtype=float) <= t),
            "the prediction at %r is %r, the fitted polynomial is %r", T[..., 0], out, want)
    labels = [obj + " " + norm, case["basis"]]
    if (obj == "Tol" and max(orders) == 1 or point) and (point or max(orders) == 1) and case["maxiter"] is None and e["ccode"] != 5:
        lo, hi = X[..., 0], X[..., 1]
        if point:
            Al = Ah = design(case["basis"], orders, case["bias"], lo)
        else:
            P, Q = design(case["basis"], orders, case["bias"], lo), design(case["basis"], orders, case["bias"], hi)
            Al, Ah = np.minimum(P, Q), np.maximum(P, Q)
        sv = np.linalg.svd((Al + Ah) / 2, compute_uv=False)
        if m >= N and sv[-1] > 0 and sv[0] / sv[-1] < 1e3 and len(sv) == N:
            Tm = np.ones((m, 1)) if norm == "inf" else np.eye(m)
            bm, br = (y[:, 0] + y[:, 1]) / 2, (y[:, 1] - y[:, 0]) / 2
            r = linprog(np.r_[np.zeros(2 * N), -np.ones(Tm.shape[1])],
                        A_ub=np.vstack([np.hstack([Ah, -Al, Tm / ws[:, None]]), np.hstack([-Al, Ah, Tm / ws[:, None]])]),
                        b_ub=np.hstack([bm + br, -bm + br]), bounds=[(0, None)] * (2 * N) + [(None, None)] * Tm.shape[1])
            if r.status == 0:
                o = -r.fun
                require(fr <= o + 1e-6 * (1 + abs(o)), "the value %r at %r is better than the optimum %r", fr, xr, o)
                require(fr >= o - 3e-3 * (1 + abs(o)), "the optimum is %r, found %r at %r (code %r)", o, fr, xr, e["ccode"])
                labels.append("optimum of " + obj)
    return labels


def check_share(case):
    """Uni of linear models with interval features: nearly all results are the best of their orthant."""
    good, bad = {}, {}
    for Al, Ah, bl, bh, w in lin.random_systems(case["seed"], 16):
        for norm in ("inf", "l1"):
            model = ip.ISPAE(basis=case["basis"])
            D = pd.DataFrame({"x%d" % j: list(ip.Interval(Al[:, j], Ah[:, j]).data) for j in range(Al.shape[1])})
            model.fit(D, ip.Interval(bl, bh), order=1, weight=w, objective="Uni", norm=norm, bias=False, maxiter=400)
            x = np.asarray(model.estimator["xr"], dtype=float)
            t = lin.best_of_orthant("Uni", Al, Ah, bl, bh, w, norm, x)
            if t:
                good[norm] = good.get(norm, 0) + 1
            elif t is not None:
                bad.setdefault(norm, []).append((x, model.estimator["ccode"], Al, Ah, bl, bh, w))
    for Al, Ah, bl, bh, w in lin.random_systems(case["seed"] + 1, 8):
        # Tol is concave
        for norm in ("inf", "l1"):
            model = ip.ISPAE(basis=case["basis"])
            D = pd.DataFrame({"x%d" % j: list(ip.Interval(Al[:, j], Ah[:, j]).data) for j in range(Al.shape[1])})
            model.fit(D, ip.Interval(bl, bh), order=1, weight=w, norm=norm, bias=False, maxiter=400)
            e = model.estimator
            o = lin.tol_lp(Al, Ah, bl, bh, w, norm)
            if o is not None and e["ccode"] not in (4, 5):
                require(o - 3e-3 * (1 + abs(o)) <= e["fr"] <= o + 1e-6 * (1 + abs(o)), "the optimum of Tol (norm %s) is %r, found %r at %r (code %r) "
                        "for A in [%r, %r], b in [%r, %r], weights %r", norm, o, e["fr"], e["xr"], e["ccode"], Al, Ah, bl, bh, w)
                good["Tol " + norm] = good.get("Tol " + norm, 0) + 1
    for k in bad:
        require(len(bad[k]) < 5, "Uni, norm %s: %r of %r results are not the best of their orthant, such as %r (code %r) for A in [%r, %r], b in [%r, %r], "
                "weights %r", k, len(bad[k]), len(bad[k]) + good.get(k, 0), *bad[k][0])
    return sorted(k if k[0] == "T" else "Uni " + k + (" all" if k not in bad else " nearly all") for k in good)


def strat_share():
    return st.fixed_dictionaries({"seed": st.integers(0, 10 ** 9), "basis": st.sampled_from(["monom", "chebyshev", "legendre"])})


PARTS = [
    Part("share", strat_share, check_share, 8, thorough=200, shards=4,
         rule="16 systems each: Uni of a linear model is, but for a few, the best of its orthant"),
    Part("polynomial ranges", strat_value, check_value, 1500, thorough=30000, shards=3, rule="a critical point lies in an interval"),
    Part("fits", strat_fit, check_fit, 400, thorough=6000, shards=6, rule="a fit was compared"),
]
