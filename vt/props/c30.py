"""Weighted interval least-deviation regression (WILS)."""
import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
import lin
from core import Part, Skip, require

RULE = ("Training data of up to 7 observations and 3 features (interval or plain numeric matrices, interval or numeric "
        "targets), weights, smoothing parameters alpha and beta, starting points, the objectives Tol, Uni and Uss with the "
        "norms inf and l1, box constraints, several fits of one object, and test data. Oracles: the smoothed weights and the "
        "objective from their formulas, the global optimum of Tol from linear programming, and of Uni and Uss with numbers; best points of an "
        "orthant for Uni and Uss with intervals; the exact range of the linear "
        "function for predictions. Non-trivial: a fit was compared.")
ASSUMPTIONS = ["the subgradient method is allowed a relative error of 1e-4 (inf norm) and 1e-3 (l1 norm, constraints) of the optimum of Tol, where there are at "
               "least as many observations as features; Uni and Uss are not concave: of 20 results of theirs at most 5 may fail to be the best of their orthant (about 1 in 250 does), unless the matrix consists of numbers"]


def smoothed(w, alpha, beta):
    w = list(w)
    w[0] = beta * w[0] * (1 - alpha)
    for k in range(1, len(w)):
        w[k] = beta * (w[k] * (1 - alpha) + alpha * w[k - 1])
    return np.array(w)


@st.composite
def strat(draw):
    case = draw(lin.any_system(3, 7, draw(st.sampled_from([1, 2]))))
    m, n = len(case["b"]), len(case["A"][0])
    case.update(w=draw(st.one_of(st.none(), st.lists(st.sampled_from([0.25, 0.5, 1.0, 2.0, 3.0]), min_size=m, max_size=m))),
                x0=draw(st.one_of(st.none(), st.none(), st.lists(st.integers(-5, 5).map(float), min_size=n, max_size=n))),
                alpha=draw(st.sampled_from([0, 0, 0.25, 0.5])), beta=draw(st.sampled_from([1, 1, 0.5, 2])),
                objective=draw(st.sampled_from([None, "Tol", "Tol", "Uni", "Uss"])), norm=draw(st.sampled_from([None, "inf", "l1"])),
                maxiter=draw(st.sampled_from([None, None, None, 0, 3, 50])), point=draw(st.sampled_from(["", "", "", "A", "b"])),
                twice=draw(st.booleans()))
    p = st.integers(-10, 10)
    case["test"] = [[[a / 4, (a + draw(st.integers(0, 8))) / 4] for a in draw(st.lists(p, min_size=n, max_size=n))]
                    for _ in range(draw(st.integers(1, 3)))]
    if draw(st.integers(0, 3)) == 0:
        c = draw(st.lists(st.integers(-4, 4).map(float), min_size=n, max_size=n))
        h = st.integers(1, 8).map(lambda k: k / 2)
        case["lb"] = [None if draw(st.integers(0, 4)) == 0 else v - draw(h) for v in c]
        case["ub"] = [None if draw(st.integers(0, 4)) == 0 else v + draw(h) for v in c]
    return case


@st.composite
def strat_large(draw):
    """4-6 features, up to 36 observations, the objective Tol."""
    case, rng = draw(lin.large_system(4, 6, 2, 36))
    m, n = len(case["b"]), len(case["A"][0])
    case.update(w=draw(st.sampled_from([None, rng.choice([0.25, 0.5, 1.0, 2.0, 3.0], m).tolist()])),
                x0=draw(st.sampled_from([None, None, rng.integers(-5, 6, n).astype(float).tolist()])),
                alpha=draw(st.sampled_from([0, 0, 0.25, 0.5])), beta=draw(st.sampled_from([1, 1, 0.5, 2])),
                objective=draw(st.sampled_from([None, "Tol"])), norm=draw(st.sampled_from([None, "inf", "l1"])), maxiter=None,
                point=draw(st.sampled_from(["", "", "", "A", "b"])), twice=draw(st.integers(0, 3)) == 0)
    t = rng.integers(-10, 11, (draw(st.integers(1, 40)), n)) / 4
    case["test"] = np.stack([t, t + rng.integers(0, 9, t.shape) / 4], axis=-1).tolist()
    return case


def check(case):
    Al, Ah, bl, bh = lin.arrays(case)
    m, n = Al.shape
    if not np.any(Al) and not np.any(Ah) and "lb" not in case:
        raise Skip()
    A, b = ip.Interval(Al, Ah), ip.Interval(bl, bh)
    if case["point"] == "A":
        Ah = Al
        A = Al.copy()
    elif case["point"] == "b":
        bh = bl
        b = bl.copy()
    w1 = np.ones(m) if case["w"] is None else np.array(case["w"])
    ws = smoothed(w1, case["alpha"], case["beta"])
    kw = {}
    if case["w"] is not None:
        kw["weight"] = w1.copy()
    if case["x0"] is not None:
        kw["x0"] = np.array(case["x0"])
    for k in ("objective", "norm", "maxiter"):
        if case[k] is not None:
            kw[k] = case[k]
    obj, norm = case["objective"] or "Tol", case["norm"] or "inf"
    lb = ub = None
    constrained = "lb" in case
    if constrained:
        lb = np.array([-np.inf if v is None else v for v in case["lb"]])
        ub = np.array([np.inf if v is None else v for v in case["ub"]])
        kw["constraint"] = ip.LinearConstraint(np.eye(n), lb=lb.copy(), ub=ub.copy())
    model = ip.WILS(alpha=case["alpha"], beta=case["beta"])
    if case["twice"]:
        # an earlier fit to other data must not have any influence
        model.fit(ip.Interval(Al / 64 + 1, Ah / 64 + 1), ip.Interval(bl, bh), **dict(kw, maxiter=3))
    model.fit(A, b, **kw)
    e = model.estimator
    require(set(e) == {"xr", "fr", "nit", "ncalls", "ccode"}, "the estimator is %r", e)
    xr, fr = np.asarray(e["xr"], dtype=float), float(e["fr"])
    require(xr.shape == (n,) and e["ccode"] in (1, 2, 3, 4, 5) and e["ncalls"] >= 1, "the estimator is %r", e)
    # nothing was changed
    for got, want, what in ((A, (Al, Ah), "matrix"), (b, (bl, bh), "right-hand side")):
        require(np.array_equal(ip.inf(got), want[0]) and np.array_equal(ip.sup(got), want[1]), "the %s became %r", what, got)
    if "weight" in kw:
        require(np.array_equal(kw["weight"], w1), "the weights became %r", kw["weight"])
    if "x0" in kw:
        require(np.array_equal(kw["x0"], case["x0"]), "the starting point became %r", kw["x0"])
    if constrained:
        require(kw["constraint"].mu is None, "the penalty factor of the caller's constraint became %r", kw["constraint"].mu)
    # predictions
    T = np.array(case["test"], dtype=float)
    if not np.all(np.isfinite(xr)) or abs(xr).max() > 1e8:
        require(obj == "Uss" or obj == "Uni" or m < n, "the estimate is %r", xr)
        return ["unbounded"]
    y = model.predict(ip.Interval(T[..., 0], T[..., 1]))
    lo = np.where(xr >= 0, T[..., 0], T[..., 1]) @ xr
    hi = np.where(xr >= 0, T[..., 1], T[..., 0]) @ xr
    s = 1e-12 * (1 + abs(T).max()) * (1 + abs(xr).max())
    require(y.shape == (len(T),) and np.all(abs(y.a.astype(float) - lo) <= s) and np.all(abs(y.b.astype(float) - hi) <= s),
            "the prediction is %r, the exact one is [%r, %r]", y, lo, hi)
    y = model.predict(T[..., 0])
    require(np.allclose(np.asarray(y, dtype=float), T[..., 0] @ xr, rtol=1e-12, atol=s), "the prediction is %r, not %r", y, T[..., 0] @ xr)
    # the objective at the returned point
    c = lin.constituents(obj, Al, Ah, bl, bh, xr, ws)
    v = c.min() if norm == "inf" else c.sum()
    big = (1 + abs(xr).max()) * (1 + abs(v))
    labels = [obj + " " + norm]
    if constrained:
        viol = max(0, np.max(xr - ub), np.max(lb - xr))
        require(fr <= v + 1e-9 * big, "the value is %r, the objective at %r is %r", fr, xr, v)
        if viol == 0:
            require(abs(fr - v) <= 1e-9 * big, "the value is %r, the objective at %r is %r", fr, xr, v)
    else:
        require(abs(fr - v) <= 1e-9 * big, "the value of %s (norm %s) is %r, the objective at %r is %r", obj, norm, fr, xr, v)
        if case["x0"] is not None:
            c0 = lin.constituents(obj, Al, Ah, bl, bh, np.array(case["x0"]), ws)
            v0 = c0.min() if norm == "inf" else c0.sum()
            require(fr >= v0 - 1e-9 * (1 + abs(v0)), "%r at the start, %r returned", v0, fr)
    same = np.array_equal(Al, Ah) and np.linalg.matrix_rank(Al) == n       # with numbers Uni and Uss are the same functional
    if (obj == "Tol" or same) and m >= n and case["maxiter"] is None and e["ccode"] != 5:
        o = lin.tol_lp(Al, Ah, bl, bh, ws, norm, lb, ub)
        if o is not None:
            t = (1e-4 if norm == "inf" and not constrained else 3e-3) * (1 + abs(o))
            require(v <= o + (3e-3 * (1 + abs(o)) if constrained else 1e-7 * (1 + abs(o))), "the objective %r at %r is better than the optimum %r", v, xr, o)
            require(fr >= o - t, "the optimum is %r, found %r at %r (code %r)", o, fr, xr, e["ccode"])
            if constrained:
                require(viol <= 3e-3 * (1 + abs(o)), "the estimate %r violates [%r, %r]", xr, lb, ub)
            labels.append("optimum" if obj == "Tol" else "optimum of %s with numbers" % obj)
            if constrained:
                labels.append("constrained optimum")
            if obj == "Tol" and norm == "inf" and not constrained and case["point"] == "":
                _, f2, _, _, cc = ip.Tol.maximize(A, b, weight=ws)
                require(cc == 5 or abs(f2 - fr) <= 2e-4 * (1 + abs(o)), "WILS found %r, Tol.maximize %r", fr, f2)
    if constrained and case["maxiter"] is None:
        labels.append("constrained")
    return labels


def check_share(case):
    """Uni and Uss are concave in every orthant: nearly all results are the best of their orthant."""
    good, bad = {}, {}
    for Al, Ah, bl, bh, w in lin.random_systems(case["seed"], 20):
        for kn in (("Uni", "inf"), ("Uni", "l1"), ("Uss", "inf"), ("Uss", "l1")):
            model = ip.WILS()
            model.fit(ip.Interval(Al, Ah), ip.Interval(bl, bh), weight=w, objective=kn[0], norm=kn[1])
            x = np.asarray(model.estimator["xr"], dtype=float)
            t = lin.best_of_orthant(kn[0], Al, Ah, bl, bh, w, kn[1], x)
            if t:
                good[kn] = good.get(kn, 0) + 1
            elif t is not None:
                bad.setdefault(kn, []).append((x, model.estimator["ccode"], Al, Ah, bl, bh, w))
    for kn in bad:
        require(len(bad[kn]) < 6, "%s: %r of %r results are not the best of their orthant, such as %r (code %r) for A in [%r, %r], b in [%r, %r], "
                "weights %r", kn, len(bad[kn]), len(bad[kn]) + good.get(kn, 0), *bad[kn][0])
    return sorted("%s %s" % kn + (" all" if kn not in bad else " nearly all") for kn in good)


def strat_share():
    return st.fixed_dictionaries({"seed": st.integers(0, 10 ** 9)})


PARTS = [Part("share", strat_share, check_share, 12, thorough=1000, shards=4,
              rule="20 systems each: Uni and Uss are, but for a few, the best of their orthant"),
         Part("fits", strat, check, 800, thorough=12000, shards=8, rule="a fit was compared"),
         Part("large fits", strat_large, check, 60, thorough=1500, shards=4, rule="4-6 features, up to 36 observations; a fit was compared")]
