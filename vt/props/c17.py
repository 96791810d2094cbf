"""Optimisation of the recognizing functionals."""
import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
import lin
from core import Part, Skip, require

RULE = ("Systems up to 6 x 3, and up to 30 x 10 for Tol and ChebNorm, with dyadic data, starting points, weights, "
        "iteration limits, and linear constraints (boxes with missing limits, single two-sided rows, general rows, no "
        "finite limit, explicit penalty factor). Oracles: the maximum of Tol and the minimum of ChebNorm from linear "
        "programming (HiGHS), the maximum of Uss from one linear program per orthant as an upper bound, which "
        "nearly all maxima of Uni and Uss attain in their orthant; one program for all three with a matrix of numbers; the returned "
        "value is the functional at the returned point; feasibility. Non-trivial: an optimum was compared.")
ASSUMPTIONS = ["the subgradient method is allowed a relative error of 1e-4 (3e-3 for underdetermined systems and "
               "constrained problems)", "constraints are feasible with interior; the automatic penalty factor is examined "
               "for boxes and single rows, systems of 2 or 3 general rows are given an explicit one (for the automatic one "
               "see the known finding)"]


@st.composite
def strat(draw):
    case = draw(lin.any_system(3, 6, draw(st.sampled_from([1, 2]))))
    m, n = len(case["b"]), len(case["A"][0])
    case["w"] = draw(st.one_of(st.none(), st.lists(st.sampled_from([0.25, 0.5, 1.0, 2.0, 3.0]), min_size=m, max_size=m)))
    case["x0"] = draw(st.one_of(st.none(), st.lists(st.integers(-5, 5).map(float), min_size=n, max_size=n)))
    return case


@st.composite
def strat_large(draw):
    case, rng = draw(lin.large_system(4, 10, 1, 30))
    if draw(st.booleans()):
        # small tolerable sets: the optimum is near the centre of the right-hand side
        n = draw(st.integers(3, 10))
        m = n + draw(st.integers(0, 12))
        Ac, Ar = lin.large_regular(rng, n, m, rng.choice([0.5, 1e9]))
        x = rng.integers(-8, 9, n) / 2
        bc, br = Ac @ x + rng.integers(-2, 3, m) / 4, Ar @ abs(x) + rng.integers(1, 13, m) / 4
        case = {"A": lin.pairs(Ac - Ar, Ac + Ar), "b": lin.pairs(bc - br, bc + br)}
    m, n = len(case["b"]), len(case["A"][0])
    case["w"] = None if rng.integers(0, 2) else rng.choice([0.25, 0.5, 1.0, 2.0, 3.0], m).tolist()
    case["x0"] = None if rng.integers(0, 2) else rng.integers(-5, 6, n).astype(float).tolist()
    return case


def run(f, A, b, case, **kw):
    Al = A.a.copy(), A.b.copy(), b.a.copy(), b.b.copy()
    w = None if case.get("w") is None else np.array(case["w"])
    x0 = None if case.get("x0") is None else np.array(case["x0"])
    out = f(A, b, x0=x0, weight=w, **kw)
    require(len(out) == 5, "%r", out)
    require(np.array_equal(A.a, Al[0]) and np.array_equal(A.b, Al[1]) and np.array_equal(b.a, Al[2]) and
            np.array_equal(b.b, Al[3]), "the system was changed")
    require(w is None or np.array_equal(w, case["w"]), "the weights were changed")
    require(x0 is None or np.array_equal(x0, case["x0"]), "the starting point was changed")
    return out


def check_free(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b = lin.objects(case)
    m, n = Al.shape
    w1 = np.ones(m) if case["w"] is None else np.array(case["w"])
    w = None if case["w"] is None else w1
    labels = []
    for k, f, sense in (("Tol", ip.Tol.maximize, "tol"), ("ChebNorm", ip.ChebNorm.minimize, "cheb")):
        xr, fr, nit, nc, cc = run(f, A, b, case)
        xr = np.asarray(xr, dtype=float)
        require(xr.shape == (n,) and np.all(np.isfinite(xr)) and np.isfinite(fr), "%s: %r, %r", k, xr, fr)
        require(cc in (1, 2, 3, 4, 5) and 0 <= nit <= 2001 and nc >= 1, "%s: nit %r, ncalls %r, code %r", k, nit, nc, cc)
        v = lin.constituents(k, Al, Ah, bl, bh, xr, w1)
        v = v.max() if k == "ChebNorm" else v.min()
        require(abs(v - fr) <= 1e-9 * (1 + abs(v)), "%s returned the value %r, at the point %r it is %r", k, fr, xr, v)
        u = getattr(ip, k).value(A, b, xr, weight=w)
        require(abs(u - fr) <= 1e-9 * (1 + abs(v)), "%s returned the value %r, %s.value at %r is %r", k, fr, k, xr, u)
        o, _ = lin.functional_lp(Al, Ah, bl, bh, w1, sense)
        if o is None:
            continue
        d = o - fr if sense == "tol" else fr - o
        require(d >= -1e-7 * (1 + abs(o)), "%s: %r is better than the optimum %r", k, fr, o)
        scale = 1 + abs(o)
        if m < n:
            continue
        if cc != 5 and (case["x0"] is None or m >= n):
            require(d <= 1e-4 * scale, "%s: the optimum is %r, found %r at %r (code %r, %r iterations)", k, o, fr, xr, cc,
                    nit)
            labels.append(k)
    return labels or None


def check_local(case):
    """Uni and Uss are not concave: consistency, improvement on the start and the global bound."""
    Al, Ah, bl, bh = lin.arrays(case)
    A, b = lin.objects(case)
    m, n = Al.shape
    w1 = np.ones(m) if case["w"] is None else np.array(case["w"])
    labels = []
    for k in ("Uni", "Uss"):
        f = getattr(ip, k)
        xr, fr, nit, nc, cc = run(f.maximize, A, b, case, maxiter=case["maxiter"])
        xr = np.asarray(xr, dtype=float)
        require(xr.shape == (n,), "%s: %r", k, xr)
        if not np.all(np.isfinite(xr)) or abs(xr).max() > 1e8:
            labels.append("unbounded")
            continue
        v = lin.constituents(k, Al, Ah, bl, bh, xr, w1).min()
        require(abs(v - fr) <= 1e-9 * (1 + abs(v)) * (1 + abs(xr).max()), "%s returned %r, at the point %r it is %r", k, fr, xr, v)
        u = f.value(A, b, xr, weight=None if case["w"] is None else w1)
        require(abs(u - fr) <= 1e-9 * (1 + abs(v)) * (1 + abs(xr).max()), "%s returned %r, %s.value at %r is %r", k, fr, k, xr, u)
        require(nit <= case["maxiter"] + 1, "%s: %r iterations of %r", k, nit, case["maxiter"])
        if case["x0"] is not None:
            s = lin.constituents(k, Al, Ah, bl, bh, np.array(case["x0"]), w1).min()
            require(fr >= s - 1e-10 * (1 + abs(s)), "%s: %r at the start, %r returned", k, s, fr)
        if k == "Uss":
            o = lin.uss_lp(Al, Ah, bl, bh, w1)
            require(fr <= o + 1e-7 * (1 + abs(o)), "Uss: %r exceeds the maximum %r", fr, o)
        else:
            require(fr <= (w1 * (bh - bl) / 2).min() + 1e-9, "Uni: %r exceeds the smallest weighted radius", fr)
        if fr >= 1e-9:
            require(lin.united_member(Al, Ah, bl, bh, xr) >= -1e-9 * (1 + abs(xr).max()), "%s: %r >= 0 at %r, which is no member", k, fr, xr)
        labels.append("%s code %d" % (k, cc))
    return labels


def check_share(case):
    """Uni and Uss are concave in every orthant: nearly all results are the best of their orthant."""
    good, bad = {}, {}
    for Al, Ah, bl, bh, w in lin.random_systems(case["seed"], 20):
        for k in ("Uni", "Uss"):
            x, fr, nit, nc, cc = getattr(ip, k).maximize(ip.Interval(Al, Ah), ip.Interval(bl, bh), weight=w)
            x = np.asarray(x, dtype=float)
            t = lin.best_of_orthant(k, Al, Ah, bl, bh, w, "inf", x)
            if t:
                good[k] = good.get(k, 0) + 1
            elif t is not None:
                bad.setdefault(k, []).append((x, cc, Al, Ah, bl, bh, w))
    for k in bad:
        require(len(bad[k]) < 6, "%s: %r of %r results are not the best of their orthant, such as %r (code %r) for A in [%r, %r], b in [%r, %r], "
                "weights %r", k, len(bad[k]), len(bad[k]) + good.get(k, 0), *bad[k][0])
    return sorted(k + (" all" if k not in bad else " nearly all") for k in good)


def strat_share():
    return st.fixed_dictionaries({"seed": st.integers(0, 10 ** 9)})


def check_point(case):
    """With a matrix of numbers Tol, Uni and Uss are the same concave functional."""
    Al, _, bl, bh = lin.arrays(case)
    m, n = Al.shape
    if not np.any(Al) or np.linalg.matrix_rank(Al) < n:
        raise Skip()
    w1 = np.ones(m) if case["w"] is None else np.array(case["w"])
    A, b = ip.Interval(Al, Al), ip.Interval(bl, bh)
    o, _ = lin.functional_lp(Al, Al, bl, bh, w1, "tol")
    if o is None:
        raise Skip()
    labels = []
    for k in ("Tol", "Uni", "Uss"):
        xr, fr, nit, nc, cc = run(getattr(ip, k).maximize, A, b, case)
        require(fr <= o + 1e-7 * (1 + abs(o)), "%s: %r is better than the maximum %r", k, fr, o)
        if cc != 5:
            require(fr >= o - 1e-4 * (1 + abs(o)), "%s of a matrix of numbers: the maximum is %r, found %r at %r (code %r)", k, o, fr, xr, cc)
            labels.append(k)
    return labels


@st.composite
def strat_local(draw):
    case = draw(strat())
    case["maxiter"] = draw(st.sampled_from([0, 1, 5, 50, 400]))
    return case


@st.composite
def strat_constr(draw):
    case = draw(lin.any_system(3, 5, draw(st.sampled_from([1, 2]))))
    m, n = len(case["b"]), len(case["A"][0])
    case["w"] = draw(st.one_of(st.none(), st.lists(st.sampled_from([0.25, 0.5, 1.0, 2.0, 3.0]), min_size=m, max_size=m)))
    kind = draw(st.sampled_from(["box", "box", "row", "rows", "none"]))
    half = st.integers(1, 8).map(lambda k: k / 2)
    num = st.integers(-4, 4).map(float)
    if kind in ("box", "none"):
        C = np.eye(n).tolist()
    elif kind == "row":
        C = [draw(st.lists(st.integers(-3, 3).map(float), min_size=n, max_size=n))]
        if not any(C[0]):
            C[0][0] = 1.0
    else:
        C = []
        for _ in range(draw(st.integers(2, 3))):
            r = draw(st.lists(st.integers(-3, 3).map(float), min_size=n, max_size=n))
            C.append(r if any(r) else [1.0] * n)
    x = np.array(draw(st.lists(num, min_size=n, max_size=n)))
    c = np.array(C) @ x
    lb = [None if kind == "none" or draw(st.integers(0, 3)) == 0 else v - draw(half) for v in c]
    ub = [None if kind == "none" or draw(st.integers(0, 3)) == 0 else v + draw(half) for v in c]
    if draw(st.integers(0, 11)) == 0:
        case["A"] = [[[0.0, 0.0]] * n for _ in case["A"]]       # the functional does not depend on x
    case.update(C=C, lb=lb, ub=ub, kind=kind, omit=draw(st.sampled_from(["", "", "lb", "ub", "both"])),
                mu=draw(st.sampled_from([200.0, 500.0] if kind == "rows" else [None, None, None, 200.0])), twice=draw(st.booleans()))
    return case


def check_constr(case):
    Al, Ah, bl, bh = lin.arrays(case)
    A, b = lin.objects(case)
    m, n = Al.shape
    w1 = np.ones(m) if case["w"] is None else np.array(case["w"])
    C = np.array(case["C"])
    lb = np.array([-np.inf if v is None else v for v in case["lb"]])
    ub = np.array([np.inf if v is None else v for v in case["ub"]])
    kw = {"lb": lb.copy(), "ub": ub.copy()}
    if case["omit"] in ("lb", "both"):
        del kw["lb"]
        lb = np.full(len(C), -np.inf)
    if case["omit"] in ("ub", "both"):
        del kw["ub"]
        ub = np.full(len(C), np.inf)
    lc = ip.LinearConstraint(C.copy(), mu=case["mu"], **kw)
    if case["twice"]:
        # the same constraint object was used with another system before
        ip.Tol.maximize(ip.Interval(Al / 64, Ah / 64), b, linear_constraint=lc)
    # a vertex of the constraints in both directions counts as interior: they were built around a point
    labels = []
    for k, f, sense in (("Tol", ip.Tol.maximize, "tol"), ("ChebNorm", ip.ChebNorm.minimize, "cheb")):
        xr, fr, nit, nc, cc = run(f, A, b, case, linear_constraint=lc)
        xr = np.asarray(xr, dtype=float)
        require(xr.shape == (n,) and np.all(np.isfinite(xr)), "%s: %r", k, xr)
        viol = max(0, np.max(C @ xr - ub), np.max(lb - C @ xr))
        o, xo = lin.functional_lp(Al, Ah, bl, bh, w1, sense, C, lb, ub)
        if o is None:
            continue
        if cc == 5:
            labels.append("code 5")
            continue
        scale = 1 + abs(o)
        require(viol <= 3e-3 * scale, "%s: the point %r violates the constraints by %r (mu = %r)", k, xr, viol, lc.mu)
        v = lin.constituents(k, Al, Ah, bl, bh, xr, w1)
        v = v.max() if k == "ChebNorm" else v.min()
        # the returned value contains the penalty of the remaining violation
        d = o - v if sense == "tol" else v - o
        slack = 3e-3 * scale
        require(abs(v - fr) <= slack, "%s returned %r, the functional at %r is %r", k, fr, xr, v)
        require(d >= -slack, "%s: %r at %r is better than the constrained optimum %r", k, v, xr, o)
        if m >= n:
            require(d <= slack, "%s: the constrained optimum is %r at %r, found %r at %r (code %r)", k, o, xo, v, xr, cc)
        active = np.any(abs(C @ xo - ub) < 1e-6) or np.any(abs(C @ xo - lb) < 1e-6)
        labels += [case["kind"], k + (" active" if active else " inactive")]
    require(lc.mu == case["mu"], "the penalty factor of the caller's constraint became %r", lc.mu)
    return sorted(set(labels)) or None


def check_constr_local(case):
    """Uni and Uss with constraints: the returned value is the functional minus a penalty of the violation."""
    Al, Ah, bl, bh = lin.arrays(case)
    A, b = lin.objects(case)
    m, n = Al.shape
    w1 = np.ones(m) if case["w"] is None else np.array(case["w"])
    C = np.array(case["C"])
    lb = np.array([-np.inf if v is None else v for v in case["lb"]])
    ub = np.array([np.inf if v is None else v for v in case["ub"]])
    lc = ip.LinearConstraint(C.copy(), lb=lb.copy(), ub=ub.copy(), mu=case["mu"])
    G, g = np.vstack([C, -C]), np.hstack([ub, -lb])
    G, g = G[np.isfinite(g)], g[np.isfinite(g)]
    labels = []
    for k in ("Uss", "Uni", "Tol", "ChebNorm"):
        f = getattr(ip, k)
        sign = -1 if k == "ChebNorm" else 1
        xr, fr, nit, nc, cc = run(f.minimize if k == "ChebNorm" else f.maximize, A, b, case, linear_constraint=lc,
                                  maxiter=case["maxiter"])
        xr = np.asarray(xr, dtype=float)
        require(xr.shape == (n,), "%s: %r", k, xr)
        if not np.all(np.isfinite(xr)) or abs(xr).max() > 1e8:
            labels.append("unbounded")
            continue
        v = lin.constituents(k, Al, Ah, bl, bh, xr, w1)
        v = sign * (v.max() if k == "ChebNorm" else v.min())
        viol = np.maximum(G @ xr - g, 0).sum() if len(g) else 0.0
        e = 1e-9 * (1 + abs(v)) * (1 + abs(xr).max())
        require(sign * fr <= v + e, "%s returned %r, at the point %r it is %r before any penalty", k, fr, xr, sign * v)
        if viol == 0:
            require(abs(sign * fr - v) <= e, "%s returned %r, at the feasible point %r it is %r", k, fr, xr, sign * v)
            labels.append(k + " feasible")
        elif viol > 1e-6:
            require(sign * fr < v, "%s returned %r without a penalty at %r, which violates the constraints by %r", k, fr, xr, viol)
            if case["mu"] is not None:
                require(abs(sign * fr - (v - case["mu"] * viol)) <= e * (1 + case["mu"]), "%s returned %r, the functional at %r is "
                        "%r and the violation %r", k, fr, xr, sign * v, viol)
            labels.append(k + " violated")
        require(nit <= case["maxiter"] + 1, "%s: %r iterations of %r", k, nit, case["maxiter"])
        if case["x0"] is not None:
            x0 = np.array(case["x0"])
            s = lin.constituents(k, Al, Ah, bl, bh, x0, w1)
            s = sign * (s.max() if k == "ChebNorm" else s.min())
            sv = np.maximum(G @ x0 - g, 0).sum() if len(g) else 0.0
            if sv == 0 or case["mu"] is not None:
                s -= (case["mu"] or 0) * sv
                require(sign * fr >= s - 1e-9 * (1 + abs(s)), "%s: %r at the start, %r returned", k, s, sign * fr)
        if k == "Uss" and case["mu"] is not None:
            o = lin.uss_lp(Al, Ah, bl, bh, w1, G, g, case["mu"])
            require(fr <= o + 1e-7 * (1 + abs(o)), "Uss: %r exceeds the maximum %r", fr, o)
    return labels


@st.composite
def strat_constr_local(draw):
    case = draw(strat_constr())
    n = len(case["A"][0])
    case["maxiter"] = draw(st.sampled_from([0, 3, 30, 2000, 2000, 2000]))
    if draw(st.integers(0, 2)) == 0:
        case["mu"] = draw(st.sampled_from([0.25, 1.0, 4.0, 50.0]))
    case["x0"] = draw(st.one_of(st.none(), st.lists(st.integers(-5, 5).map(float), min_size=n, max_size=n)))
    return case


PARTS = [
    Part("unconstrained", strat, check_free, 500, thorough=8000, shards=4, rule="optimum against linear programming"),
    Part("large", strat_large, check_free, 80, thorough=1500, shards=3, rule="4 to 10 unknowns against linear programming"),
    Part("local", strat_local, check_local, 600, thorough=9000, shards=3, rule="Uni and Uss"),
    Part("share", strat_share, check_share, 60, thorough=1500, shards=4,
         rule="20 systems each: Uni and Uss are, but for a few, the best of their orthant"),
    Part("matrices of numbers", strat, check_point, 250, thorough=6000, shards=2, rule="Tol, Uni and Uss against one linear program"),
    Part("constrained", strat_constr, check_constr, 500, thorough=8000, shards=4, rule="linear constraints against LP"),
    Part("constrained-value", strat_constr_local, check_constr_local, 400, thorough=8000, shards=4,
         rule="all four functionals: the value returned for a constrained problem is the functional minus the penalty"),
]
