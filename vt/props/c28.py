"""Global minimisation by adaptive subdivision."""
import math

import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require

RULE = ("Objective functions of 1-3 variables (separable and coupled quadratics with dyadic centres, double wells, absolute "
        "values, cosine ripples, constants, linear functions) evaluated in interval arithmetic over dyadic boxes (points, "
        "one-sided, centred), with tolerances from 1e-9 to 10 and iteration limits from 0 to 300, in units of the variables and the objective from 2^-60 to 2^60. Oracle: the exactly known "
        "minimum or the smallest of several hundred sampled values; every box handed to the objective is recorded. "
        "Non-trivial: at least one bisection.")
ASSUMPTIONS = ["the starting box is an interval vector", "the objective is an inclusion-isotonic interval function"]

q = 4.0


@st.composite
def strat(draw):
    n = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["quad", "quad", "coupled", "well", "abs", "cos", "linear", "const", "many"]))
    num = st.integers(-12, 12).map(lambda k: k / q)
    lo = draw(st.lists(num, min_size=n, max_size=n))
    wid = draw(st.lists(st.one_of(st.integers(1, 24), st.integers(1, 24), st.integers(0, 24)).map(lambda k: k / q),
                        min_size=n, max_size=n))
    return {"kind": kind, "x0": [[a, a + w] for a, w in zip(lo, wid)],
            "z": draw(st.lists(num, min_size=n, max_size=n)),
            "c": draw(st.lists(st.integers(1, 8).map(lambda k: k / 2), min_size=n, max_size=n)),
            "d": draw(st.sampled_from([0.0, 1.0, -2.5, 1000.0, 1 / 3])),
            "tol": draw(st.sampled_from([1e-9, 1e-6, 1e-3, 0.1, 10.0])),
            "maxiter": draw(st.sampled_from([0, 1, 2, 7, 30, 100, 300])), "ints": draw(st.booleans()),
            "units": draw(st.one_of(st.none(), st.lists(st.integers(-60, 60), min_size=2, max_size=2)))}


@st.composite
def strat_large(draw):
    """4-7 variables."""
    n = draw(st.integers(4, 7))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    lo = rng.integers(-12, 13, n) / q
    return {"kind": draw(st.sampled_from(["quad", "quad", "coupled", "well", "abs", "cos", "linear", "many"])),
            "x0": np.c_[lo, lo + rng.integers(rng.integers(0, 2), 25, n) / q].tolist(), "z": (rng.integers(-12, 13, n) / q).tolist(),
            "c": (rng.integers(1, 9, n) / 2).tolist(), "d": draw(st.sampled_from([0.0, -2.5, 1 / 3])),
            "tol": draw(st.sampled_from([1e-3, 0.1, 10.0])), "maxiter": draw(st.sampled_from([3, 30, 100, 400])), "ints": draw(st.booleans()),
            "units": draw(st.one_of(st.none(), st.lists(st.integers(-60, 60), min_size=2, max_size=2)))}


def objective(case):
    k, z, c, d = case["kind"], case["z"], case["c"], case["d"]
    n = len(z)

    def f(x):
        s = d
        for i in range(n):
            t = x[i] - z[i]
            if k == "quad":
                s = s + c[i] * t ** 2
            elif k == "coupled":
                s = s + c[i] * t ** 2
                if i:
                    s = s + (x[i] - x[i - 1]) ** 2
            elif k == "well":
                s = s + c[i] * (t ** 2 - 1) ** 2 + 0.25 * t
            elif k == "abs":
                s = s + c[i] * abs(t)
            elif k == "cos":
                s = s + t ** 2 - ip.cos(c[i] * t)
            elif k == "linear":
                s = s + (c[i] if i % 2 else -c[i]) * x[i]
            elif k == "many":
                s = s + c[i] * t ** 4 - t ** 2
        if k == "const":
            s = ip.Interval(d, d) + 0 * x[0] if isinstance(x, ip.INTERVAL_CLASSES) else d
        return s
    return f


def point_values(case, P):
    k, z, c, d = case["kind"], np.array(case["z"]), np.array(case["c"]), case["d"]
    T = P - z
    if k == "quad":
        return d + (c * T ** 2).sum(1)
    if k == "coupled":
        return d + (c * T ** 2).sum(1) + (np.diff(P, axis=1) ** 2).sum(1)
    if k == "well":
        return d + (c * (T ** 2 - 1) ** 2 + .25 * T).sum(1)
    if k == "abs":
        return d + (c * abs(T)).sum(1)
    if k == "cos":
        return d + (T ** 2 - np.cos(c * T)).sum(1)
    if k == "many":
        return d + (c * T ** 4 - T ** 2).sum(1)
    if k == "linear":
        return d + P @ np.where(np.arange(len(c)) % 2, c, -c)
    return np.full(len(P), d)


def check(case):
    box = np.array(case["x0"], dtype=float)
    lo, hi = box[:, 0], box[:, 1]
    n = len(lo)
    if case["ints"] and np.all(box == np.floor(box)):
        x0 = ip.Interval([[int(v) for v in p] for p in case["x0"]])
    else:
        x0 = ip.Interval(case["x0"])
    f = objective(case)
    seen = []

    def g(x):
        require(isinstance(x, ip.ArrayInterval) and x.shape == (n,), "the objective was given %r", x)
        seen.append(tuple(map(float, np.r_[x.a, x.b])))
        return f(x)
    out = ip.globopt(g, x0, tol=case["tol"], maxiter=case["maxiter"])
    require(isinstance(out, tuple) and len(out) == 2, "returned %r", out)
    Y, v = out
    require(np.array_equal(x0.a, lo) and np.array_equal(x0.b, hi), "the starting box became %r", x0)
    ya, yb = np.asarray(Y.a, dtype=float), np.asarray(Y.b, dtype=float)
    require(ya.shape == (n,) and np.all(lo <= ya) and np.all(ya <= yb) and np.all(yb <= hi), "the box %r leaves %r", Y, x0)
    w = f(Y)
    require((v.a, v.b) == (w.a, w.b), "returned the value %r, the objective over the returned box %r is %r", v, Y, w)
    if case["units"] is not None:
        # the same problem in other units of the variables and of the objective
        p, r = 2.0 ** case["units"][0], 2.0 ** case["units"][1]
        Y2, v2 = ip.globopt(lambda x: r * f(x / p), ip.Interval(lo * p, hi * p), tol=case["tol"] * r, maxiter=case["maxiter"])
        require(np.array_equal(np.asarray(Y2.a, dtype=float) / p, ya) and np.array_equal(np.asarray(Y2.b, dtype=float) / p, yb)
                and (v2.a / r, v2.b / r) == (v.a, v.b), "variables times %r and objective times %r: %r, %r instead of the multiples of %r, %r",
                p, r, Y2, v2, Y, v)
    # a lower bound of the minimum over the whole box
    rng = np.random.default_rng(1)
    P = lo + (hi - lo) * rng.random((300, n))
    near = np.clip(np.array(case["z"]), lo, hi)
    grid = [lo, hi, (lo + hi) / 2, near] + [np.clip(near + s, lo, hi) for s in (1, -1, .5, -.5, .01, -.01)]
    P = np.vstack([P] + [p[None] for p in grid])
    best = P[np.argmin(point_values(case, P))]
    for h in (1e-1, 1e-2, 1e-3, 1e-4):
        Q = np.clip(best + h * rng.standard_normal((60, n)), lo, hi)
        Q = np.vstack([best[None], Q])
        best = Q[np.argmin(point_values(case, Q))]
    m = point_values(case, best[None])[0]
    eps = 1e-11 * (1 + abs(m))
    require(v.a <= m + eps, "the lower bound %r exceeds the value %r at %r of the starting box %r", v.a, m, best, x0)
    if case["kind"] in ("quad", "abs"):
        m = point_values(case, near[None])[0]
        require(v.a - eps <= m <= v.b + eps, "the minimum is %r, the returned range is %r", m, v)
    # the stopping rule
    boxes = len(set(seen) - {tuple(np.r_[lo, hi])})
    splits = boxes / 2
    require(splits <= case["maxiter"] + 1, "%r bisections with maxiter = %r", splits, case["maxiter"])
    if v.b - v.a >= case["tol"] and np.any(yb - ya > 1e-12 * (1 + abs(ya))):
        require(splits >= case["maxiter"], "stopped after %r bisections of %r although the width %r exceeds %r", splits,
                case["maxiter"], v.b - v.a, case["tol"])
    # the returned box is the most promising one of those that were not divided
    leaves = set(seen)
    a = np.array(sorted(leaves))
    L, U = a[:, :n], a[:, n:]
    keep = []
    for k in range(len(a)):
        inner = np.all(L >= L[k], axis=1) & np.all(U <= U[k], axis=1)
        if inner.sum() == 1:
            keep.append(k)
    vol = np.prod(np.where(hi > lo, (U[keep] - L[keep]) / np.where(hi > lo, hi - lo, 1), 1), axis=1).sum()
    if boxes:
        require(vol >= 1 - 1e-9, "the boxes that were kept cover only %r of the starting box", vol)
        lows = [f(ip.Interval(L[k], U[k])).a for k in keep]
        require(v.a <= min(lows) + eps, "the box %r with the lower bound %r was returned, the bound of another one is %r", Y,
                v.a, min(lows))
    if not boxes:
        return None
    return [case["kind"], "converged" if v.b - v.a < case["tol"] else "limit"]


PARTS = [Part("subdivision", strat, check, 1200, thorough=12000, shards=8,
              rule="at least one bisection; lower bound, stopping rule, coverage"),
         Part("more variables", strat_large, check, 80, thorough=1500, shards=4, rule="4-7 variables; at least one bisection")]
