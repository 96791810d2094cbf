"""The subgradient minimiser ralgb5."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog

import intvalpy as ip
from intvalpy.kernel.ralgb5 import ralgb5
from core import Part, require

RULE = ("Convex functions of 1-4 variables, and maxima of affine functions of up to 12 (maxima of affine functions with a bounded sharp minimum, weighted sums of "
        "absolute values with condition up to 1e4, convex quadratics, unbounded affine functions), starting points, and "
        "all of the method's parameters, run with an instrumented objective that records every call. Oracles: the "
        "recorded history (best value, number of calls, stopping rule) and the exact minimum (linear programming or by "
        "construction). Non-trivial: at least one iteration was made or the stopping rule was met at the start.")
ASSUMPTIONS = ["closeness to the minimum is required of single runs to 5e-2 and of six runs in nine to 1e-6, relative to the weights of the function, with the default parameters"]


@st.composite
def function(draw):
    n = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(["max", "max", "abs", "abs", "quad", "affine"]))
    num = st.integers(-8, 8)
    c = [v / 2 for v in draw(st.lists(num, min_size=n, max_size=n))]
    f = {"kind": kind, "n": n, "c": c, "shift": draw(st.sampled_from([0.0, 0.0, 1.0, -7.0, 100.0]))}
    if kind == "max":
        k = draw(st.integers(n + 1, n + 4))
        G = np.array(draw(st.lists(st.lists(st.integers(-5, 5), min_size=n, max_size=n), min_size=k, max_size=k)), float)
        G = np.vstack([G, np.eye(n), -np.ones(n)])        # a positive spanning set: the minimum exists and is sharp
        h = np.array(draw(st.lists(st.integers(-9, 9), min_size=len(G), max_size=len(G))), float)
        f.update(G=G.tolist(), h=h.tolist())
    elif kind in ("abs", "quad"):
        f["w"] = [draw(st.sampled_from([1.0, 0.5, 3.0, 10.0, 1e2, 1e3] + ([1e4] if kind == "abs" else [])))
                  for _ in range(n)]
        if draw(st.booleans()):
            f["mix"] = np.array(draw(st.lists(st.lists(st.integers(-2, 2), min_size=n, max_size=n), min_size=n,
                                              max_size=n)), float).tolist()
    else:
        f["g"] = draw(st.lists(st.integers(-4, 4), min_size=n, max_size=n))
    return f


@st.composite
def strat(draw):
    case = {"f": draw(function())}
    n = case["f"]["n"]
    case["x0"] = [v / 4 for v in draw(st.lists(st.integers(-40, 40), min_size=n, max_size=n))]
    p = {}
    if draw(st.integers(0, 2)):
        for k, s in (("maxiter", [0, 1, 2, 5, 40, 300]), ("tolx", [1e-12, 1e-3, 0.1, 1.0]), ("tolg", [1e-12, 1e-6, 0.5, 2.0]),
                     ("tolf", [1e-12, 1e-6, 1e-2, 0.3]), ("alpha", [2.0, 2.3, 3.0, 1.5]), ("nsims", [1, 2, 5, 30]),
                     ("h0", [1, 0.1, 5.0]), ("nh", [1, 2, 3]), ("q1", [0.9, 1.0, 0.8]), ("q2", [1.1, 1.2, 1.0])):
            if draw(st.integers(0, 2)) == 0:
                p[k] = draw(st.sampled_from(s))
    case["p"] = p
    return case


def objective(f):
    n, c = f["n"], np.array(f["c"])
    if f["kind"] == "max":
        G, h = np.array(f["G"]), np.array(f["h"])

        def calc(x):
            v = G @ x + h
            k = int(np.argmax(v))
            return v[k] + f["shift"], G[k].copy()
        r = linprog(np.r_[np.zeros(n), 1.0], A_ub=np.c_[G, -np.ones(len(G))], b_ub=-h, bounds=[(None, None)] * (n + 1))
        return calc, (r.fun + f["shift"] if r.status == 0 else None)
    if f["kind"] == "affine":
        g = np.array(f["g"], float)
        return (lambda x: (g @ x + f["shift"], g.copy())), (None if np.any(g) else f["shift"])
    w = np.array(f["w"])
    M = np.array(f.get("mix", np.zeros((n, n)).tolist())) + 5 * np.eye(n) if "mix" in f else np.eye(n)
    if np.linalg.cond(M) > 50:
        M = np.eye(n)
    if f["kind"] == "abs":
        def calc(x):
            d = M @ (x - c)
            return float(w @ abs(d)) + f["shift"], M.T @ (w * np.sign(d))
    else:
        def calc(x):
            d = M @ (x - c)
            return float(w @ d ** 2) + f["shift"], 2 * (M.T @ (w * d))
    return calc, f["shift"]


def unit(f, best):
    return (1 + abs(best)) * max([1.0] + f.get("w", []) + np.abs(f.get("G", [[0.0]])).ravel().tolist())


@st.composite
def strat_batch(draw):
    out = []
    for _ in range(9):
        f = draw(function().filter(lambda f: f["kind"] != "affine"))
        out.append({"f": f, "x0": [v / 4 for v in draw(st.lists(st.integers(-40, 40), min_size=f["n"], max_size=f["n"]))]})
    return {"batch": out}


@st.composite
def strat_large(draw):
    """Maxima of affine functions of more variables, started at and away from the bottom of a ravine."""
    n, k = draw(st.integers(5, 12)), draw(st.integers(1, 30))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    G = np.vstack([rng.integers(-5, 6, (n + k, n)).astype(float), np.eye(n), -np.ones(n)])
    h = rng.integers(-9, 10, len(G)).astype(float)
    x0 = rng.integers(-40, 41, n) / 4
    if rng.integers(0, 2):
        # all of them (but those of the positive spanning set) have nearly the same value at the start
        h[:n + k] = -G[:n + k] @ x0 + rng.integers(-2, 3, n + k) / 8 + 20
    return {"f": {"kind": "max", "n": n, "c": [0.0] * n, "shift": 0.0, "G": G.tolist(), "h": h.tolist()}, "x0": x0.tolist(), "p": {}}


def check_batch(case):
    """The method is a heuristic: of nine functions at least six are minimised accurately."""
    gaps = []
    for c in case["batch"]:
        calc, best = objective(c["f"])
        if best is None:
            continue
        xr, fr, nit, ncalls, cc = ralgb5(calc, np.array(c["x0"]))
        gaps.append((fr - best) / unit(c["f"], best))
    require(sum(g <= 1e-6 for g in gaps) * 9 >= len(gaps) * 6, "the distances from the minimum are %r", gaps)
    return "batch"


def check(case):
    calc, best = objective(case["f"])
    log = []

    def recorded(x):
        x = np.array(x, dtype=float, copy=True)
        v, g = calc(x)
        log.append((x, v, g.copy()))
        return v, g

    x0 = np.array(case["x0"])
    p = dict(case["p"])
    out = ralgb5(recorded, x0, **p)
    require(len(out) == 5, "%r", out)
    xr, fr, nit, ncalls, cc = out
    require(np.array_equal(x0, case["x0"]), "the starting point was changed to %r", x0)
    require(np.array_equal(log[0][0], x0), "the first evaluation is at %r, not at the starting point", log[0][0])
    bad = [x for x, _, _ in log if not np.all(np.isfinite(x))]
    require(not bad, "the objective was evaluated at %r", bad[:1])
    require(ncalls == len(log), "%r calls reported, %d made", ncalls, len(log))
    low = min(v for _, v, _ in log)
    require(fr == low, "the value %r is returned, the best one met is %r", fr, low)
    require(any(np.array_equal(xr, x) and v == fr for x, v, _ in log), "the value at the returned point %r is not %r", xr, fr)
    d = {"tolx": 1e-12, "tolg": 1e-12, "tolf": 1e-12, "maxiter": 2000, "nsims": 30}       # the default of nsims is at least 30
    d.update(p)
    norms = [float(np.linalg.norm(g)) for _, _, g in log]
    require(all(v >= d["tolg"] * (1 - 1e-9) for v in norms[:-1]), "went on after a subgradient of norm %r < tolg = %r",
            min(norms[:-1] or [9]), d["tolg"])
    require(cc in (1, 2, 3, 4, 5), "code %r", cc)
    require((cc == 2) == (norms[-1] < d["tolg"]), "code %r; the last subgradient has norm %r, tolg is %r", cc, norms[-1], d["tolg"])
    require(0 <= nit <= d["maxiter"] + 1, "%r iterations, maxiter = %r", nit, d["maxiter"])
    require((cc == 4) == (nit == d["maxiter"] + 1), "code %r after %r iterations, maxiter = %r", cc, nit, d["maxiter"])
    require(ncalls >= nit + 1 and ncalls <= 1 + 501 * (nit + 1), "%r calls in %r iterations", ncalls, nit)
    if cc == 1:
        require(nit >= d["nsims"] - 1, "code 1 after %r iterations, nsims = %r", nit, d["nsims"])
    if cc == 3:
        require(float(np.linalg.norm(log[-1][0] - log[-2][0])) < d["tolx"] * (1 + 1e-6) + 1e-14 * (1 + abs(log[-1][0]).max()), "code 3, but the last step has length %r",
                float(np.linalg.norm(log[-1][0] - log[-2][0])))
    if case["f"]["kind"] == "affine" and norms[0] >= d["tolg"]:
        require(cc == 5, "an affine function: code %r", cc)
        require(ncalls == 502, "an affine function: %r calls", ncalls)
    if best is not None:
        require(fr >= best - 1e-9 * (1 + abs(best)), "%r is below the minimum %r", fr, best)
        if not p and cc != 5:
            slack = 5e-2 * unit(case["f"], best)
            require(fr <= best + slack, "the minimum is %r, found %r (code %r, %r iterations)", best, fr, cc, nit)
    return [case["f"]["kind"], "code %d" % cc, "default" if not p else "parameters"]


PARTS = [Part("large", strat_large, check, 120, thorough=3000, shards=2, rule="5 to 12 variables"),
         Part("contract", strat, check, 1600, thorough=40000, shards=6, rule="every run is compared with its history"),
         Part("accuracy", strat_batch, check_batch, 60, thorough=1500, shards=4, rule="nine functions per case")]
