"""Calls leave their arguments alone and do not depend on what was called before."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import intvalpy as ip
import lin
from core import Part, Skip, require

RULE = ("Histories of 3-12 calls out of 77 functions and methods of the library (arithmetic, elementary functions, utilities, "
        "solvers, functionals, regression, vertex enumeration) on one pool of shared objects: interval matrix, right-hand sides, box, "
        "points, numeric matrix, lists, constraint, models. Every result is compared with that of the same call on fresh objects, the pool "
        "with its original state, and results are overwritten in between. Non-trivial: at least two calls returned.")
ASSUMPTIONS = ["asinterval and np.asarray return an interval array itself, as documented", "numpy's random generator is seeded before every call"]


def fresh(case):
    A, b = lin.objects(case)
    n = A.shape[1]
    r = np.array(case["r"], dtype=float)
    return {"A": A, "b": b, "n": n, "x0": ip.Interval([[-30.0, 30.0]] * n), "d": ip.Interval(case["d"]),
            "p": np.array(case["p"][:n]), "y": r[:n, :n].copy(), "M": lin.arrays(case)[0].copy(), "w": np.array(case["w"][:len(case["b"])]),
            "l": copy.deepcopy(case["d"]), "x": gen.mk(case["d"][0]), "z": gen.mk([1.5, 2.5]), "k": np.arange(1, n + 1),
            "C": ip.LinearConstraint(np.eye(n), lb=np.full(n, -2.0), ub=np.full(n, 3.0)),
            "G": np.vstack([np.eye(2), -np.eye(2), [[1.0, 2.0]]]), "h": np.array([-1.0, -2.0, -3.0, -2.0, -4.0]),
            "wils": ip.WILS(), "df": pd.DataFrame({"u": list(b.data)})}


OPS = {
    "A+A": lambda q: q["A"] + q["A"], "A-d": lambda q: q["A"] - q["d"], "A*x": lambda q: q["A"] * q["x"], "A/z": lambda q: q["A"] / q["z"],
    "A@b": lambda q: q["A"] @ q["x0"], "A@p": lambda q: q["A"] @ q["p"], "M@d": lambda q: q["M"] @ q["d"], "A*M": lambda q: q["A"] * q["M"],
    "p+d": lambda q: q["p"] + q["d"], "p-d": lambda q: q["p"] - q["d"], "A@A": lambda q: q["A"] @ q["A"], "A**2": lambda q: q["A"] ** 2,
    "d**k": lambda q: q["d"] ** q["k"], "2/z": lambda q: 2 / q["z"], "-A": lambda q: -q["A"], "+A": lambda q: abs(q["A"]), "x-z": lambda q: q["x"] - q["z"],
    "exp": lambda q: np.exp(q["d"]), "sin": lambda q: ip.sin(q["A"]), "sqrt": lambda q: ip.sqrt(abs(q["d"]) + 1), "log": lambda q: np.log(q["z"]),
    "exp list": lambda q: ip.exp(q["p"]), "mid": lambda q: ip.mid(q["A"]), "rad": lambda q: ip.rad(q["A"]), "inf": lambda q: ip.inf(q["A"]),
    "sup": lambda q: ip.sup(q["d"]), "wid": lambda q: ip.wid(q["d"]), "mag": lambda q: ip.mag(q["A"]), "a": lambda q: q["A"].a, "A.mid": lambda q: q["A"].mid,
    "A.mig": lambda q: q["A"].mig, "vertex": lambda q: q["d"].vertex, "dual": lambda q: q["A"].dual, "pro": lambda q: q["A"].pro, "opp": lambda q: q["d"].opp,
    "row": lambda q: q["A"][0], "column": lambda q: q["A"][:, 1], "block": lambda q: q["A"][:2, 1:], "T": lambda q: q["A"].T,
    "reshape": lambda q: q["A"].reshape((1, -1)), "reversed": lambda q: list(reversed(q["d"])), "list": lambda q: list(q["d"]), "tail": lambda q: q["d"][1:],
    "to_float": lambda q: q["A"].to_float(), "copy": lambda q: q["A"].copy(), "deepcopy": lambda q: copy.deepcopy(q["d"]),
    "isnan": lambda q: ip.isnan(q["A"]), "dist": lambda q: ip.dist(q["d"], q["x0"]), "dist2": lambda q: ip.dist(q["A"], q["A"] + 1, order=2),
    "diag": lambda q: ip.diag(q["A"]), "compmat": lambda q: ip.compmat(q["A"]), "intersection": lambda q: ip.intersection(q["d"], q["x0"]),
    "Interval(list)": lambda q: ip.Interval(q["l"]), "Interval(Interval)": lambda q: ip.Interval(q["x"]), "Interval(2)": lambda q: ip.Interval(q["p"], q["p"] + 1),
    "asinterval(p)": lambda q: ip.asinterval(q["p"]), "asinterval(M)": lambda q: ip.asinterval(q["M"]), "subset": lambda q: ip.subset(q["d"], q["x0"]),
    "Gauss": lambda q: ip.Gauss(q["A"], q["b"]), "GS": lambda q: ip.Gauss_Seidel(q["A"], q["b"]), "GS x0": lambda q: ip.Gauss_Seidel(q["A"], q["b"], x0=q["x0"]),
    "GS C": lambda q: ip.Gauss_Seidel(q["A"], q["b"], x0=q["x0"], C=q["y"]), "HBR": lambda q: ip.HBR(q["A"], q["b"]), "PPS": lambda q: ip.PPS(q["A"], q["b"]),
    "PSS": lambda q: ip.PSS(q["A"], q["b"]), "PSS x0": lambda q: ip.PSS(q["A"], q["b"], x0=q["x0"]), "PSS nu": lambda q: ip.PSS(q["A"], q["b"], nu=0), "Rohn": lambda q: ip.Rohn(q["A"], q["b"]),
    "Rohn tol": lambda q: ip.Rohn(q["A"], q["x0"] * 3, consistency="tol"), "Subdiff": lambda q: ip.Subdiff(q["A"], q["b"]),
    "Neumaier": lambda q: ip.Neumaier(q["A"], q["x0"] * 3, q["p"]), "Neumaier w": lambda q: ip.Neumaier(q["A"], q["x0"] * 3, q["p"], w=q["w"]),
    "Tol": lambda q: ip.Tol.maximize(q["A"], q["b"], x0=q["p"], weight=q["w"], maxiter=60), "Tol C": lambda q: ip.Tol.maximize(q["A"], q["b"], linear_constraint=q["C"], maxiter=60),
    "Uni": lambda q: ip.Uni.maximize(q["A"], q["b"], maxiter=20), "Uss": lambda q: ip.Uss.maximize(q["A"], q["b"], maxiter=20),
    "Cheb": lambda q: ip.ChebNorm.minimize(q["A"], q["b"], weight=q["w"], linear_constraint=q["C"], maxiter=60),
    "Tol.value": lambda q: ip.Tol.value(q["A"], q["b"], q["p"], weight=q["w"]), "Uss.c": lambda q: ip.Uss.constituent(q["A"], q["b"], q["p"]),
    "ive": lambda q: ip.ive(q["A"], q["b"], N=3), "lineqs": lambda q: ip.lineqs(q["G"], q["h"], show=False), "lineqs unbounded": lambda q: ip.lineqs(q["G"][:2], q["h"][:2], show=False),
    "IntLinIncR2": lambda q: ip.IntLinIncR2(q["A"], q["b"], show=False), "IntLinIncR2 unbounded": lambda q: ip.IntLinIncR2(q["A"][:1], q["b"][:1], show=False),
    "IntLinIncR2 tol": lambda q: ip.IntLinIncR2(q["A"], q["x0"] * 3, show=False, consistency="tol"),
    "globopt": lambda q: ip.globopt(lambda t: sum(t[i] ** 2 for i in range(q["n"])), q["x0"], maxiter=9),
    "Krawczyk": lambda q: ip.Krawczyk(lambda t: ip.asinterval(t) * 3 - q["p"], lambda t: 3 * np.eye(q["n"]), q["x0"]),
    "HS": lambda q: ip.HansenSengupta(lambda t: ip.asinterval(t) * 3 - q["p"], lambda t: 3 * np.eye(q["n"]), q["x0"]),
    "WILS": lambda q: (q["wils"].fit(q["A"], q["b"], weight=q["w"], maxiter=20), q["wils"].estimator)[1],
    "WILS C": lambda q: (q["wils"].fit(q["A"], q["b"], objective="Uss", norm="l1", constraint=q["C"], x0=q["p"], maxiter=20), q["wils"].predict(q["A"]))[1],
    "ISPAE": lambda q: _ispae(q), "Shary": lambda q: ip.Shary_system(q["n"]), "zeros": lambda q: ip.zeros((q["n"], 2)), "eye": lambda q: ip.eye(q["n"]),
    "unique": lambda q: ip.unique(q["G"]), "clear": lambda q: ip.clear_zero_rows(q["G"], q["h"]),
}


def _ispae(q):
    m = ip.ISPAE()
    m.fit(q["df"], q["b"], order=1, maxiter=5, weight=q["w"])
    return m.estimator


def flat(v):
    """Comparable, nested plain data."""
    if isinstance(v, ip.ARITHMETICS):
        return ("I", float(v.a).hex(), float(v.b).hex())
    if isinstance(v, ip.ArrayInterval):
        return ("A", v.shape, tuple(flat(e) for e in v.data.ravel()))
    if isinstance(v, np.ndarray):
        return ("N", v.shape, tuple(flat(e) for e in v.ravel()))
    if isinstance(v, pd.DataFrame):
        return ("F", tuple(v.columns), flat(v.to_numpy()))
    if isinstance(v, (list, tuple)):
        return ("L", tuple(flat(e) for e in v))
    if isinstance(v, dict):
        return ("D", tuple((k, flat(e)) for k, e in sorted(v.items())))
    if isinstance(v, ip.LinearConstraint):
        return ("C", flat(v.C), flat(v.b), v.mu)
    if isinstance(v, (bool, np.bool_, int, float, np.number)):
        return float(v).hex()
    return repr(type(v))


def call(name, q):
    np.random.seed(99)
    try:
        return OPS[name](q), None
    except Exception as e:
        return None, (type(e).__name__, str(e)[:60])


def state(q):
    return {k: flat(v) for k, v in q.items() if k != "wils"}


def spoil(v):
    """Overwrites a result."""
    try:
        if isinstance(v, ip.ArrayInterval) and v.ndim:
            v[(0,) * v.ndim] = ip.Interval(-777, 888)
            v *= 2
        elif isinstance(v, np.ndarray) and v.size and v.flags.writeable:
            v.flat[:] = v.flat[0] * 0 + 555 if v.dtype != bool else True
        elif isinstance(v, (list, tuple)):
            for e in v:
                spoil(e)
        elif isinstance(v, dict):
            for e in v.values():
                spoil(e)
    except (TypeError, ValueError):
        pass


@st.composite
def strat(draw):
    case = draw(lin.regular_system(2, draw(st.sampled_from([2, 2, 2, 3])), 0, rho=0.7))
    n = len(case["b"])
    v = st.integers(-12, 12).map(lambda k: k / 4)
    case["d"] = [[a, a + w / 4] for a, w in draw(st.lists(st.tuples(v, st.integers(0, 12)), min_size=n, max_size=n))]
    case["p"] = draw(st.lists(v, min_size=n, max_size=n))
    case["r"] = draw(st.lists(st.lists(v, min_size=n, max_size=n), min_size=n, max_size=n))
    case["w"] = draw(st.lists(st.sampled_from([0.5, 1.0, 2.0]), min_size=n, max_size=n))
    case["ops"] = draw(st.lists(st.sampled_from(sorted(OPS)), min_size=3, max_size=12))
    case["spoil"] = draw(st.booleans())
    return case


def check(case):
    want = {}
    for name in case["ops"]:
        if name not in want:
            r, e = call(name, fresh(case))
            want[name] = (flat(r), e)
    q = fresh(case)
    start = state(q)
    done = 0
    for k, name in enumerate(case["ops"]):
        r, e = call(name, q)
        now = state(q)
        bad = [key for key in start if now[key] != start[key]]
        require(not bad, "%s changed its argument(s) %r", name, bad)
        got = (flat(r), e)
        require(got == want[name], "%s after %r gives %r, on fresh objects %r", name, case["ops"][:k], r if e is None else e, want[name])
        if case["spoil"] and e is None:
            spoil(r)
            now = state(q)
            bad = [key for key in start if now[key] != start[key]]
            require(not bad, "overwriting the result of %s changed %r", name, bad)
        done += e is None
    return ["returned", "overwritten" if case["spoil"] else "kept"] if done >= 2 else None


@st.composite
def strat_written(draw):
    case = draw(strat())
    other = draw(lin.regular_system(len(case["b"]), len(case["b"]), 0, rho=0.7))
    new = draw(strat().filter(lambda c: len(c["b"]) == len(case["b"])))
    return {"case": case, "new": dict(new, A=other["A"], b=other["b"]), "how": draw(st.sampled_from(["cells", "rows", "whole"])), "only": draw(st.sampled_from(["", "", "A", "b", "d"]))}


def overwrite(x, y, how):
    if isinstance(x, np.ndarray) or how == "whole":
        x[...] = y
    elif how == "rows" and x.ndim == 2:
        for i in range(len(x)):
            x[i] = y[i]
    else:
        for i in np.ndindex(x.shape):
            x[i] = y[i]


def check_written(case):
    """Objects that were used and then written to act like new ones with the same content."""
    old, new = case["case"], case["new"]
    q = fresh(old)
    names = [nm for k, nm in enumerate(old["ops"]) if nm not in old["ops"][:k]]
    for name in names:
        call(name, q)

    def other():
        f, o = fresh(new), fresh(old)
        keep = {"x", "l", "z", "wils"} | (set(o) - {case["only"]} if case["only"] else set())
        return {k: (o[k] if k in keep or (k == "df" and case["only"] and case["only"] != "b") else f[k]) for k in f}

    f = other()
    for k in ("A", "b", "d", "p", "y", "M", "w"):
        if not case["only"] or k == case["only"]:
            overwrite(q[k], f[k], case["how"])
    q["df"] = other()["df"]
    q["wils"] = f["wils"]
    done = 0
    for name in names:
        want, e = call(name, other())
        r, g = call(name, q)
        require((flat(r), g) == (flat(want), e), "%s, called again after its arguments were written to, gives %r, with new objects of the same content %r",
                name, r if g is None else g, want if e is None else e)
        done += e is None
    return [case["how"], "one written" if case["only"] else "all written"] if done >= 2 else None


PARTS = [Part("written", strat_written, check_written, 700, thorough=10000, shards=6, rule="at least two calls returned"),
         Part("histories", strat, check, 900, thorough=15000, shards=8, rule="at least two calls returned")]
