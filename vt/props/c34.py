"""Drawing: every picture shows exactly what was computed."""
import os
import tempfile

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.colors import to_rgba
from matplotlib.patches import Polygon

import gen
import intvalpy as ip
from core import Part, Skip, require
from props import c25, c26

RULE = ("Grids of 1-3 x 1-3 axes with and without an index of the axes, boxes of intervals (points, segments, boxes, mixed, vectors and "
        "matrices), vertex lists, inequality systems and interval systems in the plane and in space, colours, transparency and sizes of the dots. "
        "Oracle: the objects on all axes of the figure (matplotlib, Agg): their coordinates and colours. "
        "Non-trivial: at least one mark was expected.")
ASSUMPTIONS = ["matplotlib draws what is on the axes; the order of marks on the axes is not claimed"]
COLORS = ["gray", "red", "C1", "darkolivegreen"]


def marks(ax):
    """(polygons [(points, rgba, filled)], dots [(x, y, rgba, size)])"""
    pol = []
    for p in ax.patches:
        require(isinstance(p, Polygon), "unexpected %r on the axes", p)
        v = p.get_xy()
        if len(v) > 1 and np.array_equal(v[0], v[-1]):
            v = v[:-1]
        pol.append((np.array(v, float), p))
    dots = []
    for c in ax.collections:
        off = np.asarray(c.get_offsets(), float).reshape(-1, 2)
        fc, s = c.get_facecolor(), c.get_sizes()
        for k, o in enumerate(off):
            dots.append((o[0], o[1], tuple(fc[k % len(fc)]) if len(fc) else None, float(s[k % len(s)])))
    require(len(ax.lines) == 0 and len(ax.texts) == 0, "unexpected lines or texts")
    return pol, dots


def all_axes(ax):
    return list(np.asarray(ax, dtype=object).ravel())


# -- IPlot ------------------------------------------------------------------------------------------------

end = st.integers(-8, 8).map(lambda k: k / 4)


@st.composite
def strat_plot(draw):
    iv = st.tuples(end, st.sampled_from([0, 0, 0.25, 1, 3])).map(lambda t: [t[0], t[0] + t[1]])
    k = draw(st.integers(1, 6))
    grid = draw(st.sampled_from([[None, None], [1, 1], [1, 2], [3, 1], [2, 2], [2, 3], [None, 2], [2, None]]))
    r, c = grid[0] or 1, grid[1] or 1
    idx = None
    if draw(st.booleans()):
        if r > 1 and c > 1:
            idx = [draw(st.integers(0, r - 1)), draw(st.integers(0, c - 1))]
        elif r > 1 or c > 1:
            idx = draw(st.integers(0, max(r, c) - 1))
    kind = draw(st.sampled_from(["scatter", "scatter", "lineqs", "IntLinIncR2"]))
    poly = st.lists(st.lists(end, min_size=2, max_size=2), min_size=3, max_size=6, unique_by=tuple)
    return {"grid": grid, "axindex": idx, "kind": kind, "x": draw(st.lists(iv, min_size=k, max_size=k)), "y": draw(st.lists(iv, min_size=k, max_size=k)),
            "two": k % 2 == 0 and draw(st.booleans()), "V": draw(poly), "W": draw(st.lists(st.one_of(st.just([]), poly), min_size=4, max_size=4)),
            "color": draw(st.sampled_from(COLORS)), "alpha": draw(st.sampled_from([0.5, 1, 0.25])), "s": draw(st.sampled_from([10, 0, 33])),
            "figsize": draw(st.sampled_from([None, [3, 4]]))}


def same_polygons(got, want, what):
    """Multisets of polygons with the given vertex sequences (up to rotation and direction)."""
    def canon(v):
        v = [tuple(map(float, p)) for p in np.asarray(v, float) + 0.0]
        v = [p for k, p in enumerate(v) if p != v[k - 1]] or v[:1]           # matplotlib closes polygons by a repeated point
        return min(min(w[k:] + w[:k] for k in range(len(w))) for w in (v, v[::-1]))
    a, b = sorted(canon(v) for v in got), sorted(canon(v) for v in want)
    require(a == b, "%s: polygons %r, expected %r", what, a, b)


def check_plot(case):
    plt.close("all")
    try:
        pl = ip.IPlot(figsize=(2, 2))
        r, c = case["grid"]
        fs = case["figsize"] and tuple(case["figsize"])
        fig, ax = pl.subplots(nrows=r, ncols=c, figsize=fs)
        axs = all_axes(ax)
        require(len(axs) == (r or 1) * (c or 1) and set(map(id, axs)) == set(map(id, fig.axes)), "%d axes for a grid %r", len(axs), case["grid"])
        require(tuple(fig.get_size_inches()) == (fs or (2, 2)), "the figure has the size %r", fig.get_size_inches())
        i = case["axindex"]
        idx = tuple(i) if isinstance(i, list) else i
        want_ax = axs[0] if idx is None else ax[idx]
        kw = {"color": case["color"], "alpha": case["alpha"], "s": case["s"]}
        if idx is not None:
            kw["axindex"] = idx
        rgba = to_rgba(case["color"], case["alpha"])
        black = to_rgba("black", 1)
        filled, outline, dots = [], [], []
        if case["kind"] == "scatter":
            X, Y = ip.Interval(case["x"]), ip.Interval(case["y"])
            if case["two"]:
                h = len(case["x"]) // 2
                X, Y = ip.Interval([case["x"][:h], case["x"][h:]]), ip.Interval([case["y"][:h], case["y"][h:]])
            pl.scatter(X, Y, **kw)
            for (a, b), (u, v) in zip(case["x"], case["y"]):
                p = [[a, u], [a, v], [b, v], [b, u]]
                if a == b and u == v:
                    dots.append((a, u, rgba, float(case["s"])))
                elif a == b or u == v:
                    outline.append(p)
                else:
                    filled.append(p)
        else:
            V = [case["V"]] if case["kind"] == "lineqs" else case["W"]
            if case["kind"] == "lineqs":
                pl.lineqs(np.array(case["V"]), **kw)
            else:
                pl.IntLinIncR2([np.array(v) for v in case["W"]], **kw)
            for v in V:
                if v:
                    filled.append(v)
                    dots += [(a, b, black, float(case["s"])) for a, b in v]
        for a in axs:
            pol, d = marks(a)
            if a is not want_ax:
                require(not pol and not d, "something was drawn on other axes")
                continue
            for v, p in pol:
                col = p.get_facecolor() if p.get_fill() else p.get_edgecolor()
                require(np.allclose(col, rgba), "a polygon has the colour %r, not %r", col, rgba)
            same_polygons([v for v, p in pol if p.get_fill()], filled, "filled")
            same_polygons([v for v, p in pol if not p.get_fill()], outline, "outlines")
            require(sorted(map(lambda t: (t[0], t[1], t[3]), d)) == sorted(map(lambda t: (t[0], t[1], t[3]), dots)), "dots %r, expected %r", d, dots)
            if dots:
                require(all(np.allclose(t[2], dots[0][2]) for t in d), "colours of the dots %r", d)
        return case["kind"] if filled or outline or dots else None
    finally:
        plt.close("all")


# -- show=True of the enumerations -------------------------------------------------------------------------

@st.composite
def strat_show(draw):
    kind = draw(st.sampled_from(["lineqs", "lineqs", "R2", "R2", "3D", "R3", "R2point", "R3point"]))
    point = kind.endswith("point")
    if point:
        kind = {"R2point": "lineqs", "R3point": "3D"}[kind]
    if kind == "lineqs":
        case = draw(c25.strat())
        case.pop("kind")
    elif kind == "R2":
        case = draw(c26.strat())
    elif kind == "R3":
        case = draw(c26.strat(dim=3, nmin=1, nmax=3))
    else:
        e = st.integers(-4, 4).map(float)
        n = draw(st.integers(1, 4))
        case = {"A": draw(st.lists(st.lists(e, min_size=3, max_size=3).filter(any), min_size=n, max_size=n)),
                "b": draw(st.lists(st.integers(-8, 0).map(float), min_size=n, max_size=n)), "bounds": None}
        if draw(st.booleans()):
            case["A"] += [[1., 0, 0], [0, 1., 0], [0, 0, 1.], [-1., -1., -1.]]
            case["b"] += [-1., -2., -1., -3.]
        if draw(st.booleans()):
            case["bounds"] = [[-3., -2., -4.], [2., 3., 4.]]
    case.update(what=kind, point=point, color=draw(st.sampled_from(COLORS)), alpha=draw(st.sampled_from([0.5, 1, 0.25])),
                s=draw(st.sampled_from([10, 0, 33])), title=draw(st.sampled_from(["Solution Set", "set1"])), save=draw(st.integers(0, 5)) == 0)
    return case


def equal_results(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return len(a) == len(b) and all(equal_results(u, v) for u, v in zip(a, b))
    return np.asarray(a).shape == np.asarray(b).shape and np.array_equal(a, b)


def call(case, show, **kw):
    w = case["what"]
    if case["bounds"] is not None:
        kw["bounds"] = case["bounds"]
    if w == "lineqs":
        # a point system given to the function for interval systems is the same set
        return (ip.IntLinIncR2 if case.get("point") else ip.lineqs)(np.array(case["A"]), np.array(case["b"]), show=show, **kw)
    if w == "3D":
        return (ip.IntLinIncR3 if case.get("point") else ip.lineqs3D)(np.array(case["A"]), np.array(case["b"]), show=show, **kw)
    A, b = ip.Interval(case["A"]), ip.Interval(case["b"])
    return (ip.IntLinIncR2 if w == "R2" else ip.IntLinIncR3)(A, b, show=show, consistency=case["consistency"], **kw)


def check_show(case):
    plt.close("all")
    if not np.any(case["A"]):
        raise Skip()
    cwd = os.getcwd()
    tmp = tempfile.TemporaryDirectory()
    try:
        os.chdir(tmp.name)
        try:
            R = call(case, False)
        except Exception as e:
            try:
                call(case, True)
            except type(e):
                return None
            require(False, "with show=False raised %r, with show=True not", e)
        require(not plt.get_fignums(), "a figure was made with show=False")
        flat = case["what"] in ("lineqs", "R2")
        kw = {"color": case["color"], "alpha": case["alpha"], "s": case["s"], "size": (2, 2)}
        if flat:
            # the defaults: the title "Solution Set", nothing is saved
            kw.update({} if case["title"] == "Solution Set" else {"title": case["title"]}, **({"save": True} if case["save"] else {}))
        S = call(case, True, **kw)
        require(equal_results(R, S), "with show=False %r, with show=True %r", R, S)
        lists = [np.asarray(R)] if case["what"] == "lineqs" else [np.asarray(v) for v in R] if case["what"] != "R3" else [np.asarray(v) for el in R for v in el]
        lists = [v for v in lists if len(v)]
        figs = plt.get_fignums()
        if not lists and not figs:
            require(os.listdir(tmp.name) == [], "a file was written")
            return None                                                # nothing to draw
        require(len(figs) == 1 and len(plt.figure(figs[0]).axes) == 1, "%d figures", len(figs))
        fig = plt.figure(figs[0])
        require(tuple(fig.get_size_inches()) == (2, 2), "size of the window %r", fig.get_size_inches())
        ax = fig.axes[0]
        if flat:
            require(os.listdir(tmp.name) == ([case["title"] + ".png"] if case["save"] else []), "files %r", os.listdir(tmp.name))
            require(ax.get_title() == case["title"], "title %r", ax.get_title())
            pol, d = marks(ax)
            rgba = to_rgba(case["color"], case["alpha"])
            for v, p in pol:
                require(p.get_fill() and np.allclose(p.get_facecolor(), rgba), "a polygon has the colour %r, not %r", p.get_facecolor(), rgba)
            key = lambda P: sorted(set((round(x, 6) + 0.0, round(y, 6) + 0.0) for x, y in P))
            require(sorted(key(v) for v, _ in pol) == sorted(key(v) for v in lists), "polygons %r, vertices %r", [v.tolist() for v, _ in pol], [v.tolist() for v in lists])
            require(set(key([t[:2] for t in d])) == set(key(np.vstack(lists)) if lists else []) and all(t[3] == case["s"] for t in d), "dots %r", d)
        else:
            polys = [np.asarray(v, float) for c in ax.collections if type(c).__name__ == "Poly3DCollection" for v in polygons3d(c)]
            keyed = [v3(P) for P in polys]
            allv = [v3(v) for v in lists]
            for P in keyed:
                require(P in allv, "a face %r is drawn that was not returned", P)
            if case["what"] == "3D":
                require(sorted(keyed) == sorted(allv), "drawn faces %r, returned %r", keyed, allv)
        return [case["what"], "point system" if case.get("point") else "direct"]
    finally:
        os.chdir(cwd)
        tmp.cleanup()
        plt.close("all")


def polygons3d(c):
    """Vertices of the polygons of a Poly3DCollection."""
    if getattr(c, "_faces", None) is not None:
        F, inv = np.asarray(c._faces, float), np.asarray(c._invalid_vertices)
        return [f[~m] if np.ndim(m) else f for f, m in zip(F, np.broadcast_to(inv, F.shape[:2]) if inv.ndim else [False] * len(F))]
    return [c._vec[:3].T[s] for s in c._segslices]


def v3(P):
    return sorted(tuple(np.round(p, 6) + 0.0) for p in np.asarray(P, float))


PARTS = [Part("plots", strat_plot, check_plot, 700, thorough=8000, shards=4, rule="at least one mark was expected"),
         Part("show", strat_show, check_show, 500, thorough=6000, shards=4, rule="a non-empty set was drawn")]
