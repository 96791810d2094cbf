"""Interval arrays behave as containers like numpy arrays."""
import itertools

import numpy as np
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require

RULE = ("Histories of up to 14 operations on one interval array of 1-3 dimensions: reading and writing with integers, "
        "negative integers, slices with steps, tuples, index lists, boolean masks and ellipsis, deletion, reshape, "
        "transposition, copies, in-place arithmetic with a number, iteration, reversal, length, conversion by numpy, arrays from which everything was deleted. Oracle (stateful "
        "model): two plain numpy arrays of the endpoints to which the same operations are applied; after every step the "
        "whole observable state (shape, ndim, ranges, endpoints) is compared. Non-trivial: at least three operations.")
ASSUMPTIONS = ["deletion by a tuple is examined in the form del x[:, j]", "data are dyadic, so that arithmetic in the "
               "history is exact"]


class Model:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def make(lo, hi):
    out = np.empty(lo.shape, dtype=object)
    for i in np.ndindex(*lo.shape):
        out[i] = ip.Interval(lo[i], hi[i], sortQ=False)
    return ip.ArrayInterval(out)


def compare(X, m, what):
    require(isinstance(X, ip.ArrayInterval), "%s: the result is a %s", what, type(X).__name__)
    require(X.shape == m.lo.shape, "%s: shape %r, not %r", what, X.shape, m.lo.shape)
    require(X.ndim == m.lo.ndim and list(X.ranges) == [range(d) for d in m.lo.shape], "%s: ndim %r, ranges %r", what, X.ndim,
            X.ranges)
    require(np.array_equal(X.a, m.lo) and np.array_equal(X.b, m.hi), "%s: %r..%r, not %r..%r", what, X.a, X.b, m.lo,
            m.hi)
    require(X.data.shape == m.lo.shape, "%s: data of shape %r", what, X.data.shape)


def mk_index(ix, shape):
    """JSON index -> python index, or None when it does not fit the shape."""
    def one(e, d):
        k = e[0]
        if k == "i":
            return e[1] % d if e[1] >= 0 else -1 - (-1 - e[1]) % d
        if k == "s":
            return slice(e[1], e[2], e[3])
        if k == "l":
            return [q % d for q in e[1]]
        if k == "n":
            return np.int64(e[1] % d)
        return Ellipsis
    if ix[0] == "mask":
        return np.array([(ix[1] >> (i % 16)) & 1 == 1 for i in range(int(np.prod(shape)))]).reshape(shape)
    if ix[0] == "t":
        es = ix[1][:len(shape)]
        seen, out = 0, []
        for j, e in enumerate(es):
            if e[0] == "e":
                if seen:
                    continue
                seen = 1
                out.append(Ellipsis)
            else:
                out.append(one(e, shape[j] if not seen else shape[len(shape) - len(es) + j]))
        return tuple(out)
    return one(ix, shape[0])


def elem():
    sl = st.tuples(st.just("s"), st.one_of(st.none(), st.integers(-4, 4)), st.one_of(st.none(), st.integers(-4, 4)),
                   st.one_of(st.none(), st.sampled_from([1, 2, -1, -2, 3]))).map(list)
    return st.one_of(st.tuples(st.just("i"), st.integers(-5, 5)).map(list), sl, sl)


def index():
    return st.one_of(elem(), st.tuples(st.just("n"), st.integers(0, 5)).map(list),
                     st.tuples(st.just("l"), st.lists(st.integers(0, 5), min_size=1, max_size=4)).map(list),
                     st.tuples(st.just("t"), st.lists(st.one_of(elem(), elem(), st.just(["e"])), min_size=1, max_size=3)
                               ).map(list),
                     st.tuples(st.just("mask"), st.integers(0, 2 ** 16 - 1)).map(list))


def iv():
    return gen.pair(gen.dyadic(), improper=True)


@st.composite
def strat(draw):
    shape = draw(st.sampled_from([[1], [3], [4], [6], [2, 3], [3, 2], [2, 2], [4, 3], [2, 3, 2], [1, 4]]))
    n = int(np.prod(shape))
    op = st.one_of(
        st.tuples(st.just("get"), index()),
        st.tuples(st.just("take"), index()),
        st.tuples(st.just("set"), index(), iv()),
        st.tuples(st.just("setnum"), index(), st.one_of(gen.small_ints(), gen.dyadic())),
        st.tuples(st.just("setarr"), index(), st.lists(iv(), min_size=1, max_size=5)),
        st.tuples(st.just("setlist"), index(), st.lists(st.one_of(gen.small_ints(), gen.dyadic()), min_size=1, max_size=5)),
        st.tuples(st.just("del"), st.one_of(elem(), st.tuples(st.just("l"), st.lists(st.integers(0, 5), min_size=1,
                                                                                    max_size=3)).map(list),
                                          st.tuples(st.just("n"), st.integers(0, 5)).map(list),
                                          st.tuples(st.just("col"), st.integers(0, 5)).map(list))),
        st.tuples(st.just("reshape"), st.integers(0, 9)), st.tuples(st.just("T")), st.tuples(st.just("copy"), index(), iv()),
        st.tuples(st.just("iadd"), gen.dyadic()), st.tuples(st.just("imul"), st.sampled_from([2.0, -1.0, 0.5, 1])),
        st.tuples(st.just("isub"), gen.dyadic()), st.tuples(st.just("itruediv"), st.sampled_from([2.0, -4.0, 0.5])),
        st.tuples(st.just("iarr"), st.sampled_from(["row", "same", "wide"]), st.lists(iv(), min_size=1, max_size=5)),
        st.tuples(st.just("neg")), st.tuples(st.just("walk")), st.tuples(st.just("convert"))).map(list)
    return {"shape": shape, "x": draw(st.lists(iv(), min_size=n, max_size=n)),
            "ops": draw(st.lists(op, min_size=4, max_size=14))}


def shapes_of(n):
    out = [(n,), (-1,)]
    for a in range(1, n + 1):
        if n % a == 0:
            out += [(a, n // a), (a, -1)]
            out += [(a, b, n // a // b) for b in range(1, n // a + 1) if (n // a) % b == 0]
    return out


def check(case):
    shape = tuple(case["shape"])
    p = np.array(case["x"], dtype=float)
    m = Model(p[:, 0].reshape(shape).copy(), p[:, 1].reshape(shape).copy())
    X = make(m.lo, m.hi)
    labels, done = [], 0
    for step, op in enumerate(case["ops"]):
        name = op[0]
        what = "step %d (%r)" % (step, op)
        if m.lo.size == 0:
            # nothing is left: still an array with the shape that is left
            for y, z in ((X, m.lo), (-X, m.lo), (abs(X), m.lo), (X + 1, m.lo), (X * X, m.lo), (X.T, m.lo.T), (X.copy(), m.lo), (X.dual, m.lo), (X[:1], m.lo[:1])):
                compare(y, Model(z, z), what + ", an empty array")
            require(len(X) == len(m.lo) and len(list(X)) == len(m.lo) and (0 in X) is False, "%s: an empty array has entries", what)
            labels.append("empty")
            break
        if name in ("get", "take", "set", "setnum", "setarr", "setlist", "copy"):
            ix = mk_index(op[1], m.lo.shape)
            try:
                lo, hi = m.lo[ix], m.hi[ix]
            except IndexError:
                continue
            if np.size(lo) == 0 and name != "get":
                continue
        if name in ("get", "take"):
            if np.size(lo) == 0 and name == "take":
                continue
            r = X[ix]
            if np.ndim(lo) == 0:
                require(isinstance(r, ip.ARITHMETICS) and r.a == lo and r.b == hi, "%s gives %r, not [%r, %r]", what, r, lo,
                        hi)
            else:
                compare(r, Model(lo, hi), what)
                if name == "take":
                    X, m = r, Model(lo.copy(), hi.copy())
        elif name == "set":
            X[ix] = gen.mk(op[2])
            m.lo[ix], m.hi[ix] = op[2]
        elif name == "setnum":
            X[ix] = op[2]
            m.lo[ix] = m.hi[ix] = op[2]
        elif name in ("setarr", "setlist"):
            vals = op[2]
            if name == "setarr":
                vl, vh = np.array([v[0] for v in vals], dtype=float), np.array([v[1] for v in vals], dtype=float)
                arg = make(vl, vh)
            else:
                vl = vh = np.array(vals, dtype=float)
                arg = vals
            want = np.shape(lo)
            if want == () or name == "setlist" and len(want) == 0:
                continue
            if len(vals) not in (1, want[-1]):
                continue                       # does not broadcast
            X[ix] = arg
            m.lo[ix], m.hi[ix] = vl, vh
        elif name == "del":
            e = op[1]
            if e[0] == "col":
                if m.lo.ndim < 2:
                    continue
                j = e[1] % m.lo.shape[1]
                del X[:, j]
                m.lo, m.hi = np.delete(m.lo, j, axis=1), np.delete(m.hi, j, axis=1)
            else:
                ix = mk_index(e, m.lo.shape)
                del X[ix]
                m.lo, m.hi = np.delete(m.lo, ix, axis=0), np.delete(m.hi, ix, axis=0)
        elif name == "reshape":
            ss = shapes_of(m.lo.size)
            s = ss[op[1] % len(ss)]
            X = X.reshape(s)
            m = Model(m.lo.reshape(s), m.hi.reshape(s))
        elif name == "T":
            X = X.T
            m = Model(m.lo.T.copy(), m.hi.T.copy())
        elif name == "copy":
            Y = X.copy()
            Y[ix] = gen.mk(op[2])
            compare(X, m, what + ", the original after the copy was written to")
            q = Model(m.lo.copy(), m.hi.copy())
            q.lo[ix], q.hi[ix] = op[2]
            compare(Y, q, what + ", the copy")
            X[ix] = 0
            m.lo[ix] = m.hi[ix] = 0
            compare(Y, q, what + ", the copy after the original was written to")
        elif name == "iadd":
            X += op[1]
            m = Model(m.lo + op[1], m.hi + op[1])
        elif name == "imul":
            if np.max(np.abs(np.r_[m.lo.ravel(), m.hi.ravel()])) > 1e6 or np.any(m.lo > m.hi):
                continue
            X *= op[1]
            l, h = m.lo * op[1], m.hi * op[1]
            m = Model(np.minimum(l, h), np.maximum(l, h))
        elif name == "isub":
            X -= op[1]
            m = Model(m.lo - op[1], m.hi - op[1])
        elif name == "itruediv":
            v = np.r_[m.lo.ravel(), m.hi.ravel()] * 2 ** 16
            if np.any(m.lo > m.hi) or np.any(v != np.round(v)):      # the endpoints stay short, so no operation rounds
                continue
            X /= op[1]
            l, h = m.lo / op[1], m.hi / op[1]
            m = Model(np.minimum(l, h), np.maximum(l, h))
        elif name == "iarr":
            # in-place with an array: of one row, of the same shape, or (numpy refuses that) of a larger shape
            t = {"row": m.lo.shape[-1:], "same": m.lo.shape, "wide": (2,) + m.lo.shape}[op[1]]
            if op[1] == "wide" and m.lo.size > 6:
                continue
            q = np.array((op[2] * (int(np.prod(t)) // len(op[2]) + 1))[:int(np.prod(t))], dtype=float)
            l, h = q[:, 0].reshape(t), q[:, 1].reshape(t)
            try:
                X += make(l, h)
            except ValueError:
                require(op[1] == "wide", "%s: a ValueError", what)
            else:
                m = Model(m.lo + l, m.hi + h)
        elif name == "neg":
            X = -X
            m = Model(-m.hi, -m.lo)
        elif name == "convert":
            for g in (np.array(X), np.asarray(X), np.asarray(X, dtype=object), np.array(X, dtype=object)):
                require(g.dtype == object and g.shape == m.lo.shape and all(c.a == u and c.b == v for c, u, v in zip(g.ravel(), m.lo.ravel(), m.hi.ravel())),
                        "%s: numpy makes %r of the array", what, g)
            for g in (np.array(X), np.array(X, dtype=object)):
                g[...] = 7
            compare(X, m, what + ", after numpy's copy was written to")
        else:
            require(len(X) == m.lo.shape[0], "%s: len %r", what, len(X))
            for way, it, k in (("iteration", iter(X), list(range(len(X)))),
                               ("reversed", reversed(X), list(range(len(X)))[::-1])):
                items = list(it)
                require(len(items) == len(k), "%s: %s yields %d items", what, way, len(items))
                for item, j in zip(items, k):
                    cells = np.array(item, dtype=object).ravel() if not isinstance(item, ip.ARITHMETICS) else [item]
                    require([c.a for c in cells] == list(np.ravel(m.lo[j])) and
                            [c.b for c in cells] == list(np.ravel(m.hi[j])), "%s: %s yields %r", what, way, item)
            if m.lo.ndim <= 2 and m.lo.size <= 4:
                V = X.vertex
                want = sorted(itertools.product(*zip(m.lo.ravel(), m.hi.ravel())))
                require(V.shape == (2 ** m.lo.size,) + m.lo.shape, "%s: vertex has shape %r", what, V.shape)
                require(sorted(tuple(v.ravel()) for v in V) == want, "%s: vertex gives %r", what, V)
        if name not in ("get", "walk") and not (name == "del" and m.lo.size == 0):
            compare(X, m, what)
        done += 1
        labels.append(name)
    if done < 3:
        return None
    return sorted(set(labels))


@st.composite
def strat_long(draw):
    """The same histories on arrays of 40 to 360 elements, made from a seed."""
    case = draw(strat())
    shape = draw(st.sampled_from([[40], [130], [360], [20, 9], [3, 50], [70, 2], [6, 5, 4]]))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 40)))
    case.update(shape=shape, x=np.sort(rng.integers(-40, 41, (int(np.prod(shape)), 2)) / 8, axis=1).tolist())
    return case


PARTS = [Part("long", strat_long, check, 200, thorough=6000, shards=2, rule="histories of arrays of 40 to 360 elements"),
         Part("history", strat, check, 2600, thorough=100000, shards=7, rule="histories of container operations")]
