"""Strategies of JSON data and the construction of intvalpy objects from it."""
import math
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

import intvalpy as ip

INF = float("inf")

# --------------------------------------------------------------------------------------------------------------
# numbers
SPECIAL = [0.0, 1.0, -1.0, 0.1, -0.1, 1 / 3, -1 / 3, 2.0, 0.5, 3.0, 1e-3, 1e3, math.pi, 7.7, -2.5, 1.5]


def small_ints(lo=-9, hi=9):
    return st.integers(lo, hi)


def dyadic(lo=-32, hi=32, q=8):
    """k/q with |k/q| moderate: sums and small products are exact."""
    return st.integers(lo, hi).map(lambda k: k / q)


def reals(lo=-10.0, hi=10.0):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


@st.composite
def wide(draw, emin=-60, emax=60):
    """Full mantissas over many orders of magnitude."""
    m = draw(st.integers(2 ** 52, 2 ** 53 - 1))
    e = draw(st.integers(emin, emax))
    s = draw(st.sampled_from([1.0, -1.0]))
    return s * math.ldexp(m, e - 52)


def floats_any(emin=-60, emax=60):
    return st.one_of(st.sampled_from(SPECIAL), dyadic(), reals(), wide(emin, emax), small_ints().map(float))


def numbers(emin=-60, emax=60, big=2 ** 53):
    """Python numbers: floats of all sorts and ints up to `big`."""
    ints = [small_ints()] if not big else [small_ints(), st.integers(-big, big)]
    return st.one_of(floats_any(emin, emax), floats_any(emin, emax), *ints)


def scalar(emin=-60, emax=60, big=2 ** 40):
    """A number in one of the representations users pass: [kind, value]."""
    return st.one_of(
        st.tuples(st.just("float"), floats_any(emin, emax)),
        st.tuples(st.just("int"), st.one_of(small_ints(), st.integers(-big, big))),
        st.tuples(st.just("float64"), floats_any(emin, emax)),
        st.tuples(st.just("int64"), st.one_of(small_ints(), st.integers(-big, big))),
        narrow(),
    ).map(list)


NARROW = {"int8": (-128, 127), "int16": (-2 ** 15, 2 ** 15 - 1), "int32": (-2 ** 31, 2 ** 31 - 1), "uint8": (0, 255), "uint16": (0, 2 ** 16 - 1),
          "uint32": (0, 2 ** 32 - 1), "uint64": (0, 2 ** 40)}


def narrow():
    """Numbers of numpy's smaller types, unsigned ones included."""
    ints = [st.tuples(st.just(k), st.one_of(st.integers(max(lo, -9), 9), st.integers(lo, hi), st.sampled_from([lo, hi]))) for k, (lo, hi) in NARROW.items()]
    return st.one_of(st.tuples(st.just("float32"), st.one_of(dyadic(), st.floats(-1e3, 1e3, width=32).filter(lambda v: v == 0 or abs(v) > 1e-9))),
                     st.tuples(st.just("float16"), st.one_of(dyadic(), st.floats(-512, 512, width=16).filter(lambda v: v == 0 or abs(v) > 1e-4))),
                     st.one_of(*ints))


def mk_scalar(s):
    kind, v = s
    return {"float": float, "int": int}[kind](v) if kind in ("float", "int") else getattr(np, kind)(v)


# --------------------------------------------------------------------------------------------------------------
# intervals: [a, b] (b < a: improper)
@st.composite
def pair(draw, ends=None, improper=False, proper=True):
    """Two endpoints. proper: a <= b; improper: a >= b possible."""
    ends = ends if ends is not None else numbers()
    a = draw(ends)
    shape = draw(st.integers(0, 9))
    if shape <= 4:
        b = draw(ends)
    elif shape == 5:
        b = a                                             # degenerate
    elif shape == 6:
        b = type(a)(0)                                    # zero endpoint
    elif shape == 7:
        b = -a                                            # symmetric
    elif shape == 8:
        b = a + draw(st.integers(1, 3))                   # one sign, moderate width
    else:
        b = a * draw(st.sampled_from([2, 3, 5]))
    if isinstance(a, float) and not math.isfinite(a):
        a = 1.0
    if isinstance(b, float) and not math.isfinite(b):
        b = a
    if isinstance(a, int) and isinstance(b, int) and abs(b) > 2 ** 53:
        b = a
    if not improper:
        return [min(a, b), max(a, b)]
    if not proper:
        return [max(a, b), min(a, b)]
    return [a, b]


def mk(p):
    return ip.Interval(p[0], p[1], sortQ=False)


def mk_array(pairs):
    """Nested lists of pairs -> interval array."""
    arr = np.array(pairs, dtype=object)
    return ip.Interval(arr[..., 0], arr[..., 1], sortQ=False)


def fr(x):
    """Exact value of a finite number."""
    return F(x)


# --------------------------------------------------------------------------------------------------------------
# interval systems as {"A": [[[lo, hi], ...], ...], "b": [[lo, hi], ...]}
@st.composite
def box(draw, n, centre=None, radius=None):
    out = []
    for _ in range(n):
        c = draw(centre if centre is not None else dyadic())
        r = draw(radius if radius is not None else st.sampled_from([0.0, 0.125, 0.25, 0.5, 1.0, 2.0]))
        out.append([c - r, c + r])
    return out


def lohi(pairs):
    a = np.array(pairs, dtype=np.float64)
    return a[..., 0], a[..., 1]


def system(case):
    return mk_array(case["A"]), mk_array(case["b"])
