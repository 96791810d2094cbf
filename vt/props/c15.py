"""The floating-point environment is left as it was found."""
import ctypes
import operator
from decimal import Decimal
from fractions import Fraction

import numpy as np
from mpmath import mpf
from hypothesis import strategies as st

import gen
import intvalpy as ip
from core import Part, Skip, require

RULE = ("Histories of up to 12 interval operations (arithmetic, powers, functions, products of arrays, solvers, and "
        "operations that raise in the middle: huge integers, fractions, decimals, "
        "arrays of other shapes, operands whose own arithmetic fails) started under each of the four rounding modes. Oracle: fegetround of libm "
        "after every operation, and the results of probe additions, are those of the mode before. Non-trivial: at "
        "least three operations.")
ASSUMPTIONS = []
LIBM = ctypes.CDLL("libm.so.6")
MODES = {"nearest": 0, "down": 0x400, "up": 0x800, "zero": 0xc00}


def probe():
    return (1.0 + float.fromhex("0x1p-60"), -1.0 - float.fromhex("0x1p-60"), 1.0 / 3.0)


def iv():
    return gen.pair(st.one_of(gen.reals(-5, 5), gen.small_ints(), gen.dyadic()), improper=True)


NAMES = ["+", "-", "*", "/", "n+", "n*", "n/", "n-", "/n", "pow", "powreal", "sqrt", "exp", "log", "sin", "cos", "inv",
         "dual", "matmul", "sum", "exp_big", "div0", "div0n", "raise_pow", "gauss", "tol", "intersection", "abs", "pow_big",
         "bigint"] + ["odd" + o for o in "+-*/r^@"]
# operands that make an operation raise in the middle, or that are not converted the usual way
ODD = [lambda: ip.Interval(10 ** 400, 10 ** 401), lambda: 10 ** 400, lambda: -10 ** 400, lambda: Fraction(1, 3),
       lambda: 1j, lambda: ip.Interval(Fraction(1, 3), Fraction(1, 2)), lambda: np.zeros((2, 3)),
       lambda: ip.Interval(Decimal("0.1"), Decimal("0.2")), lambda: ip.Interval(np.zeros((3, 2)), np.ones((3, 2))),
       lambda: mpf("0.1"), lambda: ip.Interval(mpf("0.1"), mpf("0.2")), lambda: ip.Interval(True, True),
       lambda: np.float32(0.1), lambda: ip.Interval(0.0, 10 ** 400), lambda: ip.Interval(-10 ** 400, 1.5), lambda: Awkward()]


class Awkward:
    """A number-like operand whose arithmetic raises."""
    __array_ufunc__ = None

    def fail(self, *other):
        raise ZeroDivisionError("awkward")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = fail
    __float__ = __lt__ = __gt__ = __le__ = __ge__ = fail


ODDOPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "^": operator.pow, "@": operator.matmul,
          "r": lambda x, y: (y + x, y * x, y - x, y / x)}


def strat():
    op = st.tuples(st.sampled_from(NAMES), iv(), iv(), st.sampled_from([2, 3.5, -1, 0.1, 7]),
                   st.integers(0, len(ODD) - 1), st.integers(-1, len(ODD) - 1)).map(list)
    return st.fixed_dictionaries({"mode": st.sampled_from(["nearest", "nearest", "down", "up", "zero"]),
                                  "ops": st.lists(op, min_size=1, max_size=12)})


def run(name, X, Y, n, a, b):
    if name.startswith("odd"):
        P, Q = ODD[a](), X if b < 0 else ODD[b]()
        if not isinstance(P, ip.ClassicalArithmetic) and not isinstance(Q, ip.ClassicalArithmetic):
            P = X
        if name[3] == "^" and isinstance(Q, (int, np.floating)):
            Q = 3                       # a power by repeated multiplication
        ODDOPS[name[3]](P, Q)
    elif name in "+-*/":
        {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[name](X, Y)
    elif name in ("n+", "n*", "n/", "n-"):
        {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[name[1]](n, X)
    elif name == "/n":
        X / n
    elif name == "pow":
        X ** 5
    elif name == "powreal":
        X ** 0.5
    elif name in ("sqrt", "exp", "log", "sin", "cos"):
        getattr(ip, name)(X)
    elif name == "exp_big":
        ip.exp(ip.Interval(1.0, 1e6))
    elif name in ("inv", "dual"):
        getattr(X, name)
    elif name == "matmul":
        A = ip.asinterval([[X, Y], [Y, X]])
        A @ A
    elif name == "sum":
        ip.asinterval([X, Y, X]) + X
    elif name == "div0":
        X / ip.Interval(-1, 1)
    elif name == "div0n":
        n / ip.Interval(0, 1)
    elif name == "raise_pow":
        ip.Interval(-2, 1) ** 0.5
    elif name == "gauss":
        ip.Gauss(ip.Interval([[[3, 4], [0, 1]], [[0, 1], [3, 4]]]), ip.Interval([[-1, 1], [1, 2]]))
    elif name == "tol":
        ip.Tol.value(ip.Interval([[[3, 4], [0, 1]], [[0, 1], [3, 4]]]), ip.Interval([[-1, 1], [1, 2]]), np.array([0.1, 0.3]))
    elif name == "intersection":
        ip.intersection(X, Y)
    elif name == "abs":
        abs(X)
    elif name == "pow_big":
        ip.Interval(1e200, 1e300) ** 7
    elif name == "bigint":
        ip.Interval(10 ** 30, 10 ** 400) ** 2


def check(case):
    base = LIBM.fegetround()
    require(base == 0, "the process does not start in round-to-nearest")
    names, raised = [], 0
    mode = MODES[case["mode"]]
    LIBM.fesetround(mode)
    before = probe()
    bad = None
    try:
        for name, x, y, n, a, b in case["ops"]:
            LIBM.fesetround(0)
            X, Y = gen.mk(x), gen.mk(y)
            LIBM.fesetround(mode)
            try:
                run(name, X, Y, n, a, b)
            except Exception:
                raised += 1
            now, after = LIBM.fegetround(), probe()
            if now != mode or after != before:
                bad = (name, x, y, (n, a, b), now)
                break
            names.append(name)
    finally:
        LIBM.fesetround(0)
    require(bad is None, "the rounding mode %#x became %#x after %r of %r, %r, %r", mode, bad[4] if bad else 0,
            *(bad[:4] if bad else (0, 0, 0, 0)))
    if len(names) < 3:
        return None
    return [case["mode"], "with exceptions" if raised else "no exceptions"] + sorted(set(names))


PARTS = [Part("history", strat, check, 2500, shards=4, rule="rounding mode after every operation")]
