"""Exact arithmetic oracles (rational numbers, mpmath)."""
import math
from fractions import Fraction as F

DBL_MAX = 1.7976931348623157e308
TINY = 5e-324


def ulp_gap(x):
    """Distance between neighbouring doubles at |x| (a Fraction)."""
    f = abs(x)
    if f >= F(DBL_MAX):
        return F(math.ulp(DBL_MAX))
    return F(math.ulp(float(f))) if f else F(TINY)


def _float(f):
    return float(f) if f < F(DBL_MAX) else math.inf


def lower_ok(got, exact, ulps=4):
    """got is a lower bound of exact, at most `ulps` ulps below. Returns None or a description."""
    if isinstance(got, float) and math.isnan(got):
        return "is nan"
    if got == math.inf:
        return "is +inf"
    if got == -math.inf:
        return None if exact < -F(DBL_MAX) else "is -inf"
    g = F(got)
    if g > exact:
        return "is above the exact value by %.3g" % _float(g - exact)
    if exact - g > ulps * ulp_gap(exact) and not (exact > F(DBL_MAX) and g >= F(DBL_MAX)):
        return "is below the exact value by %.3g (%d ulp allowed)" % (_float(exact - g), ulps)
    return None


def upper_ok(got, exact, ulps=4):
    return lower_ok(-got, -exact, ulps)
