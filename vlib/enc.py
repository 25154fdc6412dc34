"""Encoding of observed values into what TLC can read."""
import math

BAD = 'NaN'          # anything not representable: never equal to a number
LIM = 2 ** 30


def num(x, den=1, tol=1e-6):
    """Observed number -> integer numerator over `den`, or BAD."""
    try:
        v = float(x) * den
    except Exception:
        return 1000000007
    if not math.isfinite(v) or abs(v) >= LIM:
        return 1000000007
    r = round(v)
    if abs(v - r) > tol * max(1.0, 1.0):
        return 1000000009
    return int(r)


def arr(a, den=1):
    """Observed array (nested) -> nested lists of integers."""
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        return num(a, den)
    return [arr(x, den) for x in a]


def flat(a, den=1):
    import numpy as np
    return [num(x, den) for x in np.asarray(a).ravel()]


def err(e):
    """Name of an exception, stable under refactoring: its class name."""
    return 'err:' + type(e).__name__


# ---- fixed point with 20 fractional bits (specs/Fix.tla)
S = 1 << 20


def fx(x):
    try:
        v = float(x) * S
    except Exception:
        return 1000000007
    if not math.isfinite(v) or abs(v) >= LIM:
        return 1000000007
    return int(round(v))


def fxs(a):
    """nested lists"""
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        return fx(a)
    return [fxs(x) for x in a]


def fxflat(a):
    import numpy as np
    return [fx(x) for x in np.asarray(a).ravel()]
