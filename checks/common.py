"""helpers shared by the checks"""
import math

import z3

from sym import core, build, catalog
from sym.core import T, SI, BT, UNDEF
from sym.harness import server, same, num, follows, Result


def aslist(r):
    return list(r) if isinstance(r, tuple) else [r]


def isnan(x):
    return x.__class__ is float and x != x


def differs(c, a, b, timeout_ms=8000):
    """None if a == b for all values on the path, 'unknown', or a model of the difference"""
    if a is b:
        return None
    if a is UNDEF or b is UNDEF:
        return c.model() or {}
    ca, cb = not isinstance(a, (T, SI)), not isinstance(b, (T, SI))
    if ca and cb:
        if a == b or (a != a and b != b):
            return None
        return c.model() or {}
    if (ca and not math.isfinite(a)) or (cb and not math.isfinite(b)):
        return c.model() or {}
    def low(x):
        if isinstance(x, SI):
            return z3.ToReal(x.e)
        return c.low(x)
    return c.model(low(a) != low(b), timeout_ms=timeout_ms)


def ieq_real(a, b, rtol=1e-12):
    """exact agreement of two real results up to a relative tolerance of the largest element"""
    import numpy as np
    a, b = np.asarray(a, "f8"), np.asarray(b, "f8")
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    if not a.size:
        return None
    s = np.nanmax(np.where(np.isfinite(b), np.abs(b), 0.0), initial=0.0)
    bad = ~((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * s))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return f"element {list(i)} is {a[i]!r} instead of {b[i]!r}"
    return None


class Thin:
    """validate the first paths and then every n-th"""

    def __init__(self, first=4, every=25):
        self.n, self.first, self.every = 0, first, every

    def __call__(self):
        self.n += 1
        return self.n <= self.first or self.n % self.every == 0
