"""Polynomial normal forms over trigonometric atoms (exact real arithmetic).

A symbolic double is normalised to a Laurent polynomial over atoms: the inputs, sines and cosines of
angles, square roots and - where the code does something else - opaque function values. sin^2 is
rewritten to 1 - cos^2, sines and cosines of multiples and sums of angles are expanded, sin/cos of
atan2/asin/acos are rewritten to their algebraic values, square roots of squares to the positive root.
Two terms equal for all values have the same normal form up to the rounding of the constants of the
code; what is left is handed to the solver as a linear combination of bounded monomials.
"""
import decimal
import math

import z3

from . import core
from .core import T, Lower, Unsupported, fcmp

decimal.setcontext(decimal.Context(prec=50, Emin=-999999, Emax=999999, traps=[]))
D = decimal.Decimal
PI = D("3.14159265358979323846264338327950288419716939937510582097494")
DEG = PI / 180
ONE = ()
EPS = D("1e-11")       # constants are compared up to this relative difference
CLEAN = D("1e-25")     # rounding noise of the coefficients


def exact(on=True):
    """compare constants exactly (the constant operations of the code are not folded)"""
    global EPS, CLEAN
    core.EXACT = on
    EPS, CLEAN = (D("1e-40"), D("1e-60")) if on else (D("1e-11"), D("1e-25"))
    decimal.getcontext().prec = 90 if on else 50


class Atom:
    __slots__ = ("name", "lo", "hi", "sq", "den", "term", "nonzero", "whole")

    def __init__(self, name, lo=-math.inf, hi=math.inf, sq=None, den=None, term=None):
        self.name, self.lo, self.hi = name, lo, hi
        self.sq = sq          # polynomial of the square (or of another power: reduces exponents >= 2)
        self.den = den        # reciprocal atom: polynomial of its inverse
        self.term = term
        self.nonzero = False
        self.whole = None     # (function, argument) of an integer valued atom


class Angle:
    __slots__ = ("mono", "unit", "sin", "cos", "lo", "hi", "memo", "key")

    def __init__(self, mono, unit, sin, cos, lo, hi):
        self.key = sin, cos
        self.mono, self.unit, self.sin, self.cos, self.lo, self.hi = mono, unit, sin, cos, lo, hi
        self.memo = {}


def const(x):
    x = x if isinstance(x, D) else D(x)
    return {ONE: x} if x else {}


def add(p, q, k=1):
    r = dict(p)
    for m, v in q.items():
        x = r.get(m)
        y = v if k == 1 else v * k
        if x is None:
            r[m] = y
        else:
            y = x + y
            if y:
                r[m] = y
            else:
                del r[m]
    return r


def scale(p, k):
    return {m: v * k for m, v in p.items()} if k else {}


def maxabs(p):
    return max((abs(v) for v in p.values()), default=D(0))


class Ring:
    def __init__(self):
        self.atoms = []
        self.byname = {}
        self.angles = []
        self.memo = {}
        self.roots = []
        self.cubes = []
        self.invs = []
        self.opaque = []
        self.named = []           # values which are atoms of their own
        self.red = {}
        self.tb = {}
        self.sis = {}             # symbolic integers
        self.whole = None         # tolerance [rad]: sums of angles are single angles (no addition theorems)
        self.wholes = []

    # ---- atoms
    def atom(self, name, lo=None, hi=None, deg=2, **kw):
        i = self.byname.get(name)
        if i is None:
            i = self.byname[name] = len(self.atoms)
            self.atoms.append(Atom(name, -math.inf if lo is None else lo, math.inf if hi is None else hi, **kw))
            if kw.get("sq") is not None:
                self.red[i] = deg
        else:
            a = self.atoms[i]
            if lo is not None:
                a.lo = max(a.lo, lo)
            if hi is not None:
                a.hi = min(a.hi, hi)
        return i

    def v(self, name):
        """polynomial of an atom"""
        return {((self.atom(name), 1),): D(1)}

    def angle(self, name, unit=D(1), lo=None, hi=None):
        """register an angle atom (value*unit in radians); lo, hi: its range in radians"""
        i = self.atom(name)
        mono = ((i, 1),)
        for a in self.angles:
            if a.mono == mono and close(a.unit, unit):
                return a
        c0, c1, s0, s1 = self.trigrange(lo, hi)
        c = self.atom(f"cos<{name}>", c0, c1)
        s = self.atom(f"sin<{name}>", s0, s1, sq={ONE: D(1), ((c, 2),): D(-1)})
        a = Angle(mono, D(unit), {((s, 1),): D(1)}, {((c, 1),): D(1)}, lo, hi)
        self.angles.append(a)
        return a

    @staticmethod
    def trigrange(lo, hi):
        """bounds of the cosine and sine of an angle"""
        c0, c1, s0, s1 = -1.0, 1.0, -1.0, 1.0
        if lo is not None:
            if lo >= -math.pi / 2 - 1e-9 and hi <= math.pi / 2 + 1e-9:
                # no double is an exact zero of the cosine
                c0 = max(1e-17, min(math.cos(lo), math.cos(hi)) * (1 - 1e-9))
                s0, s1 = math.sin(max(lo, -math.pi / 2)), math.sin(min(hi, math.pi / 2))
            elif lo >= -1e-9 and hi <= math.pi + 1e-9:
                s0 = 0.0
        return c0, c1, s0, s1

    # ---- arithmetic
    def mul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        if len(p) == 1 and ONE in p:
            return scale(q, p[ONE])
        r = {}
        red = self.red
        todo = None
        for m1, v1 in p.items():
            for m2, v2 in q.items():
                v = v1 * v2
                if m1 == ONE:
                    m, bad = m2, False
                elif m2 == ONE:
                    m, bad = m1, False
                else:
                    m, bad = merge(m1, m2, red)
                if bad:
                    if todo is None:
                        todo = {}
                    x = todo.get(m)
                    todo[m] = v if x is None else x + v
                else:
                    x = r.get(m)
                    if x is None:
                        r[m] = v
                    else:
                        x = x + v
                        if x:
                            r[m] = x
                        else:
                            del r[m]
        if todo:
            for m, v in todo.items():
                if v:
                    r = add(r, self.reduce(m, v))
        return r

    def mulmono(self, p, com):
        """product with a monomial (of any exponents)"""
        r = {}
        for m, v in p.items():
            r = add(r, self.reduce(merge(m, com, ())[0], v))
        return r

    def reduce(self, m, v):
        base, fac = [], []
        for a, e in m:
            if e >= 2 and a in self.red and e >= self.red[a]:
                q, e = divmod(e, self.red[a])
                fac.append((a, q))
            if e:
                base.append((a, e))
        r = {tuple(base): v}
        for a, q in fac:
            r = self.mul(r, self.pow(self.atoms[a].sq, q))
        return r

    def pow(self, p, n):
        r = const(1)
        while n:
            if n & 1:
                r = self.mul(r, p)
            n >>= 1
            if n:
                p = self.mul(p, p)
        return r

    def inv(self, p):
        p = clean(p)
        if len(p) == 1:
            (m, v), = p.items()
            return {tuple((a, -e) for a, e in m): 1 / v}
        if not p:
            raise Unsupported("division by an expression which is zero in exact arithmetic")
        # common monomial and leading coefficient are taken out
        com = self.common(p)
        p = {merge(m, com, ())[0]: v for m, v in p.items()} if com else p
        lead = p[max(p)]
        p = scale(p, 1 / lead)
        for i in self.invs:
            if eqp(self.atoms[i].den, p):
                break
        else:
            i = self.atom(f"inv{len(self.invs)}", den=p)
            lo, hi = self.interval(p)
            if lo > 0 or hi < 0:
                self.atoms[i].lo, self.atoms[i].hi = 1 / hi, 1 / lo
            self.invs.append(i)
        return {merge(((i, 1),), com, ())[0]: 1 / lead}

    def common(self, p):
        """monomial to multiply with so that no atom divides (or is divided by) all terms"""
        ex = None
        for m in p:
            d = dict(m)
            if ex is None:
                ex = d
            else:
                ex = {a: min(e, d.get(a, 0)) for a, e in ex.items() if True} | \
                     {a: min(e, 0) for a, e in d.items() if a not in ex}
        ex = {a: e for a, e in ex.items() if e}
        return tuple(sorted((a, -e) for a, e in ex.items()))

    def div(self, p, q):
        q = clean(q)
        if len(q) == 1:
            (m, v), = q.items()
            if m == ONE:
                return scale(p, 1 / v)
        if len(p) == len(q) and len(p) > 1:
            # a constant multiple
            k = next(iter(p))
            if k in q and eqp(p, scale(q, p[k] / q[k])):
                return const(p[k] / q[k])
        if 1 < len(q) <= 16 and 0 < len(p) <= 80:
            r = self.quotient(p, q)
            if r is not None:
                return r
        k, p = self.remainder(p, q)
        return add(k, self.mul(p, self.inv(q)))

    def remainder(self, p, q):
        """division of a short polynomial by a difference of variables: one form of ratios like (a - x)/(a - b) and 1 - (x - b)/(a - b)"""
        k = {}
        if 1 < len(q) <= 3 and len(p) <= 40 and not any(len(m) > 1 or m and (
                m[0][1] != 1 or self.atoms[m[0][0]].sq is not None or self.atoms[m[0][0]].den is not None) for m in q):
            lead = max(q)
            a, c = lead[0][0], q[lead]
            for _ in range(4):
                t = {m: v for m, v in p.items() if any(x == a and e > 0 for x, e in m)}
                if not t:
                    break
                t = scale({merge(m, ((a, -1),), ())[0]: v for m, v in t.items()}, 1 / c)
                k = add(k, t)
                p = add(p, self.mul(t, q), -1)
        return k, p

    def quotient(self, p, q):
        """exact quotient of polynomials, or None"""
        ats = sorted({a for x in (p, q) for m in x for a, e in m})
        key = lambda m: tuple(dict(m).get(a, 0) for a in ats)
        lq = max(q, key=key)
        inv = {tuple((a, -e) for a, e in lq): 1 / q[lq]}
        r, top, rem = {}, maxabs(p), p
        for _ in range(12):
            m = max(rem, key=key)
            t = self.mul({m: rem[m]}, inv)
            if len(t) != 1:
                return None
            t, = t.items()
            if t[0] in r:
                return None
            r[t[0]] = t[1]
            rem = clean(drop(add(rem, self.mul(q, dict([t])), -1), top))
            if not rem:
                return r
            if key(max(rem, key=key)) >= key(m):
                return None
        return None

    def sqrt(self, p):
        p = clean(p)
        if not p:
            return {}
        if len(p) == 1:
            (m, v), = p.items()
            if v > 0 and all(e % 2 == 0 for a, e in m):
                r = {ONE: v.sqrt()}
                for a, e in m:
                    x = {((a, 1),): D(1)}
                    r = self.mul(r, self.powi(self.abs(x), e // 2))
                return r
        # a square of a known polynomial?
        for i, (sq, root) in enumerate(self.roots):
            if abs(len(sq) - len(p)) <= 2 + len(p) // 4:
                k = max(sq, key=lambda m: abs(sq[m]))
                if k in p and p[k] / sq[k] > 0 and eqp(p, scale(sq, p[k] / sq[k])):
                    return scale(root, (p[k] / sq[k]).sqrt())
        q = self.perfect(p, 2)
        if q is not None:
            return self.abs(q)
        com = self.common(p)
        if any(e % 2 for a, e in com):
            com = tuple((a, e - e % 2) for a, e in com)
            com = tuple((a, e) for a, e in com if e)
        q = clean(self.mulmono(p, com)) if com else p
        if not q:
            return {}
        if com:
            return self.mul(self.sqrt(q), self.sqrt({tuple((a, -e) for a, e in com): D(1)}))
        lo, hi = self.interval(q)
        i = self.atom(f"root{len(self.roots)}", math.sqrt(max(lo, 0.0)), math.sqrt(hi) if hi >= 0 else 0.0, sq=q)
        r = {((i, 1),): D(1)}
        self.roots.append((q, r))
        return r

    def cbrt(self, p):
        p = clean(p)
        if not p:
            return {}
        if len(p) == 1 and ONE in p:
            v = p[ONE]
            return const((abs(v) ** (D(1) / 3)).copy_sign(v))
        q = self.perfect(p, 3)
        if q is not None:
            return q
        for i in self.cubes:
            if eqp(self.atoms[i].sq, p):
                break
        else:
            lo, hi = self.interval(p)
            f = lambda x: math.copysign(abs(x) ** (1 / 3), x) if math.isfinite(x) else x
            i = self.atom(f"cbrt{len(self.cubes)}", f(lo), f(hi), deg=3, sq=p)
            self.cubes.append(i)
        return {((i, 1),): D(1)}

    def perfect(self, p, n):
        """polynomial whose n-th power is p, or None (leading terms first)"""
        if not 2 <= len(p) <= 40:
            return None
        ats = sorted({a for m in p for a, e in m})
        key = lambda m: tuple(dict(m).get(a, 0) for a in ats)
        m = max(p, key=key)
        if any(e % n for a, e in m) or (n == 2 and p[m] < 0):
            return None
        v = p[m]
        v = v.sqrt() if n == 2 else (abs(v) ** (D(1) / 3)).copy_sign(v)
        lt = tuple((a, e // n) for a, e in m), v
        r = dict([lt])
        ld = ({tuple((a, -e * (n - 1)) for a, e in lt[0]): 1 / (n * v ** (n - 1))})
        top = maxabs(p)
        for _ in range(8):
            rem = clean(drop(add(p, self.pow(r, n), -1), top))
            if not rem:
                return r
            m = max(rem, key=key)
            t = self.mul({m: rem[m]}, ld)
            if len(t) != 1:
                return None
            t, = t.items()
            if t[0] in r or key(t[0]) > key(lt[0]):
                return None
            r[t[0]] = t[1]
        return None

    def powi(self, p, n):
        return self.pow(p, n) if n >= 0 else self.pow(self.inv(p), -n)

    def known_root(self, p):
        """declare a polynomial known to be non-negative; the root of its square is itself"""
        self.roots.append((clean(self.mul(p, p)), p))
        com = self.common(p)
        if com and all(self.atoms[a].lo >= 0 for a, e in com):
            q = clean(self.mulmono(p, com))
            self.roots.append((clean(self.mul(q, q)), q))

    def abs(self, p, t=None):
        lo, hi = self.interval(p)
        if isinstance(t, T):
            l, h = self.tb.get(t.id, (lo, hi))
            lo, hi = max(lo, l), min(hi, h)
        if lo >= 0:
            return p
        if hi <= 0:
            return scale(p, -1)
        for sq, root in self.roots:      # declared to be non-negative
            if eqp(root, p):
                return p
        # decided by a branch of the path
        if t is None:
            t = self.term(p)
        return p if core.CTX.branch(fcmp("oge", t, 0.0)) else scale(p, -1)

    def term(self, p):
        """term of a polynomial in inputs"""
        r = 0.0
        for m, v in p.items():
            x = float(v)
            for a, e in m:
                if self.atoms[a].name not in core.CTX.inputs:
                    raise Unsupported("absolute value of " + self.show(p))
                y = core.var(self.atoms[a].name)
                for _ in range(abs(e)):
                    x = core.fmul(x, y) if e > 0 else core.fdiv(x, y)
            r = core.fadd(r, x)
        return r

    # ---- bounds
    def interval(self, p):
        lo = hi = 0.0
        for m, v in p.items():
            a, b = self.mono_interval(m)
            v = float(v)
            if v < 0:
                a, b = b, a
            lo += mulb(v, a)
            hi += mulb(v, b)
        if len(p) > 1:
            # error of the summation
            pass
        return (lo if lo == lo else -math.inf), (hi if hi == hi else math.inf)

    def mono_interval(self, m):
        lo = hi = 1.0
        for a, e in m:
            x = self.atoms[a]
            l, h = powb(x.lo, x.hi, e)
            c = (mulb(lo, l), mulb(lo, h), mulb(hi, l), mulb(hi, h))
            lo, hi = min(c), max(c)
        return lo, hi

    # ---- trigonometry
    def multiple(self, a, k):
        """(cos, sin) of k times an angle"""
        r = a.memo.get(k)
        if r is None:
            if k == 0:
                r = const(1), {}
            elif k == 1:
                r = a.cos, a.sin
            elif k < 0:
                c, s = self.multiple(a, -k)
                r = c, scale(s, -1)
            else:
                c, s = self.multiple(a, k - 1)
                r = self.addangle(c, s, a.cos, a.sin)
            a.memo[k] = r
        return r

    def addangle(self, c1, s1, c2, s2):
        return (add(self.mul(c1, c2), self.mul(s1, s2), -1), add(self.mul(s1, c2), self.mul(c1, s2)))

    def turns(self, p, full):
        """without the whole multiples of a full turn"""
        r, tol = {}, D("1e-10") if self.whole is None else D("1e-7")
        for m, q in p.items():
            if len(m) == 1 and m[0][1] == 1 and (self.atoms[m[0][0]].whole or self.atoms[m[0][0]].name in self.sis):
                k = q / full
                if abs(k - k.to_integral_value()) < tol * abs(k):
                    continue
            r[m] = q
        return r

    def wholeangle(self, p):
        """sine and cosine of a sum as the atoms of a single angle"""
        for q, c, s in self.wholes:
            d = add(p, q, -1)
            k = round(float(d.get(ONE, 0)) / (math.pi / 2))
            d[ONE] = d.get(ONE, D(0)) - k * PI / 2
            lo, hi = self.interval(d)
            if max(abs(lo), abs(hi)) <= self.whole:
                return [(c, s), (scale(s, -1), c), (scale(c, -1), scale(s, -1)), (s, scale(c, -1))][k % 4]
        lo, hi = self.interval(p)
        n = len(self.wholes)
        i = self.atom(f"angle{n}", lo, hi)
        k = 0
        if math.isfinite(lo) and hi - lo <= math.pi:
            k = round((lo + hi) / math.pi)
            lo, hi = lo - k * math.pi / 2, hi - k * math.pi / 2
        a = self.angle(f"angle{n}", D(1), *((lo, hi) if hi - lo <= math.pi else (None, None)))
        c, s = a.cos, a.sin
        self.angles.remove(a)
        c, s = [(c, s), (scale(s, -1), c), (scale(c, -1), scale(s, -1)), (s, scale(c, -1))][k % 4]
        self.wholes.append((p, c, s))
        return c, s

    def cossin(self, p):
        c, s = const(1), {}
        p = self.turns(p, 2 * PI)
        if self.whole is not None and sum(m != ONE for m in p) > 1:
            return self.wholeangle(p)
        for m, q in sorted(p.items()):
            if m == ONE:
                n = q / (PI / 2)
                k = n.to_integral_value()
                if abs(n - k) < D("1e-12") * max(1, abs(k)):
                    c2, s2 = [(1, 0), (0, 1), (-1, 0), (0, -1)][int(k) % 4]
                    c2, s2 = const(c2), const(s2)
                else:
                    x = float(q)
                    c2, s2 = const(math.cos(x)), const(math.sin(x))
            else:
                for a in self.angles:
                    if a.mono == m:
                        k = q / a.unit
                        n = k.to_integral_value()
                        if n and (abs(k - n) < D("1e-10") * abs(n) or self.whole is not None and max(
                                map(abs, self.interval({m: (k - n) * a.unit}))) <= self.whole):
                            c2, s2 = self.multiple(a, int(n))
                            break
                else:
                    lo, hi = self.interval({m: q})
                    a = self.newangle(m, q, lo, hi)
                    c2, s2 = a.cos, a.sin
            c, s = self.addangle(c, s, c2, s2)
        return c, s

    def newangle(self, m, q, lo, hi):
        nm = self.mname(m) + "*" + format(float(q), ".17g")
        c0, c1, s0, s1 = self.trigrange(lo, hi)
        c = self.atom(f"cos<{nm}>", c0, c1)
        s = self.atom(f"sin<{nm}>", s0, s1, sq={ONE: D(1), ((c, 2),): D(-1)})
        a = Angle(m, q, {((s, 1),): D(1)}, {((c, 1),): D(1)}, lo, hi)
        self.angles.append(a)
        return a

    def mname(self, m):
        return "*".join(self.atoms[a].name + (f"^{e}" if e != 1 else "") for a, e in m) or "1"

    def show(self, p, n=8):
        k = sorted(p.items(), key=lambda x: -abs(x[1]))
        return " + ".join(f"{float(v):.6g}*{self.mname(m)}" for m, v in k[:n]) + (" + ..." if len(p) > n else "")

    def opaque_angle(self, p):
        """from now on the sine and cosine of the angle are atoms (an abstraction of their values)"""
        p = clean(p)
        if len(p) != 1 or ONE in p:
            return
        (m, v), = p.items()
        for a in self.angles:
            if a.mono == m and (len(a.sin) > 1 or len(a.cos) > 1 or any(len(x) > 1 for x in (*a.sin, *a.cos))):
                cl, ch = self.interval(a.cos)
                sl, sh = self.interval(a.sin)
                if a.lo is not None and a.lo >= -math.pi / 2 - 1e-9 and a.hi <= math.pi / 2 + 1e-9:
                    cl = max(cl, 0.0)
                n = self.mname(m)
                c = self.atom(f"cos<{n}>", max(cl, -1.0), min(ch, 1.0))
                s = self.atom(f"sin<{n}>", max(sl, -1.0), min(sh, 1.0), sq={ONE: D(1), ((c, 2),): D(-1)})
                a.sin, a.cos, a.memo = {((s, 1),): D(1)}, {((c, 1),): D(1)}, {}

    def inverse_angle(self, kind, cos, sin, lo, hi):
        """angle given by its cosine and sine: a known one (within the range) or a new atom"""
        if all(m == ONE for m in cos) and all(m == ONE for m in sin):
            x = math.atan2(sin.get(ONE, 0), cos.get(ONE, 0))
            n = round(x / (math.pi / 2))
            return const(PI / 2 * n if abs(x - n * math.pi / 2) < 1e-15 else D(x))
        for a in self.angles:
            if a.lo is None or a.lo < lo - 1e-9 or a.hi > hi + 1e-9:
                continue
            if eqp(a.key[0], sin) and eqp(a.key[1], cos):
                return {a.mono: a.unit}
        for a in self.angles:     # negative angle
            if a.lo is None or -a.hi < lo - 1e-9 or -a.lo > hi + 1e-9:
                continue
            if eqp(a.key[0], scale(sin, -1)) and eqp(a.key[1], cos):
                return {a.mono: -a.unit}
        i = self.atom(f"{kind}{len(self.angles)}", lo, hi)
        a = Angle(((i, 1),), D(1), sin, cos, lo, hi)
        self.angles.append(a)
        return {a.mono: D(1)}

    def atan2(self, y, x):
        y, x = clean(y), clean(x)
        if not y and not x:
            return {}
        r = self.sqrt(add(self.mul(x, x), self.mul(y, y)))
        return self.inverse_angle("atan2_", self.div(x, r), self.div(y, r), -math.pi, math.pi)

    def asin(self, p):
        c = self.sqrt(add(const(1), self.mul(p, p), -1))
        n = len(self.angles)
        r = self.inverse_angle("asin_", c, p, -math.pi / 2, math.pi / 2)
        if len(self.angles) > n:
            # narrower than the range of the function
            lo, hi = [math.asin(max(-1.0, min(1.0, x))) for x in self.interval(p)]
            a = self.angles[-1]
            a.lo, a.hi = max(a.lo, lo - 1e-9), min(a.hi, hi + 1e-9)
            x = self.atoms[a.mono[0][0]]
            x.lo, x.hi = a.lo, a.hi
        return r

    def acos(self, p):
        s = self.sqrt(add(const(1), self.mul(p, p), -1))
        return self.inverse_angle("acos_", p, s, 0.0, math.pi)

    # ---- terms
    def __call__(self, t):
        if t.__class__ is float:
            if t - t != 0.0:
                return self.v("nonfinite_" + core._fkey(t))
            return const(t)
        if isinstance(t, int):
            return const(t)
        if isinstance(t, dict):
            return t
        if isinstance(t, core.SI):
            t = core.sitofp(t)
            return self(t)
        memo = self.memo
        stack = [t]
        while stack:
            n = stack[-1]
            if n.id in memo:
                stack.pop()
                continue
            if n.op == "ite":
                # resolved by a branch of the path
                b = n.args[0]
                x = n.args[1] if core.CTX.branch(b) else n.args[2]
                memo[n.id] = self(x)
                stack.pop()
                continue
            pend = [a for a in n.args if isinstance(a, T) and a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            memo[n.id] = self._op(n)
            if self.named:
                self._rename(n)
            self._bound(n)
            stack.pop()
        return memo[t.id]

    def name(self, t):
        """from now on the value is an atom wherever it is computed (an abstraction of the value)"""
        p = clean(self(t))
        if len(p) < 2:
            return
        lo, hi = self.tbound(t)
        self.named.append((p, {((self.atom(f"value{len(self.named)}", lo, hi), 1),): D(1)}))
        self._rename(t)

    def _rename(self, n):
        p = self.memo[n.id]
        if any(len(q) <= len(p) for q, _ in self.named):
            p = clean(p)
            for q, a in self.named:
                if len(p) == len(q) and eqp(p, q):
                    self.memo[n.id] = a
                    return

    def _bound(self, n):
        """interval of a term from its structure and its normal form"""
        if n.op == "var":
            return                # its bounds may be set later
        p = self.memo[n.id]
        lo, hi = self.interval(p)
        b = []
        for a in n.args:
            if isinstance(a, T):
                b.append(self.tbound(a))
            elif isinstance(a, float):
                b.append((a, a))
        op = n.op
        r = None
        if op == "fadd":
            r = b[0][0] + b[1][0], b[0][1] + b[1][1]
        elif op == "fsub":
            r = b[0][0] - b[1][1], b[0][1] - b[1][0]
        elif op == "fmul":
            if n.args[0] is n.args[1]:
                r = powb(*b[0], 2)
            else:
                c = [mulb(x, y) for x in b[0] for y in b[1]]
                r = min(c), max(c)
        elif op == "fdiv":
            i = powb(*b[1], -1)
            c = [mulb(x, y) for x in b[0] for y in i]
            r = min(c), max(c)
        elif op == "fneg":
            r = -b[0][1], -b[0][0]
        elif op == "call:sqrt":
            r = math.sqrt(max(b[0][0], 0.0)), math.sqrt(max(b[0][1], 0.0))
        elif op == "call:fabs":
            l, h = b[0]
            r = (l, h) if l >= 0 else (-h, -l) if h <= 0 else (0.0, max(-l, h))
        elif op in ("call:cbrt", "call:pow"):
            if op == "call:cbrt" or third(n.args[1]):
                f = lambda x: math.copysign(abs(x) ** (1 / 3), x) if math.isfinite(x) else x
                r = f(b[0][0]), f(b[0][1])
        if r is not None and r[0] == r[0] and r[1] == r[1]:
            # outward: the bounds are computed in floating point
            e = 1e-12
            l = r[0] - abs(r[0]) * e if r[0] > 0 or math.isfinite(r[0]) else r[0]
            h = r[1] + abs(r[1]) * e if math.isfinite(r[1]) else r[1]
            if l > lo or h < hi:
                lo, hi = max(lo, l), min(hi, h)
                self.tighten(p, lo, hi)
        self.tb[n.id] = lo, hi

    def tighten(self, p, lo, hi):
        if len(p) == 1:
            (m, v), = p.items()
            if len(m) == 1 and m[0][1] == 1 and v > 0:
                a = self.atoms[m[0][0]]
                v = float(v)
                a.lo, a.hi = max(a.lo, lo / v), min(a.hi, hi / v)

    def tbound(self, t):
        if isinstance(t, T):
            self(t)
            return self.tb[t.id] if t.id in self.tb else self.interval(self(t))
        return self.interval(self(t))

    def _op(self, n):
        op = n.op
        if op == "var":
            return self.v(n.args[0])
        if op == "si":
            b = n.args[0]
            return self.integer(b.e, b.lo, b.hi)
        av = [self.memo[a.id] if isinstance(a, T) else (const(a) if isinstance(a, float) else a) for a in n.args]
        if op == "fadd":
            return add(av[0], av[1])
        if op == "fsub":
            return add(av[0], av[1], -1)
        if op == "fmul":
            return self.mul(av[0], av[1])
        if op == "fdiv":
            return self.div(av[0], av[1])
        if op == "fneg":
            return scale(av[0], -1)
        f = op[5:]
        if op == "uf":
            return self.other("u_" + n.args[0], [x for x in av[1:]])
        if f == "sin":
            return self.cossin(av[0])[1]
        if f == "cos":
            return self.cossin(av[0])[0]
        if f == "tan":
            c, s = self.cossin(av[0])
            return self.div(s, c)
        if f == "sqrt":
            return self.sqrt(av[0])
        if f == "fabs":
            return self.abs(av[0], n.args[0])
        if f == "atan2":
            return self.atan2(av[0], av[1])
        if f == "asin":
            return self.asin(av[0])
        if f == "acos":
            return self.acos(av[0])
        if f == "atan":
            return self.atan2(av[0], const(1))
        if f == "hypot":
            return self.sqrt(add(self.mul(av[0], av[0]), self.mul(av[1], av[1])))
        if f == "copysign":
            m = self.abs(av[0], n.args[0] if isinstance(n.args[0], T) else None)
            lo, hi = self.tbound(n.args[1])
            if lo >= 0:
                return m
            if hi < 0:
                return scale(m, -1)
            return m if core.CTX.branch(fcmp("oge", n.args[1], 0.0)) else scale(m, -1)
        if f == "cbrt" or (f == "pow" and third(n.args[1])):
            return self.cbrt(av[0])
        if f == "pow" and isinstance(n.args[1], float) and n.args[1].is_integer() and abs(n.args[1]) <= 64:
            return self.powi(av[0], int(n.args[1]))
        if f in ("fmin", "fmax"):
            a, b = n.args
            first = core.CTX.branch(fcmp("ole", a, b)) == (f == "fmin")
            return av[0] if first else av[1]
        lo, hi = -math.inf, math.inf
        if f in ("floor", "trunc", "ceil", "rint", "round"):
            l, h = self.interval(av[0])
            lo, hi = l - 1, h + 1
        return self.other(f, av, lo, hi)

    def integer(self, e, lo=-math.inf, hi=math.inf):
        """symbolic integer: sums and multiples of others"""
        if z3.is_int_value(e):
            return const(e.as_long())
        if z3.is_add(e) or z3.is_sub(e):
            p = self.integer(e.arg(0))
            for a in e.children()[1:]:
                p = add(p, self.integer(a), -1 if z3.is_sub(e) else 1)
            return p
        if e.decl().kind() == z3.Z3_OP_UMINUS:
            return scale(self.integer(e.arg(0)), -1)
        if z3.is_mul(e) and e.num_args() == 2 and any(z3.is_int_value(a) for a in e.children()):
            a, b = e.children() if z3.is_int_value(e.arg(0)) else e.children()[::-1]
            return scale(self.integer(b), a.as_long())
        n = "si!%d" % e.get_id()
        self.sis[n] = e
        i = self.atom(n, lo, hi)
        self.atoms[i].lo, self.atoms[i].hi = max(self.atoms[i].lo, lo), min(self.atoms[i].hi, hi)
        return {((i, 1),): D(1)}

    def other(self, f, av, lo=-math.inf, hi=math.inf):
        """opaque function value: the same atom for the same arguments"""
        for g, bv, i in self.opaque:
            if g == f and len(bv) == len(av) and all(eqp(x, y) for x, y in zip(av, bv)):
                return {((i, 1),): D(1)}
        i = self.atom(f"{f}#{len(self.opaque)}", lo, hi)
        if f in ("floor", "ceil", "trunc", "rint", "round"):
            self.atoms[i].whole = (f, av[0])
        self.opaque.append((f, av, i))
        return {((i, 1),): D(1)}

    def clear(self, p):
        """multiply with all denominators (non-zero on the path)"""
        for _ in range(50):
            bad = None
            for m in p:
                for a, e in m:
                    x = self.atoms[a]
                    if x.den is not None and e > 0:
                        bad = a
                    elif e < 0 and bad is None:
                        bad = a
                    if bad is not None:
                        break
                if bad is not None:
                    break
            if bad is None:
                return p
            x = self.atoms[bad]
            if x.den is not None:
                k = max(dict(m).get(bad, 0) for m in p)
                base = x.den
            else:
                k = max(-dict(m).get(bad, 0) for m in p)
                base = None
            r = {}
            pw = {}
            for m, v in p.items():
                e = dict(m).get(bad, 0)
                rest = tuple(y for y in m if y[0] != bad)
                if base is not None:
                    if k - e not in pw:
                        pw[k - e] = self.pow(base, k - e)
                    r = add(r, self.mul({rest: v}, pw[k - e]))
                else:
                    if e + k not in pw:
                        pw[e + k] = self.pow({((bad, 1),): D(1)}, e + k)
                    r = add(r, self.mul({rest: v}, pw[e + k]))
            p = clean(r)
        raise Unsupported("denominators cannot be eliminated")

    def subst(self, p, sub):
        """replace atoms (positive exponents only) by polynomials"""
        r = {}
        for m, v in p.items():
            q = {tuple(x for x in m if x[0] not in sub): v}
            for a, e in m:
                if a in sub:
                    q = self.mul(q, self.pow(sub[a], e))
            r = add(r, q)
        return r

    # ---- calculus (oracles)
    def diff(self, p, name, rules):
        """derivative with respect to an atom; rules: atom name -> polynomial of its derivative"""
        r = {}
        for m, v in p.items():
            for k, (a, e) in enumerate(m):
                n = self.atoms[a].name
                if n == name:
                    d = const(1)
                elif n in rules:
                    d = rules[n]
                else:
                    continue
                rest = m[:k] + (((a, e - 1),) if e != 1 else ()) + m[k + 1:]
                r = add(r, self.mul({rest: v * e}, d))
        return r


def third(x):
    return isinstance(x, float) and abs(x - 1 / 3) < 1e-15 or isinstance(x, T) and x.op == "fdiv" and x.args == (1.0, 3.0)


def merge(m1, m2, red):
    """product of monomials; flag: an exponent needs reduction"""
    d = dict(m1)
    bad = False
    for a, e in m2:
        x = d.get(a)
        if x is None:
            d[a] = e
            if e >= 2 and a in red and e >= red[a]:
                bad = True
        else:
            e += x
            if e:
                d[a] = e
                if e >= 2 and a in red and e >= red[a]:
                    bad = True
            else:
                del d[a]
    return tuple(sorted(d.items())), bad


def close(a, b, eps=D("1e-12")):
    return abs(a - b) <= eps * max(abs(a), abs(b))


def clean(p, eps=None):
    """drop the rounding noise of the coefficients"""
    if len(p) < 2:
        return {m: v for m, v in p.items() if v}
    t = maxabs(p) * (CLEAN if eps is None else eps)
    return {m: v for m, v in p.items() if abs(v) > t}


def eqp(p, q):
    if len(p) != len(q):
        return not drop(add(p, q, -1), max(maxabs(p), maxabs(q)))
    for m, v in p.items():
        w = q.get(m)
        if w is None or not close(v, w, EPS):
            return not drop(add(p, q, -1), max(maxabs(p), maxabs(q)))
    return True


def drop(r, ref):
    t = ref * EPS
    return {m: v for m, v in r.items() if abs(v) > t}


def mulb(a, b):
    return 0.0 if a == 0.0 or b == 0.0 else a * b


def powb(lo, hi, e):
    if e < 0:
        if lo > 0 or hi < 0:
            lo, hi = (1 / hi if hi else math.inf), (1 / lo if lo else math.inf)
            return powb(lo, hi, -e)
        if lo == 0.0 and hi > 0:
            return powb(1 / hi, math.inf, -e)
        return -math.inf, math.inf
    try:
        a, b = lo ** e, hi ** e
    except OverflowError:
        return -math.inf, math.inf
    if e % 2 == 0:
        if lo <= 0 <= hi:
            return 0.0, max(a, b)
        return min(a, b), max(a, b)
    return a, b


class PolyLower(Lower):
    """linear arithmetic over monomials of the normal form"""

    def __init__(self):
        Lower.__init__(self, "poly")
        self.ring = Ring()
        self.monos = {}
        self.bounded = set()

    def var(self, name):
        self.ring.atom(name)
        return Lower.var(self, name)

    def mono(self, m):
        if m == ONE:
            return z3.RealVal(1)
        z = self.monos.get(m)
        if z is None:
            if len(m) == 1 and m[0][1] == 1:
                a = self.ring.atoms[m[0][0]]
                if a.name in self.ring.sis:
                    z = self.monos[m] = z3.ToReal(self.ring.sis[a.name])
                    return z
                z = Lower.var(self, a.name)
                if a.whole and a.whole[0] == "floor":
                    self.monos[m] = z
                    x = self.linear(a.whole[1])
                    self.axioms.append(z3.And(z <= x, z > x - 1))
            else:
                z = z3.Real("m!" + self.ring.mname(m))
            self.monos[m] = z
            self.bounds(m, z, self.axioms)
            # products of sine and cosine and higher powers stay bounded by their intervals only
        return z

    def bounds(self, m, z, out):
        lo, hi = self.ring.mono_interval(m)
        if math.isfinite(lo):
            out.append(z >= core._rv(lo))
        if math.isfinite(hi):
            out.append(z <= core._rv(hi))

    def linear(self, p):
        p = {m: v for m, v in p.items() if v}
        if not p:
            return z3.RealVal(0)
        return z3.Sum([z3.RealVal(str(_q(v))) * self.mono(m) for m, v in p.items()])

    def __call__(self, t):
        if t.__class__ is float and not core.isfin(t):
            return z3.Real("nonfinite_" + core._fkey(t))
        p = clean(self.ring(t))
        z = self.linear(p)
        if isinstance(t, T) and len(p) > 1:
            lo, hi = self.ring.tb.get(t.id, (-math.inf, math.inf))
            for x, l in ((lo, 0), (hi, 1)):
                if math.isfinite(x) and (t.id, l) not in self.bounded:
                    self.bounded.add((t.id, l))
                    self.axioms.append(z <= core._rv(x) if l else z >= core._rv(x))
        return z

    def note(self, b, d):
        """tighten the range of an atom compared with a constant"""
        if b.__class__ is not core.BT or b.k != "fcmp":
            return
        try:
            p = clean(add(self.ring(b.a), self.ring(b.b), -1))
        except Unsupported:
            return
        ms = [m for m in p if m != ONE]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
            return
        a = self.ring.atoms[ms[0][0][0]]
        q = float(p[ms[0]])
        x = -float(p.get(ONE, D(0))) / q
        pred = b.p[1:]
        if not d:
            pred = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}[pred]
        if q < 0:
            pred = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(pred, pred)
        if pred in ("lt", "le", "eq"):
            a.hi = min(a.hi, x)
        if pred in ("gt", "ge", "eq"):
            a.lo = max(a.lo, x)
        # sine of an angle whose cosine is known to be small, etc. are left to the monomial bounds


def _q(v):
    n, d = v.as_integer_ratio()
    return f"{n}/{d}" if d != 1 else str(n)


def decide(c, pairs, tol=1e-9, scale=0.0):
    """are all pairs of terms/polynomials equal on the path (up to tol of the reference's magnitude)?

    None: yes for all values; otherwise (index, residual polynomial) of the first undecided pair"""
    R = c.low.ring
    goals = []
    for i, (a, b) in enumerate(pairs):
        pa, pb = R(a), R(b)
        ref = max(maxabs(pa), maxabs(pb))
        r = drop(add(pa, pb, -1), ref)
        mag = float(scale)
        for m, v in pb.items():
            lo, hi = R.mono_interval(m)
            mag += abs(float(v)) * max(abs(lo), abs(hi))
        if r and any(any(R.atoms[x].den is not None or e < 0 for x, e in m) for m in r) and \
                any(R.atoms[x].den is not None or (e < 0 and R.atoms[x].sq is not None) for m in r for x, e in m):
            q = R.clear(r)
            q = drop(q, max(maxabs(R.clear(pb)) if pb else D(0), D(0)) or maxabs(q))
            if not q:
                r = {}
        goals.append((i, r, mag))
    exprs = []
    for i, r, mag in goals:
        tt = tol * mag if math.isfinite(mag) and mag else tol
        t = core._rv(tt)
        # monomials which cannot contribute noticeably are one bounded remainder
        con = sorted((abs(float(v)) * max(map(abs, R.mono_interval(m))), m) for m, v in r.items())
        rest, small = 0.0, set()
        for x, m in con:
            if rest + x > 0.2 * tt:
                break
            rest += x
            small.add(m)
        e = c.low.linear({m: v for m, v in r.items() if m not in small})
        if small:
            z = z3.Real(f"remainder!{i}")
            e = e + z
        r = {m: v for m, v in r.items() if m not in small}
        ex = [z <= core._rv(rest), z >= -core._rv(rest)] if small else []
        for m in r:                       # ranges tightened by the path condition
            if m != ONE:
                c.low.bounds(m, c.low.mono(m), ex)
        exprs.append((i, r, z3.And(z3.Or(e > t, e < -t), *ex)))
    core.STATS.obligations += 0
    if c.check(z3.Or([x for _, _, x in exprs]) if exprs else z3.BoolVal(False)) == "unsat":
        return None
    for i, r, x in exprs:
        if c.check(x) != "unsat":
            return i, r
    return None
