"""Symbolic values, path exploration and lowering to the SMT solver.

Values
  T   symbolic double (hash-consed expression DAG; concrete doubles are plain Python floats)
  SI  symbolic integer (mathematical integer with an interval; widths are enforced by the caller)
  BT  symbolic truth value

A run of the code under analysis is repeated once per path (Ctx.branch asks the solver which
outcomes of a condition are possible under the path condition; explore() enumerates the paths).
"""
import math
import numpy
from fractions import Fraction
import os
import sys
import time

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    """the engine cannot encode something (never silently ignored)"""


class Inconclusive(Exception):
    """solver answered unknown where a verdict is needed"""


class PathAbort(BaseException):
    """abandon the current path (e.g. infeasible assumption)"""


class Budget(Exception):
    pass


CTX = None  # the current context (one per process)


def ctx():
    return CTX


# ---------------------------------------------------------------------------------------------
# symbolic doubles

_TABLE = {}


class T:
    __slots__ = ("op", "args", "id", "__weakref__")

    def __repr__(self):
        return show(self)

    def __float__(self):
        raise TypeError("symbolic double cannot be converted to float")

    def __hash__(self):
        return self.id

    # arithmetic used by the Python layer
    def __add__(self, o): return arr_or(fadd, self, o)
    def __radd__(self, o): return arr_or(lambda a, b: fadd(b, a), self, o)
    def __sub__(self, o): return arr_or(fsub, self, o)
    def __rsub__(self, o): return arr_or(lambda a, b: fsub(b, a), self, o)
    def __mul__(self, o): return arr_or(fmul, self, o)
    def __rmul__(self, o): return arr_or(lambda a, b: fmul(b, a), self, o)
    def __truediv__(self, o): return arr_or(fdiv, self, o)
    def __rtruediv__(self, o): return arr_or(lambda a, b: fdiv(b, a), self, o)
    def __neg__(self): return fneg(self)
    def __pos__(self): return self
    def __abs__(self): return fcall("fabs", self)

    def __pow__(self, n):
        if isinstance(n, (int, float)) and float(n).is_integer() and 0 <= n <= 64:
            n = int(n)
            r = None
            base = self
            while n:
                if n & 1:
                    r = base if r is None else fmul(r, base)
                n >>= 1
                if n:
                    base = fmul(base, base)
            return 1.0 if r is None else r
        if isarray(n):
            return NotImplemented
        return fcall("pow", self, n)

    def __rpow__(self, b):
        return fcall("pow", float(b), self)

    def __floordiv__(self, o):
        if isarray(o):
            return NotImplemented
        return fcall("floor", fdiv(self, fl(o)))

    def __rfloordiv__(self, o):
        if isarray(o):
            return NotImplemented
        return fcall("floor", fdiv(fl(o), self))

    def __mod__(self, o):
        if isarray(o):
            return NotImplemented
        o = fl(o)
        return fsub(self, fmul(fcall("floor", fdiv(self, o)), o))

    def __rmod__(self, o):
        if isarray(o):
            return NotImplemented
        o = fl(o)
        return fsub(o, fmul(fcall("floor", fdiv(o, self)), self))

    def __lt__(self, o): return cmp_or("olt", self, o)
    def __le__(self, o): return cmp_or("ole", self, o)
    def __gt__(self, o): return cmp_or("ogt", self, o)
    def __ge__(self, o): return cmp_or("oge", self, o)

    def __eq__(self, o):
        if self is o:
            return True
        return cmp_or("oeq", self, o)

    def __ne__(self, o):
        if self is o:
            return False
        return cmp_or("une", self, o)

    def __bool__(self):
        return bool(fcmp("une", self, 0.0))

    # numpy object-array ufunc hooks
    def sin(self): return fcall("sin", self)
    def cos(self): return fcall("cos", self)
    def tan(self): return fcall("tan", self)
    def sqrt(self): return fcall("sqrt", self)
    def floor(self): return fcall("floor", self)
    def arcsin(self): return fcall("asin", self)
    def arccos(self): return fcall("acos", self)
    def arctan2(self, o): return fcall("atan2", self, o)
    def fabs(self): return fcall("fabs", self)
    def deg2rad(self): return fmul(self, math.pi / 180.0)
    def rad2deg(self): return fmul(self, 180.0 / math.pi)
    radians = deg2rad
    degrees = rad2deg
    def conjugate(self): return self
    def square(self): return fmul(self, self)
    def isnan(self): return False
    def isfinite(self): return True
    def __round__(self, *a): raise Unsupported("round")


def isarray(b):
    return isinstance(b, numpy.ndarray)


def arr_or(f, a, b):
    if isinstance(b, T):
        return f(a, b)
    if isinstance(b, (int, float)):
        return f(a, float(b))
    if isinstance(b, SI):
        return f(a, sitofp(b))
    if hasattr(b, "dtype"):
        if getattr(b, "ndim", 1) == 0 and not isarray(b):
            v = b.item() if hasattr(b, "item") else b[()]
            return f(a, v if isinstance(v, T) else float(v))
    return NotImplemented


def cmp_or(pred, a, b):
    r = arr_or(lambda x, y: fcmp(pred, x, y), a, b)
    return r


def fl(v):
    if isinstance(v, T):
        return v
    if isinstance(v, SI):
        return sitofp(v)
    return float(v)


def mk(op, *args):
    key = (op,) + tuple(("f", _fkey(a)) if isinstance(a, float) else
                        (a.id if isinstance(a, T) else a) for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.id = len(_TABLE) + 1
        _TABLE[key] = t
    return t


def _fkey(x):
    return "nan" if x != x else x.hex()


def reset_terms():
    """drop all terms (only between independent analyses)"""
    _TABLE.clear()


def var(name):
    return mk("var", name)


def isfin(x):
    return x - x == 0.0


# keep inexact constant operations symbolic (exact arithmetic of the normal forms)
EXACT = False


def _folded(op, a, b, r):
    if not EXACT or not (isfin(a) and isfin(b) and isfin(r)):
        return r
    x, y = Fraction(a), Fraction(b)
    z = x + y if op == "fadd" else x - y if op == "fsub" else x * y if op == "fmul" else x / y
    return r if z == Fraction(r) else mk(op, a, b)


def fadd(a, b):
    if a.__class__ is float:
        if b.__class__ is float:
            return a + b if not EXACT else _folded("fadd", a, b, a + b)
        if not isfin(a):
            return a
        if a == 0.0:
            return b if ADDZERO else mk("fadd", a, b)
    elif b.__class__ is float:
        if not isfin(b):
            return b
        if b == 0.0 and ADDZERO:
            return a
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return mk("fadd", a, b)


def fsub(a, b):
    if a.__class__ is float:
        if b.__class__ is float:
            return a - b if not EXACT else _folded("fsub", a, b, a - b)
        if not isfin(a):
            return a
    elif b.__class__ is float:
        if not isfin(b):
            return -b
        if b == 0.0:
            return a
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a is b:
        return 0.0          # exact for finite values
    return mk("fsub", a, b)


def fmul(a, b):
    if a.__class__ is float:
        if b.__class__ is float:
            return a * b if not EXACT else _folded("fmul", a, b, a * b)
        if a == 1.0:
            return b
        if not isfin(a):
            return _infmul(a, b)
        if a == 0.0 and b is not UNDEF:
            return 0.0      # exact for finite values up to the sign of zero
    elif b.__class__ is float:
        if b == 1.0:
            return a
        if not isfin(b):
            return _infmul(b, a)
        if b == 0.0 and a is not UNDEF:
            return 0.0
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return mk("fmul", a, b)


def _infmul(i, t):
    if i != i:
        return i
    if CTX is not None:
        if CTX.branch(fcmp("ogt", t, 0.0)):
            return i
        if CTX.branch(fcmp("olt", t, 0.0)):
            return -i
        return math.nan
    raise Unsupported("infinity times symbolic value")


def cdiv(a, b):
    if b == 0.0:
        if a != a or a == 0.0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def fdiv(a, b):
    if b.__class__ is float:
        if a.__class__ is float:
            return cdiv(a, b) if not EXACT else _folded("fdiv", a, b, cdiv(a, b))
        if b == 1.0:
            return a
        if b == 0.0:
            if CTX is not None:
                if CTX.branch(fcmp("ogt", a, 0.0)):
                    return cdiv(1.0, b)
                if CTX.branch(fcmp("olt", a, 0.0)):
                    return cdiv(-1.0, b)
                return math.nan
        if b != b:
            return b
        if not isfin(b):
            return 0.0
    elif a.__class__ is float and not isfin(a):
        return _infmul(a, b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a is b and CTX is not None:
        return math.nan if CTX.branch(fcmp("oeq", a, 0.0)) else 1.0
    if a.__class__ is float and a == 0.0 and CTX is not None:
        return math.nan if CTX.branch(fcmp("oeq", b, 0.0)) else 0.0
    return mk("fdiv", a, b)


def fneg(a):
    if a.__class__ is float:
        return -a
    if a is UNDEF:
        return a
    if a.op == "fneg":
        return a.args[0]
    return mk("fneg", a)


# `x + 0.0 == x` for every double except x == -0.0; the results differ by the sign of zero only
ADDZERO = True

_CFUN = {
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "fabs": abs,
    "asin": math.asin, "acos": math.acos, "atan": math.atan, "sqrt": math.sqrt, "exp": math.exp,
    "log": math.log, "floor": lambda x: float(math.floor(x)), "ceil": lambda x: float(math.ceil(x)),
    "trunc": lambda x: float(math.trunc(x)), "round": lambda x: math.copysign(float(math.floor(abs(x) + 0.5)), x),
    "atan2": math.atan2, "pow": math.pow, "fmod": math.fmod, "copysign": math.copysign,
    "fmin": min, "fmax": max, "hypot": math.hypot, "rint": lambda x: float(round(x)),
    "cbrt": lambda x: math.copysign(abs(x) ** (1.0 / 3.0), x),
}


def fcall(name, *args):
    """libm call"""
    if all(a.__class__ is float for a in args):
        f = _CFUN.get(name)
        if f is None:
            raise Unsupported("libm function " + name)
        try:
            return float(f(*args))
        except OverflowError:
            if name in ("floor", "ceil", "trunc", "round", "rint"):
                return args[0]
            return math.inf
        except ValueError:
            if name in ("floor", "ceil", "trunc", "round", "rint"):
                return args[0]
            return math.nan
    if any(a is UNDEF for a in args):
        return UNDEF
    if any(a.__class__ is float and a != a for a in args):
        return math.nan
    if name in ("floor", "ceil", "trunc", "rint", "round") and args[0].op == "si":
        return args[0]
    if name == "floor" and args[0].op == "fadd" and CTX is not None and CTX.mode in ("real", "poly"):
        # a whole number plus a symbol in [0, 1)
        a, b = args[0].args
        if b.__class__ is T and b.op == "si":
            a, b = b, a
        if a.__class__ is T and a.op == "si" and b.__class__ is T and b in CTX.fractions:
            return a
    if name not in _CFUN:
        raise Unsupported("libm function " + name)
    return mk("call:" + name, *args)


class _Undef:
    def __repr__(self):
        return "<uninitialised>"


UNDEF = _Undef()


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "var":
        return t.args[0]
    if depth == 0:
        return "..."
    return "(" + t.op.replace("call:", "") + " " + " ".join(show(a, depth - 1) for a in t.args) + ")"


def evalf(t, env, memo=None, ienv=None):
    """numeric value of a term (float arithmetic) for an assignment of the variables"""
    if t.__class__ is float:
        return t
    if isinstance(t, int):
        return float(t)
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        if n.op == "var":
            memo[n.id] = env[n.args[0]]
            stack.pop()
            continue
        if n.op == "si":
            memo[n.id] = float(eval_si(n.args[0], env, ienv))
            stack.pop()
            continue
        if n.op == "ite":
            b = eval_bt(n.args[0], env, ienv)
            s = n.args[1] if b else n.args[2]
            if isinstance(s, T) and s.id not in memo:
                stack.append(s)
                continue
            memo[n.id] = memo[s.id] if isinstance(s, T) else s
            stack.pop()
            continue
        pend = [a for a in n.args if isinstance(a, T) and a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        av = [memo[a.id] if isinstance(a, T) else a for a in n.args]
        op = n.op
        try:
            if op == "fadd":
                v = av[0] + av[1]
            elif op == "fsub":
                v = av[0] - av[1]
            elif op == "fmul":
                v = av[0] * av[1]
            elif op == "fdiv":
                v = cdiv(av[0], av[1])
            elif op == "fneg":
                v = -av[0]
            elif op.startswith("call:"):
                if any(a != a for a in av):
                    v = math.nan
                else:
                    try:
                        v = float(_CFUN[op[5:]](*av))
                    except (ValueError, OverflowError):
                        v = av[0] if op[5:] in ("floor", "ceil", "trunc", "rint", "round") else math.nan
            elif op == "uf":
                f = env.get("uf:" + n.args[0])
                if f is None:
                    raise Unsupported("no interpretation for " + n.args[0])
                v = f(*av[1:])
            else:
                raise Unsupported("eval of " + op)
        except OverflowError:
            v = math.inf
        memo[n.id] = v
        stack.pop()
    return memo[t.id]


def eval_si(s, env, ienv=None):
    if isinstance(s, int):
        return s
    if ienv is None:
        raise Unsupported("integer environment needed")
    e = z3.simplify(z3.substitute(s.e, *_subst(s.e, env, ienv)))
    if not z3.is_int_value(e):
        raise Unsupported("integer expression cannot be evaluated: " + str(e)[:80])
    return e.as_long()


_ZV = {}


def zvars(e):
    """names of the constants in a solver expression"""
    k = e.get_id()
    r = _ZV.get(k)
    if r is None:
        names, seen, st = set(), set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(x.decl().name())
            st.extend(x.children())
        r = _ZV[k] = (names, e)
    return r[0]


def _subst(e, env, ienv):
    subs = []
    vs = ienv["__vars__"]
    for n in zvars(e):
        if n not in vs:
            continue
        v, kind = vs[n]
        if kind.__class__ is tuple:
            x = evalf(kind[1], env, None, ienv)
            if x != x or abs(x) > 1e18:
                raise Unsupported("integer conversion of " + repr(x))
            subs.append((v, z3.IntVal(math.trunc(x))))
        elif n in env:
            subs.append((v, z3.IntVal(env[n]) if kind == "int" else _rv(env[n])))
    return subs


def eval_bt(b, env, ienv=None):
    if isinstance(b, bool):
        return b
    k = b.k
    if k == "fcmp":
        x, y = evalf(b.a, env, None, ienv), evalf(b.b, env, None, ienv)
        return pyfcmp(b.p, x, y)
    if k == "not":
        return not eval_bt(b.a, env, ienv)
    if k == "and":
        return eval_bt(b.a, env, ienv) and eval_bt(b.b, env, ienv)
    if k == "or":
        return eval_bt(b.a, env, ienv) or eval_bt(b.b, env, ienv)
    if k == "z3" and ienv is not None:
        e = z3.simplify(z3.substitute(b.p, *_subst(b.p, env, ienv)))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    raise Unsupported("eval of boolean " + k)


def variables(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        n = st.pop()
        if not isinstance(n, T) or n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "var":
            acc.add(n.args[0])
        st.extend(n.args)
    return acc


# ---------------------------------------------------------------------------------------------
# symbolic truth values

class BT:
    __slots__ = ("k", "p", "a", "b")

    def __init__(self, k, p, a, b):
        self.k, self.p, self.a, self.b = k, p, a, b

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o): return b_and(self, o)
    def __rand__(self, o): return b_and(o, self)
    def __or__(self, o): return b_or(self, o)
    def __ror__(self, o): return b_or(o, self)
    def __invert__(self): return b_not(self)

    def __repr__(self):
        return f"<{self.k} {self.p} {self.a} {self.b}>"


def b_and(a, b):
    if not isinstance(a, BT):
        return b if a else False
    if not isinstance(b, BT):
        return a if b else False
    return BT("and", None, a, b)


def b_or(a, b):
    if not isinstance(a, BT):
        return True if a else b
    if not isinstance(b, BT):
        return True if b else a
    return BT("or", None, a, b)


def b_not(a):
    if not isinstance(a, BT):
        return not a
    if a.k == "not":
        return a.a
    return BT("not", None, a, None)


def b_z3(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return BT("z3", e, None, None)


_NEG = {"oeq": lambda a, b: a == b, "one": lambda a, b: a != b, "olt": lambda a, b: a < b,
        "ole": lambda a, b: a <= b, "ogt": lambda a, b: a > b, "oge": lambda a, b: a >= b}


def pyfcmp(pred, a, b):
    nan = a != a or b != b
    if pred == "ord":
        return not nan
    if pred == "uno":
        return nan
    if pred == "true":
        return True
    if pred == "false":
        return False
    if nan:
        return pred[0] == "u"
    return _NEG["o" + pred[1:]](a, b)


def fcmp(pred, a, b):
    if a.__class__ is float and b.__class__ is float:
        return pyfcmp(pred, a, b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if (a.__class__ is float and a != a) or (b.__class__ is float and b != b):
        return pred[0] == "u"
    if pred == "ord":
        return True
    if pred == "uno":
        return False
    if a is b:
        return pred[1:] in ("eq", "le", "ge")
    p = pred[1:]
    if a.__class__ is float and not isfin(a):
        pos = a > 0
        return {"eq": False, "ne": True, "lt": not pos, "le": not pos, "gt": pos, "ge": pos}[p]
    if b.__class__ is float and not isfin(b):
        pos = b > 0
        return {"eq": False, "ne": True, "lt": pos, "le": pos, "gt": not pos, "ge": not pos}[p]
    return BT("fcmp", "o" + p, a, b)


# ---------------------------------------------------------------------------------------------
# symbolic integers

class SI:
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi

    def __repr__(self):
        return f"<int {self.e} in [{self.lo},{self.hi}]>"

    # Python-layer arithmetic (mathematical integers)
    def __add__(self, o):
        if isinstance(o, float) or isinstance(o, T):
            return fadd(sitofp(self), o)
        return si_arith("+", self, o) if isinstance(o, (int, SI)) else NotImplemented

    def __radd__(self, o):
        if isinstance(o, float):
            return fadd(o, sitofp(self))
        return si_arith("+", o, self)

    def __sub__(self, o):
        if isinstance(o, float) or isinstance(o, T):
            return fsub(sitofp(self), o)
        return si_arith("-", self, o)

    def __rsub__(self, o):
        if isinstance(o, float):
            return fsub(o, sitofp(self))
        return si_arith("-", o, self)

    def __mul__(self, o):
        if isinstance(o, float) or isinstance(o, T):
            return fmul(sitofp(self), o)
        return si_arith("*", self, o)

    def __rmul__(self, o):
        if isinstance(o, float):
            return fmul(o, sitofp(self))
        return si_arith("*", o, self)

    def __neg__(self): return si_arith("-", 0, self)

    def __lt__(self, o): return si_cmp("<", self, o)
    def __le__(self, o): return si_cmp("<=", self, o)
    def __gt__(self, o): return si_cmp(">", self, o)
    def __ge__(self, o): return si_cmp(">=", self, o)
    def __eq__(self, o): return si_cmp("==", self, o)
    def __ne__(self, o): return si_cmp("!=", self, o)
    def __hash__(self): return self.e.hash()
    def __bool__(self): return bool(si_cmp("!=", self, 0))
    def __index__(self): return CTX.concretize(self)
    def __int__(self): return CTX.concretize(self)
    def __abs__(self): return CTX.concretize(self).__abs__()


def ie(x):
    return x.e if x.__class__ is SI else z3.IntVal(x)


def lohi(x):
    return (x.lo, x.hi) if x.__class__ is SI else (x, x)


def si(e, lo, hi):
    if lo == hi:
        return lo
    return SI(e, lo, hi)


def si_arith(op, a, b):
    al, ah = lohi(a)
    bl, bh = lohi(b)
    if op == "+":
        return si(ie(a) + ie(b), al + bl, ah + bh)
    if op == "-":
        if a is b:
            return 0
        return si(ie(a) - ie(b), al - bh, ah - bl)
    if op == "*":
        c = (al * bl, al * bh, ah * bl, ah * bh)
        return si(ie(a) * ie(b), min(c), max(c))
    raise Unsupported(op)


def si_cmp(op, a, b):
    if isinstance(b, float) or isinstance(a, float) or isinstance(b, T):
        return fcmp({"<": "olt", "<=": "ole", ">": "ogt", ">=": "oge", "==": "oeq", "!=": "une"}[op],
                    fl(a), fl(b))
    if not isinstance(b, (int, SI)):
        return NotImplemented
    al, ah = lohi(a)
    bl, bh = lohi(b)
    if op == "<":
        if ah < bl: return True
        if al >= bh: return False
        return b_z3(ie(a) < ie(b))
    if op == "<=":
        if ah <= bl: return True
        if al > bh: return False
        return b_z3(ie(a) <= ie(b))
    if op == ">":
        return si_cmp("<", b, a)
    if op == ">=":
        return si_cmp("<=", b, a)
    if ah < bl or al > bh:
        return op == "!="
    if al == ah == bl == bh:
        return op == "=="
    return b_z3(ie(a) == ie(b)) if op == "==" else b_z3(ie(a) != ie(b))


def sitofp(a):
    if a.__class__ is SI:
        c = CTX
        if c is not None and c.mode == "poly" and a.hi - a.lo >= 64:
            b, k = c.affine(a)
            if k is not None:
                return fadd(mk("si", _SIBox.get(b)), float(k))
        # keep the z3 expression alive: the term refers to it
        return mk("si", _SIBox.get(a))
    return float(a)


class _SIBox:
    """hashable wrapper of SI keyed by its expression"""
    _m = {}

    def __init__(self, s):
        self.s = s
        self.e = s.e
        self.lo, self.hi = s.lo, s.hi

    @classmethod
    def get(cls, s):
        k = (s.e.get_id(), s.lo, s.hi)
        b = cls._m.get(k)
        if b is None:
            b = cls._m[k] = cls(s)
        return b

    def __repr__(self):
        return str(self.e)


def _rv(x):
    """exact rational value of a double"""
    n, d = float(x).as_integer_ratio()
    return z3.Q(n, d)


# ---------------------------------------------------------------------------------------------
# lowering to z3

class Lower:
    """mode 'real': arithmetic over the reals (libm functions uninterpreted with axioms);
       mode 'ord':  all arithmetic uninterpreted, only the order of values interpreted
                    (bit-exact reasoning about finite doubles)"""

    def __init__(self, mode):
        self.mode = mode
        self.memo = {}
        self.vars = {}
        self.axioms = []
        self.ufs = {}
        self.keep = []

    def uf(self, name, n):
        k = (name, n)
        f = self.ufs.get(k)
        if f is None:
            f = self.ufs[k] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
        return f

    def var(self, name):
        v = self.vars.get(name)
        if v is None:
            v = z3.Real(name)
            self.vars[name] = (v, "real")
        else:
            v = v[0]
        return v

    def __call__(self, t):
        if t.__class__ is float:
            if not isfin(t):
                return z3.Real("nonfinite_" + _fkey(t))
            return _rv(t)
        if isinstance(t, int):
            return z3.RealVal(t)
        memo = self.memo
        stack = [t]
        while stack:
            n = stack[-1]
            if n.id in memo:
                stack.pop()
                continue
            if n.op == "var":
                memo[n.id] = self.var(n.args[0])
                stack.pop()
                continue
            if n.op == "si":
                memo[n.id] = z3.ToReal(n.args[0].e)
                stack.pop()
                continue
            pend = [a for a in n.args if isinstance(a, T) and a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            av = [memo[a.id] if isinstance(a, T) else
                  (self(a) if isinstance(a, float) else a) for a in n.args]
            memo[n.id] = self._op(n, av)
            stack.pop()
        return memo[t.id]

    def _op(self, n, av):
        op = n.op
        if op == "ite":
            return z3.If(self.bool(n.args[0]), av[1], av[2])
        if op == "uf":
            return self.uf("u_" + n.args[0], len(av) - 1)(*av[1:])
        if self.mode == "ord":
            if op == "fneg":
                return -av[0]
            if op == "call:fabs":
                return z3.If(av[0] >= 0, av[0], -av[0])
            return self.uf(op.replace("call:", ""), len(av))(*av)
        if op == "fadd":
            return av[0] + av[1]
        if op == "fsub":
            return av[0] - av[1]
        if op == "fmul":
            return av[0] * av[1]
        if op == "fdiv":
            return av[0] / av[1]
        if op == "fneg":
            return -av[0]
        f = op[5:]
        if f == "fabs":
            return z3.If(av[0] >= 0, av[0], -av[0])
        if f == "floor":
            return z3.ToReal(z3.ToInt(av[0]))
        if f == "ceil":
            return -z3.ToReal(z3.ToInt(-av[0]))
        if f == "trunc":
            return z3.If(av[0] >= 0, z3.ToReal(z3.ToInt(av[0])), -z3.ToReal(z3.ToInt(-av[0])))
        if f in ("rint", "round"):
            h = z3.Q(1, 2)
            return z3.If(av[0] >= 0, z3.ToReal(z3.ToInt(av[0] + h)), -z3.ToReal(z3.ToInt(-av[0] + h)))
        if f == "copysign":
            m = z3.If(av[0] >= 0, av[0], -av[0])
            return z3.If(av[1] >= 0, m, -m)
        r = self.uf(f, len(av))(*av)
        ax = self.axioms
        if f in ("sin", "cos"):
            s, c = self.uf("sin", 1)(av[0]), self.uf("cos", 1)(av[0])
            ax.append(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
            ax.append(s * s + c * c == 1)
        elif f == "sqrt":
            ax.append(z3.Implies(av[0] >= 0, z3.And(r >= 0, r * r == av[0])))
        elif f == "atan2":
            ax.append(z3.And(r <= _rv(math.pi), r >= -_rv(math.pi)))
        elif f == "asin":
            ax.append(z3.And(r <= _rv(math.pi / 2), r >= -_rv(math.pi / 2)))
        elif f == "acos":
            ax.append(z3.And(r <= _rv(math.pi), r >= 0))
        return r

    def bool(self, b):
        if isinstance(b, bool) or isinstance(b, int):
            return z3.BoolVal(bool(b))
        k = b.k
        if k == "z3":
            return b.p
        if k == "not":
            return z3.Not(self.bool(b.a))
        if k == "and":
            return z3.And(self.bool(b.a), self.bool(b.b))
        if k == "or":
            return z3.Or(self.bool(b.a), self.bool(b.b))
        x, y = self(b.a), self(b.b)
        p = b.p[1:]
        if p == "eq":
            return x == y
        if p == "ne":
            return x != y
        if p == "lt":
            return x < y
        if p == "le":
            return x <= y
        if p == "gt":
            return x > y
        return x >= y


# ---------------------------------------------------------------------------------------------
# contexts and path exploration

class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.insns = 0
        self.obligations = 0
        self.discharged = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


STATS = Stats()


class Event:
    """something bad seen while executing a path (memory error, leak, overflow ...)"""

    def __init__(self, kind, text, where=""):
        self.kind, self.text, self.where = kind, text, where

    def __repr__(self):
        return f"{self.kind}: {self.text} [{self.where}]"


class Ctx:
    def __init__(self, mode="real", prefix=(), timeout_ms=10000, assume=()):
        self.mode = mode
        if mode == "poly":
            from .poly import PolyLower
            self.low = PolyLower()
        else:
            self.low = Lower(mode)
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []
        self.pc = []
        self.known = {}
        self._nax = 0
        self.events = []
        self.inputs = {}
        self.singles = {}
        self.fractions = set()    # symbols in [0, 1)
        self.ivars = {}
        self.unknown_branches = 0
        self.cache = {}
        self.conds = []
        self.assumed = []
        self.guide = None         # callable (name, lo, hi) -> value: follow the path of that witness only
        self.gvals = {}

    # ---- inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        t = var(name)
        if lo == 0.0 and hi is not None and (hi < 1.0 or (hi == 1.0 and hi_open)):
            self.fractions.add(t)
        if name not in self.inputs:
            self.inputs[name] = ("real", lo, hi)
            if self.guide is not None:
                self.gvals[name] = self.guide(name, lo, hi)
            v = self.low(t)
            if self.mode == "poly":
                self.low.ring.atom(name, lo, hi)
            if lo is not None:
                self.add((v > _rv(lo)) if lo_open else (v >= _rv(lo)))
            if hi is not None:
                self.add((v < _rv(hi)) if hi_open else (v <= _rv(hi)))
        return t

    def int(self, name, lo, hi):
        v = z3.Int(name)
        if name not in self.inputs:
            self.inputs[name] = ("int", lo, hi)
            if self.guide is not None:
                self.gvals[name] = int(self.guide(name, lo, hi))
            self.low.vars[name] = (v, "int")
            self.add(z3.And(v >= lo, v <= hi))
        return si(v, lo, hi)

    def choose(self, name, values):
        """a symbolic choice among explicit values, made concrete by path forking"""
        values = list(values)
        i = self.int(name, 0, len(values) - 1)
        return values[self.concretize(i)]

    def flag(self, name):
        return self.choose(name, (False, True))

    # ---- constraints
    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def assume(self, b):
        """restrict to the cases in which b holds"""
        if isinstance(b, bool):
            if not b:
                raise PathAbort()
            return
        e = self.low.bool(b) if isinstance(b, BT) else b
        if isinstance(b, BT):
            self.conds.append((b, True))
        self._flush()
        self.add(e)
        if self.mode == "poly":
            self.low.note(b, True)
        if self.guide is not None:
            if isinstance(b, BT) and not eval_bt(b, self.gvals, {"__vars__": self.low.vars}):
                raise PathAbort()
            return
        if self.check() == "unsat":
            raise PathAbort()

    def _flush(self):
        ax = self.low.axioms
        while self._nax < len(ax):
            self.solver.add(ax[self._nax])
            self._nax += 1

    def check(self, *extra, timeout_ms=None):
        self._flush()
        if timeout_ms:
            self.solver.set("timeout", timeout_ms)
        t0 = time.time()
        r = self.solver.check(*extra)
        STATS.solver_s += time.time() - t0
        STATS.queries += 1
        if timeout_ms:
            self.solver.set("timeout", self.timeout_ms)
        if r == z3.sat:
            STATS.sat += 1
            return "sat"
        if r == z3.unsat:
            STATS.unsat += 1
            return "unsat"
        STATS.unknown += 1
        return "unknown"

    def feasible(self, e):
        """may e hold on this path? (unknown counts as yes)"""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.check(e) != "unsat"

    def branch(self, b):
        if b.__class__ is bool:
            return b
        if b is UNDEF:
            self.event("uninitialised", "branch on an uninitialised value")
            raise PathAbort()
        if not isinstance(b, BT):
            return bool(b)
        if b.k == "not":
            return not self.branch(b.a)
        e = z3.simplify(self.low.bool(b))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        got = self.known.get(k)
        if got is not None:
            return got[0]
        STATS.branches += 1
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        elif self.guide is not None:
            d = eval_bt(b, self.gvals, {"__vars__": self.low.vars})
        else:
            self._flush()
            rt = self.check(e)
            rf = self.check(z3.Not(e)) if rt != "unsat" else "sat"
            if rt == "unknown" or rf == "unknown":
                self.unknown_branches += 1
            if rt != "unsat" and rf != "unsat":
                d = True
                self.pending.append(self.taken + [False])
            elif rt != "unsat":
                d = True
            else:
                d = False
        self.taken.append(d)
        self.conds.append((b, d))
        self.known[k] = (d, e)
        self.add(e if d else z3.Not(e))
        if self.mode == "poly":
            self.low.note(b, d)
        return d

    def unique(self, s):
        """the only possible value of a symbolic integer of a wide range, or the integer itself"""
        if s.__class__ is not SI or s.hi - s.lo < 64 or self.mode not in ("real", "poly") or self.guide is not None:
            return s
        k = s.e.get_id()
        got = self.singles.get(k)
        if got is None:
            r = s
            if self.check() == "sat":
                v = self.solver.model().eval(s.e, model_completion=True)
                if z3.is_int_value(v) and self.check(s.e != v) == "unsat":
                    r = v.as_long()
            got = self.singles[k] = (r, s.e)
        return got[0]

    def affine(self, s):
        """(integer input, constant) if the integer always is their sum"""
        k = ("affine", s.e.get_id())
        got = self.singles.get(k)
        if got is None:
            got = s, None, s.e
            if self.guide is None:
                for name, (kind, lo, hi) in self.inputs.items():
                    if kind != "int":
                        continue
                    v = z3.Int(name)
                    if v.get_id() == s.e.get_id():
                        break
                    if self.check() == "sat":
                        d = self.solver.model().eval(s.e - v, model_completion=True)
                        if z3.is_int_value(d) and self.check(s.e - v != d) == "unsat":
                            got = SI(v, lo, hi), d.as_long(), s.e
                            break
            self.singles[k] = got
        return got[:2]

    def concretize(self, s, limit=200):
        if s.__class__ is int:
            return s
        if isinstance(s, bool):
            return int(s)
        if isinstance(s, BT):
            return 1 if self.branch(s) else 0
        if self.guide is not None:
            v = eval_si(s, self.gvals, {"__vars__": self.low.vars})
            self.add(s.e == v)
            return v
        for v in range(limit):
            i = len(self.taken)
            if i < len(self.prefix):
                # value decisions are stored as ('v', value, excluded)
                d = self.prefix[i]
                self.taken.append(d)
                if isinstance(d, tuple) and d[0] == "v":
                    self.add(s.e == d[1])
                    return d[1]
                self.add(s.e != d[1])
                continue
            self._flush()
            r = self.check()
            if r == "unsat":
                raise PathAbort()
            if r != "sat":
                raise Inconclusive("cannot enumerate values of an integer")
            val = self.solver.model().eval(s.e, model_completion=True).as_long()
            if self.check(s.e != val) != "unsat":
                self.pending.append(self.taken + [("x", val)])
            self.taken.append(("v", val))
            self.add(s.e == val)
            return val
        raise Unsupported("too many values of a symbolic integer to enumerate")

    def event(self, kind, text, where=""):
        self.events.append(Event(kind, text, where))

    def model(self, *extra, timeout_ms=None):
        """model of the path condition (and extra) as {input name: value} or None"""
        r = self.check(*extra, timeout_ms=timeout_ms)
        if r != "sat":
            return None if r == "unsat" else "unknown"
        m = self.solver.model()
        return self.decode(m)

    def decode(self, m):
        out = {}
        for name, (kind, lo, hi) in self.inputs.items():
            if kind == "int":
                out[name] = m.eval(z3.Int(name), model_completion=True).as_long()
            else:
                out[name] = real_value(m.eval(self.low.var(name), model_completion=True))
        return out


def real_value(v):
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    raise Unsupported("model value " + str(v))


class Path:
    __slots__ = ("ctx", "result", "error", "aborted")

    def __init__(self, ctx_, result, error):
        self.ctx, self.result, self.error = ctx_, result, error


def explore(fn, mode="real", max_paths=2000, timeout_ms=10000, deadline=None, prefix=(), guides=None,
            unsupported=None):
    """run fn(ctx) along every feasible path; yields Path objects"""
    global CTX
    work = [list(prefix)] if guides is None else [[] for g in guides]
    guides = list(guides or ())
    n = 0
    while work:
        if n >= max_paths:
            raise Budget(f"more than {max_paths} paths")
        if deadline and time.time() > deadline:
            raise Budget("time budget exceeded during path exploration")
        p = work.pop()
        c = Ctx(mode, p, timeout_ms)
        if guides:
            c.guide = guides.pop()
        CTX = c
        try:
            try:
                r = fn(c)
                ok = True
            except PathAbort:
                ok = False
                r = None
            except (Unsupported, Inconclusive) as e:
                if unsupported is None:
                    raise
                unsupported(c, e)
                ok = False
                r = None
                c.events = []
        finally:
            pass
        work.extend(c.pending)
        if ok or c.events:
            n += 1
            STATS.paths += 1
            yield Path(c, r, None if ok else "aborted")
        CTX = None
