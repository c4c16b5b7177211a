"""LLVM IR (text, clang-18) -> executable Python over concrete and symbolic values.

Every function of the module becomes a Python function `f(W, *args)`; W is the World holding memory.
Values: int (canonical signed) | SI, bool | BT for i1, float | T for double, (obj, offset) for
pointers, tuple for first-class aggregates; UNDEF for uninitialised.
"""
import re
import struct

import z3

from . import core
from .core import (SI, BT, T, UNDEF, Unsupported, PathAbort, fadd, fsub, fmul, fdiv, fneg, fcall,
                   fcmp, b_and, b_or, b_not, si_cmp, sitofp, b_z3, ie, lohi, si)

NULL = (None, 0)

# ---------------------------------------------------------------------------------------------
# memory


class MemObj:
    __slots__ = ("kind", "size", "cells", "gran", "alive", "zero", "name", "py", "ro", "dead_why")

    def __init__(self, kind, size, name="", zero=False, py=None):
        self.kind, self.size, self.name, self.zero, self.py = kind, size, name, zero, py
        self.cells = {}
        self.gran = -1
        self.alive = True
        self.ro = False
        self.dead_why = ""

    def __repr__(self):
        return f"<{self.kind} {self.name} {self.size}B{'' if self.alive else ' dead'}>"


class FnPtr:
    __slots__ = ("name",)
    kind = "function"
    alive = True

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<function {self.name}>"


def bad(kind, text, where=""):
    core.CTX.event(kind, text, where)
    raise PathAbort()


def _check(p, size, what, where):
    if p is UNDEF:
        bad("uninitialised", f"{what} through an uninitialised pointer", where)
    obj, off = p
    if obj is None:
        bad("null-dereference", f"{what} through a NULL pointer", where)
    if obj.__class__ is FnPtr:
        bad("wild-access", f"{what} of a function", where)
    if not obj.alive:
        bad("use-after-free", f"{what} of released memory {obj}", where)
    if off.__class__ is not int:
        c = core.CTX
        if off is UNDEF:
            bad("uninitialised", f"{what} at an uninitialised index", where)
        oob = z3.Or(off.e < 0, off.e > obj.size - size)
        r = c.model(oob) if (off.lo < 0 or off.hi > obj.size - size) else None
        if r == "unknown":
            raise core.Inconclusive("bounds of a symbolic offset")
        if r is not None:
            c.event("out-of-bounds", f"{what} outside of {obj} for {r}", where)
            c.assume(z3.Not(oob))
        off = c.concretize(off)
        p = (obj, off)
    if off < 0 or off + size > obj.size:
        bad("out-of-bounds", f"{what} of {size} bytes at offset {off} of {obj}", where)
    return p


def _conv(v, frm, to, size):
    """reinterpret a value"""
    if v is UNDEF or frm == to:
        return v
    if frm in "if" and to in "if":
        if frm == "i":
            if v.__class__ is int:
                return struct.unpack("<d" if size == 8 else "<f", v.to_bytes(size, "little", signed=True))[0]
            raise Unsupported("bit cast of a symbolic integer to a double")
        if v.__class__ is float:
            return int.from_bytes(struct.pack("<d" if size == 8 else "<f", v), "little", signed=True)
        raise Unsupported("bit cast of a symbolic double to an integer")
    if frm == "p" and to == "i":
        if v == NULL:
            return 0
        return PtrInt(v)
    if frm == "i" and to == "p":
        if v.__class__ is PtrInt:
            return v.p
        if v == 0:
            return NULL
    raise Unsupported(f"reinterpretation of {frm} as {to}")


class PtrInt:
    """a pointer stored in an integer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


def load(p, size, kind, where=""):
    try:
        obj, off = p
        if obj.alive and off.__class__ is int:
            c = obj.cells.get(off)
            if c is not None and c[0] == size:
                if c[1] == kind:
                    return c[2]
                return _conv(c[2], c[1], kind, size)
    except (TypeError, AttributeError):
        pass
    obj, off = _check(p, size, "read", where)
    c = obj.cells.get(off)
    if c is not None and c[0] == size:
        return c[2] if c[1] == kind else _conv(c[2], c[1], kind, size)
    if obj.kind == "opaque":
        raise Unsupported(f"read of the internals of {obj.name} at offset {off}")
    if obj.gran != 0 and c is None and (obj.gran == -1 or (obj.gran == size and off % size == 0)):
        return _default(obj, kind)
    return _load_slow(obj, off, size, kind)


def _default(obj, kind):
    if not obj.zero:
        return UNDEF
    return 0 if kind == "i" else 0.0 if kind == "f" else NULL


def _byte(obj, o):
    """one byte: int, or UNDEF"""
    for d in range(0, 16):
        c = obj.cells.get(o - d)
        if c is not None:
            if c[0] > d:
                v = c[2]
                if v is UNDEF:
                    return UNDEF
                if c[1] == "p" and v == NULL:
                    return 0
                if c[1] == "f" and v.__class__ is float:
                    v = _conv(v, "f", "i", c[0])
                elif v.__class__ is bool:
                    v = int(v)
                elif v.__class__ is not int:
                    raise Unsupported(f"partial access to a symbolic value in {obj} at {o}")
                return (v >> (8 * d)) & 255
            break
    return 0 if obj.zero else UNDEF


def _load_slow(obj, off, size, kind):
    bs = [_byte(obj, off + i) for i in range(size)]
    if any(b is UNDEF for b in bs):
        return UNDEF
    v = int.from_bytes(bytes(bs), "little", signed=True)
    return _conv(v, "i", kind, size)


def store(p, size, kind, v, where=""):
    try:
        obj, off = p
        if obj.alive and off.__class__ is int and not obj.ro:
            cells = obj.cells
            c = cells.get(off)
            if c is not None and c[0] == size:
                cells[off] = (size, kind, v)
                return
    except (TypeError, AttributeError):
        pass
    obj, off = _check(p, size, "write", where)
    if obj.ro:
        bad("write-to-constant", f"write to {obj} at offset {off}", where)
    c = obj.cells.get(off)
    if c is not None and c[0] == size:
        obj.cells[off] = (size, kind, v)
        return
    if obj.gran == -1 and off % size == 0:
        obj.gran = size
    if obj.gran != size or off % size:
        obj.gran = 0
    if obj.gran == 0:
        _clear(obj, off, size)
    obj.cells[off] = (size, kind, v)


def _clear(obj, off, size):
    """remove cells overlapping the range, splitting concrete ones into bytes"""
    for o in range(off - 15, off + size):
        c = obj.cells.get(o)
        if c is None or o + c[0] <= off:
            continue
        if o >= off and o + c[0] <= off + size:
            del obj.cells[o]
            continue
        bs = [_byte(obj, o + i) for i in range(c[0])]
        del obj.cells[o]
        for i, b in enumerate(bs):
            if not off <= o + i < off + size:
                obj.cells[o + i] = (1, "i", b if b is UNDEF else (b ^ 128) - 128)


def memcpy(dst, src, n, where=""):
    n = core.CTX.concretize(n)
    if n == 0:
        return
    src = _check(src, n, "memcpy read", where)
    dst = _check(dst, n, "memcpy write", where)
    so, sf = src
    do, df = dst
    if so is do and abs(sf - df) < n and sf != df:
        bad("overlap", "memcpy with overlapping ranges", where)
    items = []
    o = sf
    while o < sf + n:
        c = so.cells.get(o)
        if c is not None and o + c[0] <= sf + n:
            items.append((o - sf, c))
            o += c[0]
            continue
        b = _byte(so, o)
        # keep whole zero/undefined words together
        items.append((o - sf, (1, "i", b if b is UNDEF else (b ^ 128) - 128)))
        o += 1
    # merge runs of undefined bytes into 8-byte words where possible
    _clear_range(do, df, n)
    if do.gran == -1 and items:
        sizes = {c[0] for _, c in items}
        do.gran = sizes.pop() if len(sizes) == 1 else 0
        if do.gran and df % do.gran:
            do.gran = 0
    else:
        if any(c[0] != do.gran for _, c in items):
            do.gran = 0
    for o, c in items:
        do.cells[df + o] = c


def _clear_range(obj, off, n):
    if off == 0 and n == obj.size:
        obj.cells.clear()
        obj.gran = -1
        return
    _clear(obj, off, n)


def memset(dst, v, n, where=""):
    n = core.CTX.concretize(n)
    v = core.CTX.concretize(v)
    if n == 0:
        return
    do, df = _check(dst, n, "memset", where)
    _clear_range(do, df, n)
    if df == 0 and n == do.size and v == 0:
        do.zero = True
        return
    if v == 0 and df % 8 == 0 and n % 8 == 0 and do.gran in (-1, 8):
        do.gran = 8
        for o in range(df, df + n, 8):
            do.cells[o] = (8, "i", 0)
        return
    do.gran = 0
    for o in range(df, df + n):
        do.cells[o] = (1, "i", v)


# ---------------------------------------------------------------------------------------------
# types

class Types:
    def __init__(self):
        self.named = {}
        self.cache = {}

    def size(self, t):
        k = t[0]
        if k == "i":
            return (t[1] + 7) // 8 if t[1] <= 8 else {16: 2, 32: 4, 64: 8, 128: 16}[t[1]]
        if k == "double" or k == "ptr":
            return 8
        if k == "float":
            return 4
        if k == "x86_fp80":
            return 16
        if k == "array" or k == "vector":
            return t[1] * self.size(t[2])
        if k == "struct":
            return self.layout(t)[1]
        if k == "named":
            return self.size(self.named[t[1]])
        raise Unsupported("size of type " + str(t))

    def align(self, t):
        k = t[0]
        if k == "array":
            return self.align(t[2])
        if k == "struct":
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        if k == "named":
            return self.align(self.named[t[1]])
        return self.size(t)

    def layout(self, t):
        r = self.cache.get(t)
        if r is None:
            o = 0
            offs = []
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                offs.append(o)
                o += self.size(x)
            a = self.align(t)
            r = self.cache[t] = (offs, (o + a - 1) // a * a)
        return r

    def res(self, t):
        while t[0] == "named":
            t = self.named[t[1]]
        return t


TOK = re.compile(r'\s+|c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-\w.$]+)|![\w.]*|#\d+|'
                 r'\.\.\.|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|[()\[\]{}<>,=*:|]')


def toks(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ";":
                break
            raise Unsupported("cannot tokenise: " + s[i:i + 60])
        i = m.end()
        t = m.group()
        if not t.isspace():
            out.append(t)
    return out


PATTR = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly",
         "writeonly", "readnone", "returned", "immarg", "dead_on_unwind", "writable", "noalias",
         "allocptr", "nofree", "nest", "swiftself", "allocalign"}
FLAGS = {"nsw", "nuw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
         "disjoint", "nneg", "inbounds", "volatile", "atomic", "tail", "musttail", "notail"}


class P:
    """token stream parser"""

    def __init__(self, tk, mod):
        self.t, self.i, self.m = tk, 0, mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        if self.next() != x:
            raise Unsupported(f"expected {x} in {' '.join(self.t)[:200]} at {self.i}")

    def type(self):
        k = self.next()
        if k[0] == "i" and k[1:].isdigit():
            t = ("i", int(k[1:]))
        elif k in ("double", "ptr", "float", "void", "label", "metadata", "x86_fp80"):
            t = (k,)
        elif k[0] == "%":
            t = ("named", k[1:])
        elif k == "[":
            n = int(self.next())
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = ("array", n, e)
        elif k == "<" and self.peek() == "{":
            self.next()
            t = ("struct", tuple(self._fields()), True)
            self.exp(">")
        elif k == "<":
            n = int(self.next())
            self.exp("x")
            e = self.type()
            self.exp(">")
            t = ("vector", n, e)
        elif k == "{":
            t = ("struct", tuple(self._fields()), False)
        elif k == "opaque":
            t = ("opaque",)
        else:
            raise Unsupported("type " + k)
        while self.peek() == "(" and t[0] != "label":
            # function type: skip the parameter list
            d = 0
            while True:
                x = self.next()
                d += x == "("
                d -= x == ")"
                if d == 0:
                    break
            t = ("fn", t)
        return t

    def _fields(self):
        out = []
        if self.acc("}"):
            return out
        while True:
            out.append(self.type())
            if self.acc("}"):
                return out
            self.exp(",")

    def attrs(self):
        a = {}
        while True:
            k = self.peek()
            if k in PATTR:
                self.next()
            elif k in ("sret", "byval", "dereferenceable", "dereferenceable_or_null", "align",
                       "elementtype", "initializes", "range", "nofpclass", "captures"):
                self.next()
                if k == "align" and self.peek() != "(":
                    self.next()
                    continue
                if self.acc("("):
                    if k in ("sret", "byval"):
                        a[k] = self.type()
                        self.exp(")")
                    else:
                        d = 1
                        while d:
                            x = self.next()
                            d += x == "("
                            d -= x == ")"
            else:
                return a

    # a value as Python source text
    def value(self, t):
        k = self.next()
        if k[0] == "%":
            return self.m.reg(k)
        return self._const(k, t)

    def _const(self, k, t):
        m = self.m
        if k[0] == "@":
            return m.gref(k[1:].strip('"'))
        rt = m.types.res(t) if t[0] == "named" else t
        if k == "null":
            return "NULL"
        if k in ("undef", "poison"):
            return "UNDEF"
        if k == "true":
            return "True"
        if k == "false":
            return "False"
        if k == "zeroinitializer":
            return zero_src(rt, m)
        if rt[0] == "i":
            v = int(k)
            w = rt[1]
            if w == 1:
                return "True" if v else "False"
            v &= (1 << w) - 1
            if v >> (w - 1):
                v -= 1 << w
            return str(v) if v >= 0 else f"({v})"
        if rt[0] in ("double", "float"):
            if k.startswith("0x"):
                f = struct.unpack(">d", bytes.fromhex(k[2:].rjust(16, "0")))[0]
            else:
                f = float(k)
            if f != f:
                return "NAN"
            if f in (float("inf"), float("-inf")):
                return "INF" if f > 0 else "(-INF)"
            return repr(f) if f > 0 or (f == 0 and not str(f).startswith("-")) else f"({f!r})"
        if k == "getelementptr":
            while self.peek() in FLAGS or self.peek() == "inrange":
                self.next()
                if self.peek() == "(" and self.t[self.i - 1] == "inrange":
                    pass
            self.exp("(")
            bt = self.type()
            self.exp(",")
            self.type()
            base = self.value(("ptr",))
            idx = []
            while self.acc(","):
                it = self.type()
                idx.append(self.value(it))
            self.exp(")")
            return m.gep_src(bt, base, idx)
        if k in ("bitcast", "inttoptr", "ptrtoint"):
            self.exp("(")
            ft = self.type()
            v = self.value(ft)
            self.exp("to")
            self.type()
            self.exp(")")
            return v if k == "bitcast" else f"{k}({v})"
        if k == "{" or k == "<" or k == "[":
            raise Unsupported("aggregate constant operand")
        raise Unsupported(f"constant {k} of type {t}")

    # a constant initialiser: list of (offset, size, kind, source)
    def init(self, t, off, out):
        m = self.m
        rt = m.types.res(t)
        k = self.peek()
        if k == "zeroinitializer":
            self.next()
            return
        if k in ("undef", "poison"):
            self.next()
            return
        if rt[0] == "array" and k.startswith('c"'):
            self.next()
            b = cstr(k)
            for i, x in enumerate(b):
                out.append((off + i, 1, "i", str((x ^ 128) - 128)))
            return
        if rt[0] == "array":
            self.exp("[")
            es = m.types.size(rt[2])
            i = 0
            while not self.acc("]"):
                et = self.type()
                self.init(et, off + i * es, out)
                i += 1
                self.acc(",")
            return
        if rt[0] == "struct":
            packed = self.acc("<")
            self.exp("{")
            offs = m.types.layout(rt)[0]
            i = 0
            while not self.acc("}"):
                et = self.type()
                self.init(et, off + offs[i], out)
                i += 1
                self.acc(",")
            if packed:
                self.exp(">")
            return
        v = self._const(self.next(), t)
        out.append((off, m.types.size(rt), kind(rt), v))


def cstr(tok):
    b = bytearray()
    s = tok[2:-1]
    i = 0
    while i < len(s):
        if s[i] == "\\":
            b.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            b.append(ord(s[i]))
            i += 1
    return bytes(b)


def kind(t):
    return {"i": "i", "double": "f", "float": "f", "ptr": "p"}[t[0]]


def zero_src(t, m):
    if t[0] == "i":
        return "False" if t[1] == 1 else "0"
    if t[0] in ("double", "float"):
        return "0.0"
    if t[0] == "ptr":
        return "NULL"
    if t[0] == "struct":
        return "(" + "".join(zero_src(m.types.res(x), m) + "," for x in t[1]) + ")"
    if t[0] == "array":
        return "(" + (zero_src(m.types.res(t[2]), m) + ",") * t[1] + ")"
    raise Unsupported("zero of " + str(t))


# ---------------------------------------------------------------------------------------------
# run-time helpers used by the generated code

def _rng(w):
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def wrapint(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def _wrapsi(e, lo, hi, w):
    L, H = _rng(w)
    if L <= lo and hi <= H:
        return si(e, lo, hi)
    c = core.CTX
    if not c.feasible(z3.Or(e < L, e > H)):
        return si(e, max(lo, L), min(hi, H))
    M = 1 << w
    return SI((e + (M >> 1)) % M - (M >> 1), L, H)


def ibin(op, a, b, w, nsw, where):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is PtrInt or b.__class__ is PtrInt:
        return ptrarith(op, a, b)
    if a.__class__ is bool or a.__class__ is BT or b.__class__ is BT or b.__class__ is bool:
        if w == 1:
            if op == "and":
                return b_and(a, b)
            if op == "or":
                return b_or(a, b)
            if op in ("xor", "add", "sub"):
                if b.__class__ is bool:
                    return b_not(a) if b else a
                if a.__class__ is bool:
                    return b_not(b) if a else b
                return core.CTX.branch(a) != core.CTX.branch(b)
            raise Unsupported("i1 " + op)
        a, b = b2i(a), b2i(b)
    ca = a.__class__ is int
    cb = b.__class__ is int
    if ca and cb:
        if op == "+": r = a + b
        elif op == "-": r = a - b
        elif op == "*": r = a * b
        elif op in ("sdiv", "srem", "udiv", "urem"):
            if b == 0:
                bad("division-by-zero", "integer division by zero", where)
            if op[0] == "u":
                a &= (1 << w) - 1
                b &= (1 << w) - 1
                return wrapint(a // b if op == "udiv" else a % b, w)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            r = q if op == "sdiv" else a - q * b
        elif op == "and": return a & b
        elif op == "or": return a | b
        elif op == "xor": return a ^ b
        elif op == "shl":
            r = a << b
            return wrapint(r, w)
        elif op == "ashr": return a >> b
        elif op == "lshr": return wrapint((a & ((1 << w) - 1)) >> b, w)
        else:
            raise Unsupported("integer " + op)
        L, H = _rng(w)
        if L <= r <= H:
            return r
        if nsw:
            core.CTX.event("integer-overflow", f"signed overflow of {op} {a} {b}", where)
        return wrapint(r, w)
    c = core.CTX
    al, ah = lohi(a)
    bl, bh = lohi(b)
    if op in "+-*":
        r = core.si_arith(op, a, b)
        if r.__class__ is int:
            return r if _rng(w)[0] <= r <= _rng(w)[1] else wrapint(r, w)
        L, H = _rng(w)
        if L <= r.lo and r.hi <= H:
            return r
        if nsw:
            ov = z3.Or(r.e < L, r.e > H)
            if c.feasible(ov):
                c.event("integer-overflow", f"possible signed overflow of {op}", where)
                c.assume(z3.Not(ov))
            return SI(r.e, max(L, r.lo), min(H, r.hi))
        return _wrapsi(r.e, r.lo, r.hi, w)
    if op in ("sdiv", "srem", "udiv", "urem"):
        if not cb:
            if c.feasible(b.e == 0):
                c.event("division-by-zero", "possible integer division by zero", where)
                c.assume(b.e != 0)
            b = c.concretize(b)
            return ibin(op, a, b, w, nsw, where)
        if b == 0:
            bad("division-by-zero", "integer division by zero", where)
        if op[0] == "u":
            if al < 0 and c.feasible(a.e < 0):
                raise Unsupported("unsigned division of a negative symbolic value")
            al = max(al, 0)
        d = abs(b)
        # z3 integer division by a positive constant is the floor
        if al >= 0:
            q, lo, hi = a.e / d, al // d, ah // d
        elif ah <= 0:
            q, lo, hi = -((-a.e) / d), -((-al) // d), -((-ah) // d)
        else:
            q, lo, hi = z3.If(a.e >= 0, a.e / d, -((-a.e) / d)), -((-al) // d), ah // d
        if op.endswith("rem"):
            return si(a.e - q * d, -(d - 1) if al < 0 else 0, d - 1 if ah > 0 else 0)
        return si(q, lo, hi) if b > 0 else si(-q, -hi, -lo)
    if op == "and":
        if not cb and ca:
            a, b, cb = b, a, True
        if cb and b >= 0 and (b & (b + 1)) == 0:
            return si(a.e % (b + 1), 0, b)
    if op == "shl" and cb:
        return ibin("*", a, 1 << b, w, nsw, where)
    if op == "ashr" and cb:
        d = 1 << b
        return si(a.e / d, lohi(a)[0] // d, lohi(a)[1] // d)
    if op == "lshr" and cb and al >= 0:
        d = 1 << b
        return si(a.e / d, al // d, ah // d)
    return ibin(op, c.concretize(a), c.concretize(b), w, nsw, where)


def ptrarith(op, a, b):
    if op == "-" and a.__class__ is PtrInt and b.__class__ is PtrInt and a.p[0] is b.p[0]:
        return a.p[1] - b.p[1]
    if op in "+-" and b.__class__ is int and a.__class__ is PtrInt:
        return PtrInt((a.p[0], a.p[1] + b if op == "+" else a.p[1] - b))
    if op == "+" and a.__class__ is int:
        return ptrarith(op, b, a)
    if op in ("and", "urem") and b.__class__ is int and 0 < b < 16:
        # alignment test: objects are aligned to 16 bytes
        return a.p[1] & b if op == "and" else a.p[1] % b
    raise Unsupported("arithmetic on addresses")


def ptrtoint(p):
    return _conv(p, "p", "i", 8)


def inttoptr(v):
    return _conv(v, "i", "p", 8)


def b2i(v):
    if v.__class__ is bool:
        return 1 if v else 0
    if v.__class__ is BT:
        e = z3.simplify(core.CTX.low.bool(v))
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return SI(z3.If(e, z3.IntVal(1), z3.IntVal(0)), 0, 1)
    return v


_SGN = {"eq": "==", "ne": "!=", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">=",
        "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}


def icmp(pred, a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is PtrInt or b.__class__ is PtrInt:
        return pcmp(pred, inttoptr(a), inttoptr(b))
    if w == 1:
        a, b = b2i(a), b2i(b)
    if pred[0] == "u":
        m = (1 << w) - 1
        if a.__class__ is int and b.__class__ is int:
            a &= m
            b &= m
        else:
            c = core.CTX
            if a.__class__ is SI and a.lo < 0:
                a = SI(z3.If(a.e < 0, a.e + (m + 1), a.e), 0, m)
            if b.__class__ is SI and b.lo < 0:
                b = SI(z3.If(b.e < 0, b.e + (m + 1), b.e), 0, m)
            if a.__class__ is int:
                a &= m
            if b.__class__ is int:
                b &= m
    if a.__class__ is int and b.__class__ is int:
        if pred == "eq": return a == b
        if pred == "ne": return a != b
        p = pred[1:]
        if p == "lt": return a < b
        if p == "le": return a <= b
        if p == "gt": return a > b
        return a >= b
    return si_cmp(_SGN[pred], a, b)


def pcmp(pred, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if pred in ("eq", "ne"):
        if a[0] is b[0]:
            r = a[1] == b[1]
            if r.__class__ is not bool:
                return r if pred == "eq" else b_not(r)
        else:
            r = False
        return r if pred == "eq" else not r
    if a[0] is b[0]:
        r = si_cmp(_SGN[pred], a[1], b[1]) if (a[1].__class__ is SI or b[1].__class__ is SI) else \
            {"<": a[1] < b[1], "<=": a[1] <= b[1], ">": a[1] > b[1], ">=": a[1] >= b[1]}[_SGN[pred]]
        return r
    raise Unsupported("order of unrelated pointers")


def sext(v, w):
    if v.__class__ is bool or v.__class__ is BT:
        v = b2i(v)
        return -v
    return v


def zext(v, w0):
    if v.__class__ is int:
        return v & ((1 << w0) - 1)
    if v is UNDEF:
        return v
    if v.__class__ is bool or v.__class__ is BT:
        return b2i(v)
    if v.lo >= 0:
        return v
    m = 1 << w0
    return SI(z3.If(v.e < 0, v.e + m, v.e), 0, m - 1)


def trunc(v, w):
    if v.__class__ is int:
        if w == 1:
            return bool(v & 1)
        return wrapint(v, w)
    if v is UNDEF:
        return v
    if v.__class__ is PtrInt:
        raise Unsupported("truncated address")
    if w == 1:
        if v.lo >= 0 and v.hi <= 1:
            return b_z3(v.e == 1)
        return b_z3(v.e % 2 == 1)
    return _wrapsi(v.e, v.lo, v.hi, w)


def fptosi(x, w, where, signed=True):
    if x is UNDEF:
        return x
    L, H = _rng(w) if signed else (0, (1 << w) - 1)
    if x.__class__ is float:
        if not core.isfin(x) or not (L <= int(x) <= H):
            core.CTX.event("float-conversion", f"{x} is out of range of the integer type", where)
            return UNDEF if False else L
        return int(x)
    if x.op == "si":
        s = x.args[0]
        return SI(s.e, s.lo, s.hi) if L <= s.lo and s.hi <= H else _wrapsi(s.e, s.lo, s.hi, w)
    c = core.CTX
    e = c.low(x)
    i = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
    if x.op == "call:floor":
        i = z3.ToInt(c.low(x.args[0]))
    elif x.op in ("call:trunc", "call:ceil"):
        e0 = c.low(x.args[0])
        i = -z3.ToInt(-e0) if x.op == "call:ceil" else z3.If(e0 >= 0, z3.ToInt(e0), -z3.ToInt(-e0))
    ov = z3.Or(i < L, i > H)
    if c.mode == "ord":
        # abstract arithmetic: magnitudes are not known, conversions are assumed to be in a moderate range
        ov = z3.Or(i < -(1 << 20), i > (1 << 20))
        if c.feasible(ov):
            c.assume(z3.Not(ov))
    elif c.feasible(ov):
        c.event("float-conversion", "value may be out of range of the integer type", where)
        c.assume(z3.Not(ov))
    # a named integer, so that it can be evaluated from the floating-point value
    name = f"trunc!{x.id}"
    if name in c.low.vars:
        kv = c.low.vars[name][0]
    else:
        kv = z3.Int(name)
        c.low.vars[name] = (kv, ("trunc", x))
        c.add(kv == i)
    return tight(SI(kv, L, H))


def unique(v):
    return core.CTX.unique(v) if v.__class__ is SI else v


def tight(s):
    """tighten the interval of a symbolic integer with a few solver queries"""
    c = core.CTX
    key = ("tight", s.e.get_id())
    r = c.cache.get(key)
    if r is not None:
        return r[0]
    for B in (1 << 8, 1 << 12, 1 << 16, 1 << 22, 1 << 28, 1 << 40):
        if s.lo >= -B and s.hi <= B:
            break
        if not c.feasible(z3.Or(s.e < -B, s.e > B)):
            s = SI(s.e, max(s.lo, -B), min(s.hi, B))
            break
    c.cache[key] = (s, s.e)
    return s


def i2f(v, unsigned_w=0):
    if v is UNDEF:
        return v
    if v.__class__ is bool or v.__class__ is BT:
        v = b2i(v)
        if not unsigned_w:
            v = -v
    if unsigned_w:
        v = zext(v, unsigned_w)
    if v.__class__ is int:
        return float(v)
    return sitofp(v)


def select(c, a, b):
    if c is UNDEF:
        bad("uninitialised", "selection on an uninitialised value")
    if a is b:
        return a
    return a if core.CTX.branch(c) else b


def gep(p, off, where=""):
    if p is UNDEF or off is UNDEF:
        bad("uninitialised", "address computed from an uninitialised value", where)
    o = p[1] + off
    return (p[0], o)


def isscale(v, n):
    if v.__class__ is int:
        return v * n
    if v is UNDEF:
        return UNDEF
    return core.si_arith("*", v, n)


def ldagg(W, p, lay, where):
    return tuple(load((p[0], p[1] + o), s, k, where) for o, s, k in lay)


def stagg(W, p, lay, v, where):
    for (o, s, k), x in zip(lay, v):
        store((p[0], p[1] + o), s, k, x, where)


def insval(agg, v, i, n):
    lst = list(agg) if agg is not UNDEF else [UNDEF] * n
    lst[i] = v
    return tuple(lst)


class Fuel(Exception):
    pass


# ---------------------------------------------------------------------------------------------
# module

class Module:
    def __init__(self, text, name):
        self.name = name
        self.types = Types()
        self.globals = {}
        self.gsrc = {}
        self.funcs = {}
        self.decls = set()
        self.compiled = {}
        self.lines = 0
        self.encoded = set()
        self._parse(text)
        self.ns = dict(
            MOD=self, NULL=NULL, UNDEF=UNDEF, NAN=float("nan"), INF=float("inf"), load=load,
            store=store, ibin=ibin, icmp=icmp, pcmp=pcmp, sext=sext, zext=zext, trunc=trunc,
            fptosi=fptosi, unique=unique, i2f=i2f, select=select, gep=gep, fadd=fadd, fsub=fsub, fmul=fmul,
            fdiv=fdiv, fneg=fneg, fcmp=fcmp, isscale=isscale, MemObj=MemObj, ptrtoint=ptrtoint,
            inttoptr=inttoptr, ldagg=ldagg, stagg=stagg, insval=insval, bad=bad, memcpy=memcpy,
            core=core)

    # ---- parsing
    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ";!" or ln.startswith(("source_filename", "target", "attributes")):
                continue
            if ln[0] == "%":
                nm, rest = ln.split(" = type ", 1)
                self.types.named[nm[1:]] = P(toks(rest), self).type()
            elif ln[0] == "@":
                nm = re.match(r'@("[^"]*"|[-\w.$]+) = ', ln)
                self.globals[nm.group(1).strip('"')] = ln[nm.end():]
            elif ln.startswith("declare"):
                self.decls.add(re.search(r'@("[^"]*"|[-\w.$]+)\(', ln).group(1))
            elif ln.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                nm = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln).group(1)
                self.funcs[nm] = (ln, body)
                self.lines += len(body)

    def reg(self, k):
        """register name -> python identifier"""
        r = self._regs.get(k)
        if r is None:
            r = self._regs[k] = "v" + str(len(self._regs))
        return r

    def gref(self, name):
        if name in self.funcs or name in self.decls:
            return f"W.fnptr(MOD, {name!r})"
        return f"(W.glob(MOD, {name!r}), 0)"

    def gep_src(self, bt, base, idx):
        ty = self.types
        const = 0
        terms = []

        def addi(ix, sz):
            nonlocal const
            try:
                const += int(ix.strip("()")) * sz
            except ValueError:
                terms.append(ix if sz == 1 else f"isscale({ix}, {sz})")
        addi(idx[0], ty.size(bt))
        t = bt
        for ix in idx[1:]:
            t = ty.res(t)
            if t[0] == "struct":
                k = int(ix)
                const += ty.layout(t)[0][k]
                t = t[1][k]
            elif t[0] in ("array", "vector"):
                addi(ix, ty.size(t[2]))
                t = t[2]
            else:
                raise Unsupported("getelementptr into " + str(t))
        off = str(const)
        for x in terms:
            off = f"({x} + {off})" if off != "0" else x
        if off == "0" and not terms:
            return base
        return f"gep({base}, {off}, WH)"

    # ---- globals
    def make_global(self, W, name):
        d = self.globals.get(name)
        if d is None:
            raise Unsupported("unknown global " + name)
        p = P(toks(d), self)
        const = False
        ext = False
        while True:
            k = p.next()
            if k in ("global", "constant"):
                const = k == "constant"
                break
            if k == "external":
                ext = True
        t = p.type()
        if ext:
            return W.external_global(self, name, self.types, t)
        out = []
        p.init(t, 0, out)
        o = MemObj("global", self.types.size(t), name, zero=True)
        W.globals[(self.name, name)] = o
        env = dict(self.ns, W=W, WH=name)
        for off, sz, kd, src in out:
            v = int(src) if sz == 1 and src.lstrip("-").isdigit() else eval(src, env)
            store((o, off), sz, kd, v)
        o.ro = const
        return o

    # ---- functions
    def fn(self, name):
        f = self.compiled.get(name)
        if f is None:
            f = self.compiled[name] = self._compile(name)
        return f

    def _compile(self, name):
        if name not in self.funcs:
            raise Unsupported("no body of function " + name)
        self._regs = {}
        head, body = self.funcs[name]
        self.encoded.add(name)
        p = P(toks(head[head.index("@"):]), self)
        p.next()
        p.exp("(")
        params = []
        vararg = False
        while not p.acc(")"):
            if p.acc("..."):
                vararg = True
                continue
            p.type()
            p.attrs()
            params.append(self.reg(p.next()))
            p.acc(",")
        if vararg:
            raise Unsupported("variadic function " + name)
        # blocks
        blocks = []
        cur = None
        joined = []
        buf = None
        for ln in body:
            if buf is not None:
                buf += " " + ln.strip()
                if ln.strip().startswith("]"):
                    joined.append(buf)
                    buf = None
                continue
            s = ln.strip()
            if s.startswith("switch ") and not s.endswith("]"):
                buf = s
                continue
            joined.append(ln)
        for ln in joined:
            if not ln.strip() or ln.strip().startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            if m:
                cur = (m.group(1), [])
                blocks.append(cur)
                continue
            if cur is None:
                # an unnamed entry block gets the next free number
                cur = ("__entry", [])
                blocks.append(cur)
            cur[1].append(toks(ln.strip()))
        index = {b[0]: i for i, b in enumerate(blocks)}
        entry_names = {"__entry"}
        phis = {}
        for bname, ins in blocks:
            ph = []
            for tk in ins:
                if len(tk) > 2 and tk[1] == "=" and tk[2] == "phi":
                    q = P(tk, self)
                    dst = self.reg(q.next())
                    q.next(); q.next()
                    while q.peek() in FLAGS:
                        q.next()
                    t = q.type()
                    src = {}
                    while q.acc("["):
                        v = q.value(t)
                        q.exp(",")
                        src[q.next()[1:]] = v
                        q.exp("]")
                        q.acc(",")
                    ph.append((dst, src))
            phis[bname] = ph
        has_alloca = any(len(tk) > 2 and tk[1] == "=" and tk[2] == "alloca" for b in blocks for tk in b[1])
        chunks = []
        for bi, (bname, ins) in enumerate(blocks):
            L = []
            for tk in ins:
                self._insn(tk, L, name, bname, index, phis, has_alloca, bi, entry_names)
            chunks.append(L)
        out = [f"def f({', '.join(['W'] + params)}):"]
        out.append(f"    WH = {name!r}")
        if has_alloca:
            out.append("    FR = []")
            out.append("    W.push(FR)")
        out.append("    bb = 0")
        out.append("    while 1:")
        self._dispatch(chunks, 0, len(chunks), out, "        ")
        src = "\n".join(out)
        ns = self.ns
        try:
            code = compile(src, f"<{self.name}:{name}>", "exec")
        except (SyntaxError, RecursionError) as e:
            raise Unsupported(f"generated code of {name}: {e}")
        loc = {}
        exec(code, ns, loc)
        return loc["f"]

    def _dispatch(self, chunks, a, b, out, ind):
        if b - a == 1:
            for s in chunks[a]:
                out.append(ind + s)
            return
        m = (a + b) // 2
        out.append(f"{ind}if bb < {m}:")
        self._dispatch(chunks, a, m, out, ind + " ")
        out.append(f"{ind}else:")
        self._dispatch(chunks, m, b, out, ind + " ")

    def _goto(self, tgt, frm, index, phis, bi, L, ind=""):
        ph = phis[tgt]
        if ph:
            ds, ss = [], []
            for dst, src in ph:
                v = src.get(frm)
                if v is None:
                    # an unnamed entry block
                    ks = [k for k in src if k not in index]
                    v = src[ks[0]]
                if v != dst:
                    ds.append(dst)
                    ss.append(v)
            if ds:
                L.append(f"{ind}{', '.join(ds)} = {', '.join(ss)}")
        j = index[tgt]
        if j <= bi:
            L.append(f"{ind}W.fuel -= 1")
            L.append(f"{ind}if W.fuel < 0: W.out_of_fuel(WH)")
        L.append(f"{ind}bb = {j}")
        L.append(f"{ind}continue")

    def _insn(self, tk, L, fname, bname, index, phis, has_alloca, bi, entry_names):
        p = P(tk, self)
        dst = None
        if len(tk) > 1 and tk[1] == "=":
            dst = self.reg(p.next())
            p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        flags = set()
        while p.peek() in FLAGS and op != "getelementptr":
            flags.add(p.next())
        A = L.append
        ty = self.types
        if op == "phi":
            return
        if op == "load":
            t = ty.res(p.type())
            p.exp(",")
            p.type()
            a = p.value(("ptr",))
            if t[0] in ("struct", "array"):
                A(f"{dst} = ldagg(W, {a}, {self._agg(t)!r}, WH)")
                return
            if t == ("i", 1):
                raise Unsupported("load of i1")
            A(f"{dst} = load({a}, {ty.size(t)}, {kind(t)!r}, WH)")
            return
        if op == "store":
            t = ty.res(p.type())
            v = p.value(t)
            p.exp(",")
            p.type()
            a = p.value(("ptr",))
            if t[0] in ("struct", "array"):
                A(f"stagg(W, {a}, {self._agg(t)!r}, {v}, WH)")
                return
            A(f"store({a}, {ty.size(t)}, {kind(t)!r}, {v}, WH)")
            return
        if op == "alloca":
            t = p.type()
            n = "1"
            if p.acc(","):
                if p.peek() != "align":
                    it = p.type()
                    n = p.value(it)
            A(f"{dst} = W.alloca(FR, {ty.size(t)}, {n}, {tk[0]!r}, WH)")
            return
        if op == "getelementptr":
            while p.peek() in FLAGS:
                p.next()
            bt = p.type()
            p.exp(",")
            p.type()
            base = p.value(("ptr",))
            idx = []
            while p.acc(","):
                if p.peek() and p.peek()[0] == "!":
                    break
                it = p.type()
                idx.append(p.value(it))
            A(f"{dst} = {self.gep_src(bt, base, idx)}")
            return
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            t = p.type()
            if t != ("double",):
                raise Unsupported(f"{op} of {t}")
            a = p.value(t)
            p.exp(",")
            b = p.value(t)
            A(f"{dst} = {op}({a}, {b})")
            return
        if op == "fneg":
            t = p.type()
            A(f"{dst} = fneg({p.value(t)})")
            return
        if op == "frem":
            t = p.type()
            a = p.value(t)
            p.exp(",")
            A(f"{dst} = core.fcall('fmod', {a}, {p.value(t)})")
            return
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl",
                  "ashr", "lshr"):
            t = p.type()
            if t[0] != "i":
                raise Unsupported(f"{op} of {t}")
            a = p.value(t)
            p.exp(",")
            b = p.value(t)
            o = {"add": "+", "sub": "-", "mul": "*"}.get(op, op)
            A(f"{dst} = ibin({o!r}, {a}, {b}, {t[1]}, {'nsw' in flags}, WH)")
            return
        if op == "icmp":
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.exp(",")
            b = p.value(t)
            if t[0] == "ptr":
                A(f"{dst} = pcmp({pred!r}, {a}, {b})")
            else:
                A(f"{dst} = icmp({pred!r}, {a}, {b}, {t[1]})")
            return
        if op == "fcmp":
            pred = p.next()
            while pred in FLAGS:
                pred = p.next()
            t = p.type()
            a = p.value(t)
            p.exp(",")
            b = p.value(t)
            A(f"{dst} = fcmp({pred!r}, {a}, {b})")
            return
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "ptrtoint",
                  "inttoptr", "bitcast", "fpext", "fptrunc"):
            t = p.type()
            v = p.value(t)
            p.exp("to")
            t2 = p.type()
            src = {
                "sext": lambda: f"sext({v}, {t[1]})",
                "zext": lambda: f"zext({v}, {t[1]})",
                "trunc": lambda: f"trunc({v}, {t2[1]})",
                "sitofp": lambda: f"i2f({v})",
                "uitofp": lambda: f"i2f({v}, {t[1]})",
                "fptosi": lambda: f"fptosi({v}, {t2[1]}, WH)",
                "fptoui": lambda: f"fptosi({v}, {t2[1]}, WH, False)",
                "ptrtoint": lambda: f"ptrtoint({v})",
                "inttoptr": lambda: f"inttoptr({v})",
            }.get(op)
            if src is None or t2 in (("float",), ("x86_fp80",)):
                raise Unsupported(f"{op} {t} to {t2}")
            A(f"{dst} = {src()}")
            return
        if op == "select":
            t = p.type()
            c = p.value(t)
            p.exp(",")
            t1 = p.type()
            a = p.value(t1)
            p.exp(",")
            t2 = p.type()
            b = p.value(t2)
            A(f"{dst} = select({c}, {a}, {b})")
            return
        if op == "freeze":
            t = p.type()
            A(f"{dst} = {p.value(t)}")
            return
        if op == "extractvalue":
            t = p.type()
            v = p.value(t)
            s = v
            while p.acc(","):
                s += f"[{p.next()}]"
            A(f"{dst} = {s}")
            return
        if op == "insertvalue":
            t = ty.res(p.type())
            v = p.value(t)
            p.exp(",")
            t2 = p.type()
            x = p.value(t2)
            p.exp(",")
            i = p.next()
            A(f"{dst} = insval({v}, {x}, {i}, {len(t[1]) if t[0] == 'struct' else t[1]})")
            return
        if op == "ret":
            t = p.type()
            if t[0] == "void":
                if has_alloca:
                    A("W.pop(FR)")
                A("return")
            else:
                v = p.value(t)
                if t[0] == "i" and t[1] in (32, 64):
                    v = f"unique({v})"
                if has_alloca:
                    A(f"RV = {v}")
                    A("W.pop(FR)")
                    A("return RV")
                else:
                    A(f"return {v}")
            return
        if op == "unreachable":
            A("bad('unreachable', 'unreachable code reached', WH)")
            return
        if op == "br":
            t = p.type()
            if t[0] == "label":
                self._goto(p.next()[1:], bname, index, phis, bi, L)
                return
            c = p.value(t)
            p.exp(",")
            p.type()
            a = p.next()[1:]
            p.exp(",")
            p.type()
            b = p.next()[1:]
            A(f"if {c} is True or ({c} is not False and core.CTX.branch({c})):")
            self._goto(a, bname, index, phis, bi, L, " ")
            self._goto(b, bname, index, phis, bi, L)
            return
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.exp(",")
            p.type()
            d = p.next()[1:]
            p.exp("[")
            while not p.acc("]"):
                ct = p.type()
                cv = p.value(ct)
                p.exp(",")
                p.type()
                tgt = p.next()[1:]
                A(f"if core.CTX.branch(icmp('eq', {v}, {cv}, {t[1]})):")
                self._goto(tgt, bname, index, phis, bi, L, " ")
            self._goto(d, bname, index, phis, bi, L)
            return
        if op == "call":
            p.attrs()
            while p.peek() in FLAGS or (p.peek() or "") in ("fastcc", "ccc"):
                p.next()
            p.attrs()
            rt = p.type()
            if rt[0] == "fn":
                rt = rt[1]
            callee = p.next()
            if callee == "asm":
                raise Unsupported("inline assembler")
            p.exp("(")
            args = []
            while not p.acc(")"):
                at = p.type()
                if at[0] == "metadata":
                    return
                attr = p.attrs()
                v = p.value(at)
                if "byval" in attr:
                    sz = ty.size(attr["byval"])
                    A(f"BV{len(args)} = W.byval({v}, {sz}, WH)")
                    v = f"BV{len(args)}"
                args.append(v)
                p.acc(",")
            al = ", ".join(["W"] + args)
            if callee[0] == "%":
                call = f"W.call_ptr({', '.join([self.reg(callee)] + args)})"
            else:
                nm = callee[1:].strip('"')
                if nm in self.funcs:
                    call = f"(MOD.compiled.get({nm!r}) or MOD.fn({nm!r}))({al})"
                    if nm in INTERCEPT:
                        call = f"W.intercept(MOD, {', '.join([repr(nm)] + args)})"
                elif nm == "llvm.stacksave.p0" or nm == "llvm.stacksave":
                    call = "(FR, len(FR))"
                elif nm.startswith("llvm.stackrestore"):
                    A(f"W.restore(FR, {args[0]})")
                    return
                else:
                    call = f"W.ext({nm!r})({', '.join(['W'] + args)})"
            A(f"{dst} = {call}" if dst else call)
            return
        raise Unsupported(f"instruction {op} in {fname}")

    def _agg(self, t):
        ty = self.types
        out = []
        if t[0] == "struct":
            for o, f in zip(ty.layout(t)[0], t[1]):
                f = ty.res(f)
                out.append((o, ty.size(f), kind(f)))
        else:
            f = ty.res(t[2])
            for i in range(t[1]):
                out.append((i * ty.size(f), ty.size(f), kind(f)))
        return tuple(out)


# functions of the module which a world may intercept (name -> handled in World.intercept)
INTERCEPT = set()
