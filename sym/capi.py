"""Model of the CPython / NumPy C-API against which the translated C functions run.

Python objects are memory objects laid out as in CPython 3.12 / NumPy 2 as far as the inlined macros
of the headers need (reference count, type, array fields, tuple and list items); everything else goes
through the API functions below. Each object counts its references, so that leaks and over-releases
are seen at the end of a call.
"""
import os
import re

from . import core, ir
from .core import UNDEF, SI, T, Unsupported, PathAbort
from .ir import MemObj, FnPtr, NULL, bad, load, store

NPY_INT, NPY_LONG, NPY_LONGLONG, NPY_DOUBLE, NPY_BOOL, NPY_OBJECT, NPY_FLOAT = 5, 7, 9, 12, 0, 17, 11
NPY_NAMES = {"BOOL": 0, "BYTE": 1, "UBYTE": 2, "SHORT": 3, "USHORT": 4, "INT": 5, "UINT": 6, "LONG": 7,
             "ULONG": 8, "LONGLONG": 9, "ULONGLONG": 10, "FLOAT": 11, "DOUBLE": 12}
ITEMSIZE = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 8, 10: 8, 11: 4, 12: 8}
C_CONT, F_CONT, OWNDATA, ALIGNED, WRITEABLE = 1, 2, 4, 0x100, 0x400
ENSURECOPY, FORCECAST = 0x20, 0x10
IMMORTAL = 0xFFFFFFFF

_TPFLAGS = {"int": 1 << 24, "list": 1 << 25, "tuple": 1 << 26, "bytes": 1 << 27, "str": 1 << 28,
            "dict": 1 << 29, "exc": 1 << 30, "type": 1 << 31}


class PyExc(Exception):
    """an exception set by the C code"""

    def __init__(self, type_, msg):
        self.type, self.msg = type_, msg

    def __str__(self):
        return f"{self.type}: {self.msg}"


class Array:
    """payload of an array object"""
    __slots__ = ("data", "offset", "dims", "strides", "typenum", "obj", "base")

    def __init__(self, data, offset, dims, strides, typenum, obj=None, base=None):
        self.data, self.offset, self.dims, self.strides = data, offset, tuple(dims), tuple(strides)
        self.typenum, self.obj, self.base = typenum, obj, base

    def indices(self):
        idx = [()]
        for d in self.dims:
            idx = [i + (k,) for i in idx for k in range(d)]
        return idx

    def off(self, ix):
        return self.offset + sum(i * s for i, s in zip(ix, self.strides))

    @property
    def size(self):
        n = 1
        for d in self.dims:
            n *= d
        return n


def cstrides(dims, item):
    st = []
    s = item
    for d in reversed(dims):
        st.append(s)
        s *= max(d, 1)
    return tuple(reversed(st))


def fstrides(dims, item):
    st = []
    s = item
    for d in dims:
        st.append(s)
        s *= max(d, 1)
    return tuple(st)


def is_c(dims, strides, item):
    if any(d == 0 for d in dims):
        return True
    s = item
    for d, st in zip(reversed(dims), reversed(strides)):
        if d != 1 and st != s:
            return False
        s *= d
    return True


def is_f(dims, strides, item):
    return is_c(dims[::-1], strides[::-1], item)


_SLOTS = {}


def api_slots(include):
    if not _SLOTS:
        txt = open(os.path.join(include, "numpy", "__multiarray_api.h")).read()
        for m in re.finditer(r"#define (\w+) \\?\s*\(\*\(.*?\)\s*\\?\s*PyArray_API\[(\d+)\]\)", txt, re.S):
            _SLOTS[int(m.group(2))] = m.group(1)
        for m in re.finditer(r"#define (\w+) \(\*\(.*?PyArray_API\[(\d+)\]\)", txt):
            _SLOTS[int(m.group(2))] = m.group(1)
    return _SLOTS


NUMPY_INCLUDE = None
EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


class World:
    def __init__(self, fuel=2_000_000):
        self.globals = {}
        self.frames = []
        self.fuel = fuel
        self.heap = []            # live malloc'ed objects
        self.objects = []         # python objects created inside of calls
        self.err = None           # (type name, message) of the current exception
        self.alloc_count = 0
        self.fail_at = None       # index of the allocation which fails
        self.failed = False
        self.types = {}
        self.fnptrs = {}
        self.hooks = {}           # external function name -> replacement
        self.inputs = []          # input arrays and their original contents
        self.calls = []           # record of hooked external calls
        self.args = []            # objects given to calls
        self.result_obj = None
        self.alloc_limit = 1 << 40
        self.none = self.pyobj("none", None, immortal=True)
        self.true = self.pyobj("bool", True, immortal=True)
        self.false = self.pyobj("bool", False, immortal=True)

    # ---- memory
    def alloca(self, FR, size, n, name, where):
        if n.__class__ is not int:
            c = core.CTX
            if n is UNDEF:
                bad("uninitialised", "stack array of uninitialised size", where)
            n = c.concretize(n)
        if n < 0:
            bad("bad-allocation", f"stack array of negative size {n}", where)
        if n * size > (4 << 20):
            bad("stack-overflow", f"stack array of {n * size} bytes", where)
        o = MemObj("stack", size * n, f"{where}{name}")
        FR.append(o)
        return (o, 0)

    def push(self, FR):
        self.frames.append(FR)
        if len(self.frames) > 400:
            bad("stack-overflow", "call depth above 400")

    def pop(self, FR):
        self.frames.pop()
        for o in FR:
            o.alive = False

    def restore(self, FR, mark):
        n = mark[1]
        for o in FR[n:]:
            o.alive = False
        del FR[n:]

    def byval(self, p, size, where):
        o = MemObj("stack", size, where + ":byval")
        ir.memcpy((o, 0), p, size, where)
        return (o, 0)

    def out_of_fuel(self, where):
        bad("nontermination", "execution does not end within the step bound", where)

    def glob(self, mod, name):
        o = self.globals.get((mod.name, name))
        if o is None:
            o = mod.make_global(self, name)
            self.globals[(mod.name, name)] = o
        return o

    def external_global(self, mod, name, types, t):
        if name == "_Py_NoneStruct":
            return self.none
        if name == "_Py_TrueStruct":
            return self.true
        if name == "_Py_FalseStruct":
            return self.false
        if name.startswith("PyExc_"):
            o = MemObj("global", 8, name)
            store((o, 0), 8, "p", (self.exc(name[6:]), 0))
            return o
        m = re.match(r"Py(\w+)_Type$", name)
        if m:
            return self.type(m.group(1).lower().replace("unicode", "str").replace("long", "int"))
        raise Unsupported("external variable " + name)

    def exc(self, name):
        k = "exc:" + name
        o = self.types.get(k)
        if o is None:
            o = self.types[k] = MemObj("pyobj", 16, name, py=("exc", name))
            store((o, 0), 8, "i", IMMORTAL)
        return o

    def type(self, name):
        o = self.types.get(name)
        if o is None:
            o = self.types[name] = MemObj("pytype", 416, name, zero=True, py=("type", name))
            store((o, 0), 8, "i", IMMORTAL)
            store((o, 168), 8, "i", _TPFLAGS.get(name, 0))
        return o

    def fnptr(self, mod, name):
        k = (mod.name if mod is not None else "", name)
        f = self.fnptrs.get(k)
        if f is None:
            f = self.fnptrs[k] = (FnPtr((mod, name)), 0)
        return f

    def call_ptr(self, p, *args):
        if p is UNDEF:
            bad("uninitialised", "call through an uninitialised pointer")
        o = p[0]
        if o is None:
            bad("null-dereference", "call through a NULL pointer")
        if o.__class__ is not FnPtr or p[1] != 0:
            bad("wild-call", "call of something which is not a function")
        mod, name = o.name
        if mod is not None and name in mod.funcs:
            return mod.fn(name)(self, *args)
        return self.ext(name)(self, *args)

    def ext(self, name):
        f = self.hooks.get(name)
        if f is not None:
            return f
        f = EXT.get(name)
        if f is None:
            b = re.sub(r"^llvm\.(\w+)\..*", r"llvm.\1", name)
            f = EXT.get(b) or EXT.get(re.sub(r"(\.(f|i|p|v)\d+)+$", "", name))
            if f is None:
                raise Unsupported("external function " + name)
            EXT[name] = f
        return f

    def intercept(self, mod, name, *args):
        h = self.hooks.get(name)
        if h is None:
            return mod.fn(name)(self, *args)
        return h(self, *args)

    # ---- allocation accounting
    def may_fail(self):
        i = self.alloc_count
        self.alloc_count += 1
        if self.fail_at is not None:
            f = self.fail_at
            if f.__class__ is SI:
                f = core.CTX.branch(core.si_cmp("==", f, i))
            else:
                f = f == i
            if f and not self.failed:
                self.failed = True
                return True
        return False

    # ---- python objects
    def pyobj(self, kind, payload, size=32, immortal=False):
        o = MemObj("pyobj", size, kind, py=(kind, payload))
        store((o, 0), 8, "i", IMMORTAL if immortal else 1)
        store((o, 8), 8, "p", (self.type(kind), 0))
        if not immortal:
            self.objects.append(o)
        return o

    def refcnt(self, o):
        return load((o, 0), 8, "i")

    def incref(self, o):
        r = load((o, 0), 8, "i")
        if r < IMMORTAL:
            store((o, 0), 8, "i", r + 1)
        return o

    def decref(self, o):
        r = load((o, 0), 8, "i")
        if r >= IMMORTAL:
            return
        r -= 1
        store((o, 0), 8, "i", r)
        if r == 0:
            self.dealloc(o)

    def dealloc(self, o):
        if not o.alive:
            bad("double-release", f"{o} released twice")
        kind, payload = o.py
        o.alive = False
        if kind == "array":
            a = payload
            if a.base is not None:
                self.decref(a.base)
            elif a.data is not None:
                a.data.alive = False
        elif kind in ("tuple", "list"):
            for x in payload:
                self.decref(x)
        elif kind == "dict":
            for x in payload.values():
                self.decref(x)

    def release(self):
        """release the result and the arguments of the last call; what remains is leaked"""
        if self.result_obj is not None:
            self.decref(self.result_obj)
            self.result_obj = None
        for o in self.args:
            self.decref(o)
        self.args = []
        return [o for o in self.heap if o.alive] + [o for o in self.objects if o.alive]

    def too_large(self, n):
        if n.__class__ is SI:
            return core.CTX.branch(core.si_cmp(">", n, self.alloc_limit))
        return n > self.alloc_limit

    # ---- conversions between Python values and objects
    def to_obj(self, v):
        """model object of a Python value given to a call (new reference)"""
        if v is None:
            return self.none
        if isinstance(v, bool):
            return self.true if v else self.false
        if isinstance(v, MemObj):
            return self.incref(v)
        if isinstance(v, (float, T)):
            o = self.pyobj("float", v)
            store((o, 16), 8, "f", v)
            return o
        if isinstance(v, (int, SI)):
            return self.pyobj("int", v)
        if isinstance(v, (tuple, list)):
            items = [self.to_obj(x) for x in v]
            k = "tuple" if isinstance(v, tuple) else "list"
            o = self.pyobj(k, items, size=24 + 8 * max(len(items), 1))
            store((o, 16), 8, "i", len(items))
            if k == "tuple":
                for i, x in enumerate(items):
                    store((o, 24 + 8 * i), 8, "p", (x, 0))
            else:
                arr = MemObj("pydata", 8 * len(items), "list items")
                for i, x in enumerate(items):
                    store((arr, 8 * i), 8, "p", (x, 0))
                store((o, 24), 8, "p", (arr, 0))
            return o
        if isinstance(v, Array):
            return self.array_obj(v)
        if isinstance(v, str):
            return self.pyobj("str", v)
        raise Unsupported(f"argument of type {type(v)}")

    def array_obj(self, a):
        if a.obj is not None:
            return self.incref(a.obj)
        o = self.pyobj("array", a, size=96)
        nd = len(a.dims)
        dm = MemObj("pydata", 8 * nd, "dims")
        sm = MemObj("pydata", 8 * nd, "strides")
        for i in range(nd):
            store((dm, 8 * i), 8, "i", a.dims[i])
            store((sm, 8 * i), 8, "i", a.strides[i])
        dm.ro = sm.ro = False
        store((o, 16), 8, "p", (a.data, a.offset))
        store((o, 24), 4, "i", nd)
        store((o, 32), 8, "p", (dm, 0))
        store((o, 40), 8, "p", (sm, 0))
        store((o, 48), 8, "p", (a.base, 0) if a.base is not None else NULL)
        store((o, 56), 8, "p", (self.descr(a.typenum), 0))
        item = ITEMSIZE[a.typenum]
        fl = ALIGNED | WRITEABLE
        if is_c(a.dims, a.strides, item):
            fl |= C_CONT
        if is_f(a.dims, a.strides, item):
            fl |= F_CONT
        store((o, 64), 4, "i", fl)
        a.obj = o
        return o

    def descr(self, typenum):
        k = f"descr:{typenum}"
        o = self.types.get(k)
        if o is None:
            o = self.types[k] = MemObj("pyobj", 96, k, zero=True, py=("descr", typenum))
            store((o, 0), 8, "i", IMMORTAL)
            store((o, 28), 4, "i", typenum)
            store((o, 40), 8, "i", ITEMSIZE[typenum])
        return o

    def new_array(self, dims, typenum, fortran=False, name="array", zero=False):
        item = ITEMSIZE[typenum]
        n = item
        for d in dims:
            n *= d
        data = MemObj("arraydata", n, name, zero=zero)
        return Array(data, 0, dims, (fstrides if fortran else cstrides)(dims, item), typenum)

    def make_array(self, values, dims, typenum=NPY_DOUBLE, strides=None, offset=0, size=None, name="input"):
        """input array; values: dict/callable index tuple -> value"""
        item = ITEMSIZE[typenum]
        dims = tuple(dims)
        if strides is None:
            strides = cstrides(dims, item)
        a = Array(None, offset, dims, strides, typenum)
        if size is None:
            size = offset + item
            for d, s in zip(dims, strides):
                size += max(0, (d - 1) * s)
            if a.size == 0:
                size = 0
        a.data = MemObj("arraydata", size, name)
        for ix in a.indices():
            v = values[ix] if isinstance(values, dict) else values(ix)
            store((a.data, a.off(ix)), item, "f" if typenum == NPY_DOUBLE else "i", v)
        self.inputs.append((a.data, dict(a.data.cells)))
        return a

    def modified_inputs(self):
        """input arrays whose contents differ from what was given to the calls"""
        out = []
        for o, snap in self.inputs:
            if o.cells is not snap:
                for off, c in snap.items():
                    d = o.cells.get(off)
                    if d is None or d[0] != c[0] or not (d[2] is c[2] or
                                                         (d[2].__class__ in (int, float) and d[2].__class__ is
                                                          c[2].__class__ and (d[2] == c[2] or d[2] != d[2]))):
                        out.append(o)
                        break
                else:
                    if len(o.cells) != len(snap):
                        out.append(o)
        return out

    def read_array(self, a):
        """{index: value} of an array"""
        item = ITEMSIZE[a.typenum]
        k = "f" if a.typenum in (NPY_DOUBLE, NPY_FLOAT) else "i"
        out = {}
        for ix in a.indices():
            v = load((a.data, a.off(ix)), item, k)
            if a.typenum == NPY_BOOL and v.__class__ is int:
                v = bool(v)
            out[ix] = v
        return out

    def set_error(self, typename, msg):
        self.err = (typename, msg)

    # ---- calling an entry point
    def call(self, mod, pyname, *args, **kwargs):
        """call the Python-visible function; returns the object (payload) or raises PyExc"""
        mt = mod.methods(self)
        if pyname not in mt:
            raise Unsupported(f"module {mod.name} has no function {pyname}")
        cname, flags = mt[pyname]
        to = self.to_obj(tuple(args))
        self.args.append(to)
        kw = NULL
        if flags & 2:
            if kwargs:
                kwo = self.pyobj("dict", {k: self.to_obj(v) for k, v in kwargs.items()})
                kw = (kwo, 0)
                self.args.append(kwo)
            r = mod.fn(cname)(self, NULL, (to, 0), kw)
        else:
            r = mod.fn(cname)(self, NULL, (to, 0))
        if r is UNDEF:
            bad("uninitialised", "uninitialised result", cname)
        if r[0] is None:
            if self.err is None:
                bad("no-exception", "NULL returned without an exception set", cname)
            e = PyExc(*self.err)
            self.err = None
            self.result_obj = None
            if e.type == "SystemError":
                bad("system-error", e.msg, cname)
            raise e
        if self.err is not None:
            bad("exception-ignored", f"result returned with exception {self.err} set", cname)
        self.result_obj = r[0]
        return self.value(r[0])

    def value(self, o):
        if not o.alive:
            bad("use-after-free", "released object returned")
        kind, payload = o.py
        if kind in ("tuple", "list"):
            return tuple(self.value(x) for x in payload)
        return payload


def methods(self, W):
    """{python name: (C function, flags)} from the PyMethodDef tables of the module"""
    if getattr(self, "_methods", None) is None:
        out = {}
        for g, d in self.globals.items():
            if re.match(r"(?:internal |dso_local |private )*(?:global|constant) \[\d+ x %struct\.PyMethodDef\]", d):
                o = W.glob(self, g)
                n = o.size // 32
                for i in range(n):
                    nm = load((o, 32 * i), 8, "p")
                    if nm[0] is None:
                        break
                    f = load((o, 32 * i + 8), 8, "p")
                    fl = load((o, 32 * i + 16), 4, "i")
                    out[cstring(nm)] = (f[0].name[1], fl)
        self._methods = out
    return self._methods


ir.Module.methods = methods


def cstring(p, where=""):
    b = bytearray()
    o, off = ir._check(p, 1, "read", where)
    while True:
        v = load((o, off), 1, "i", where)
        if v is UNDEF:
            bad("uninitialised", "uninitialised string", where)
        if v == 0:
            return b.decode("utf-8", "replace")
        b.append(v & 255)
        off += 1


# ---------------------------------------------------------------------------------------------
# C library

for _f in ("sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "floor", "ceil", "trunc", "round",
           "rint", "exp", "log", "cbrt", "fabs", "nearbyint"):
    def _mk(f):
        g = "rint" if f == "nearbyint" else f
        return lambda W, x: core.fcall(g, x) if g != "fabs" else fabs_(W, x)
    EXT[_f] = _mk(_f)
    EXT["llvm." + _f] = EXT[_f]
for _f in ("atan2", "pow", "fmod", "hypot", "fmin", "fmax"):
    EXT[_f] = (lambda f: lambda W, x, y: core.fcall(f, x, y))(_f)
EXT["llvm.pow"] = EXT["pow"]


def fabs_(W, x):
    if x.__class__ is float or x is UNDEF:
        return abs(x) if x is not UNDEF else x
    if getattr(core.CTX, "split_abs", False):
        return x if core.CTX.branch(core.fcmp("oge", x, 0.0)) else core.fneg(x)
    return core.fcall("fabs", x)


@ext("copysign", "llvm.copysign")
def _copysign(W, x, y):
    if x.__class__ is float and y.__class__ is float:
        import math
        return math.copysign(x, y)
    if getattr(core.CTX, "split_abs", False):
        a = fabs_(W, x)
        if y.__class__ is float:
            import math
            neg = math.copysign(1.0, y) < 0
        else:
            neg = core.CTX.branch(core.fcmp("olt", y, 0.0))
        return core.fneg(a) if neg else a
    return core.fcall("copysign", x, y)


@ext("fmin", "llvm.minnum")
def _fmin(W, x, y):
    if x.__class__ is float and y.__class__ is float:
        return y if x != x else x if y != y else min(x, y)
    return x if core.CTX.branch(core.fcmp("ole", x, y)) else y


@ext("fmax", "llvm.maxnum")
def _fmax(W, x, y):
    if x.__class__ is float and y.__class__ is float:
        return y if x != x else x if y != y else max(x, y)
    return x if core.CTX.branch(core.fcmp("oge", x, y)) else y


@ext("llvm.fmuladd", "fma", "llvm.fma")
def _fma(W, a, b, c):
    return core.fadd(core.fmul(a, b), c)


@ext("sincos")
def _sincos(W, x, s, c):
    store(s, 8, "f", core.fcall("sin", x))
    store(c, 8, "f", core.fcall("cos", x))


@ext("hypot")
def _hypot(W, x, y):
    return core.fcall("sqrt", core.fadd(core.fmul(x, x), core.fmul(y, y)))


@ext("modf")
def _modf(W, x, p):
    t = core.fcall("trunc", x)
    store(p, 8, "f", t)
    return core.fsub(x, t)


@ext("isnan", "__isnan")
def _isnan(W, x):
    return 1 if (x.__class__ is float and x != x) else 0


@ext("isinf", "__isinf")
def _isinf(W, x):
    return 1 if (x.__class__ is float and x in (float("inf"), float("-inf"))) else 0


@ext("finite", "__finite")
def _finite(W, x):
    return 0 if (x.__class__ is float and not core.isfin(x)) else 1


@ext("llvm.is.fpclass")
def _fpclass(W, x, m):
    if x.__class__ is not float:
        return bool(m & 0b0110011100 if False else m & (0x108 | 0x90 | 0x60))
    import math
    if x != x:
        return bool(m & 3)
    if x == math.inf:
        return bool(m & 0x200)
    if x == -math.inf:
        return bool(m & 4)
    if x == 0:
        return bool(m & (0x20 if math.copysign(1, x) < 0 else 0x40))
    return bool(m & (0x108 if True else 0))


@ext("llvm.abs")
def _iabs(W, x, poison):
    return iabs(x)


def _iabs_of(bits):
    low = -(1 << (bits - 1))

    def f(W, x, poison=1):
        if poison and x is not UNDEF and (x == low if x.__class__ is int else
                                          x.lo <= low and core.CTX.branch(core.si_cmp("==", x, low))):
            bad("signed-overflow", f"abs({low})")
        return iabs(x)
    return f


EXT["llvm.abs.i32"] = EXT["abs"] = _iabs_of(32)
EXT["llvm.abs.i64"] = EXT["labs"] = EXT["llabs"] = _iabs_of(64)


def iabs(x):
    if x is UNDEF:
        return x
    if x.__class__ is int:
        return abs(x)
    return core.si_arith("-", 0, x) if core.CTX.branch(core.si_cmp("<", x, 0)) else x


@ext("llvm.smax")
def _smax(W, a, b):
    return a if core.CTX.branch(core.si_cmp(">=", a, b) if not (a.__class__ is int and b.__class__ is int) else a >= b) else b


@ext("llvm.smin")
def _smin(W, a, b):
    return a if core.CTX.branch(core.si_cmp("<=", a, b) if not (a.__class__ is int and b.__class__ is int) else a <= b) else b


@ext("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")
def _memcpy(W, d, s, n, *a):
    ir.memcpy(d, s, n)
    return d


@ext("llvm.memset", "memset")
def _memset(W, d, v, n, *a):
    ir.memset(d, v, n)
    return d


@ext("llvm.lifetime", "llvm.assume", "llvm.donothing", "llvm.dbg")
def _nop(W, *a):
    return None


@ext("llvm.expect")
def _expect(W, v, e):
    return v


@ext("llvm.trap", "abort")
def _trap(W):
    bad("abort", "abort called")


def _malloc(W, n, zero):
    c = core.CTX
    if n.__class__ is not int:
        if n is UNDEF:
            bad("uninitialised", "allocation of uninitialised size")
        if c.feasible(n.e < 0):
            c.event("bad-allocation", "allocation of possibly negative size")
            c.assume(n.e >= 0)
        if W.too_large(n):
            return NULL
        n = c.concretize(n)
    if n < 0 or n > W.alloc_limit:
        # the size wraps to a huge number: the allocation fails
        return NULL
    if W.may_fail():
        return NULL
    o = MemObj("heap", n, f"malloc#{len(W.heap)}", zero=zero)
    W.heap.append(o)
    return (o, 0)


@ext("malloc", "PyMem_Malloc", "PyMem_RawMalloc", "PyObject_Malloc")
def _malloc1(W, n):
    return _malloc(W, n, False)


@ext("calloc", "PyMem_Calloc", "PyMem_RawCalloc", "PyObject_Calloc")
def _calloc(W, n, m):
    if n is UNDEF or m is UNDEF:
        bad("uninitialised", "allocation of uninitialised size")
    for x in (n, m):
        if x.__class__ is SI and W.too_large(x):
            return NULL
    n, m = core.CTX.concretize(n), core.CTX.concretize(m)
    if n < 0 or m < 0:
        return NULL
    return _malloc(W, n * m, True)


@ext("free", "PyMem_Free", "PyMem_RawFree", "PyObject_Free")
def _free(W, p):
    if p is UNDEF:
        bad("uninitialised", "free of an uninitialised pointer")
    o, off = p
    if o is None:
        return
    if o.kind != "heap" or off != 0:
        bad("bad-free", f"free of {o} + {off}")
    if not o.alive:
        bad("double-free", f"double free of {o}")
    o.alive = False


@ext("realloc", "PyMem_Realloc")
def _realloc(W, p, n):
    q = _malloc(W, n, False)
    if q[0] is None or p[0] is None:
        return q
    ir.memcpy(q, p, min(q[0].size, p[0].size))
    _free(W, p)
    return q


def cformat(W, fmt, args):
    f = cstring(fmt, "format")
    out = []
    ai = 0

    def nxt():
        nonlocal ai
        if ai >= len(args):
            bad("format", f"too few arguments for format {f!r}")
        ai += 1
        return args[ai - 1]
    i = 0
    for m in re.finditer(r"%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|t|j)?([diuxXscpfgeGEA%RSU])|[^%]+|%", f):
        conv = m.group(4)
        if not conv:
            out.append(m.group())
            continue
        if conv == "%":
            out.append("%")
            continue
        if m.group(1) == "*":
            nxt()
        v = nxt()
        if v is UNDEF:
            bad("uninitialised", "uninitialised value formatted")
        if conv == "s":
            if v.__class__ is not tuple:
                bad("format", "%s with a non-pointer")
            if v[0] is None:
                bad("null-dereference", f"NULL string formatted with {f!r}")
            out.append(cstring(v))
        elif conv in "RSU":
            out.append("<obj>")
        elif conv in "fgeGEA":
            out.append(str(v))
        elif conv == "p":
            out.append("<ptr>")
        else:
            if v.__class__ is tuple:
                bad("format", f"pointer formatted with {m.group()}")
            out.append(str(v))
    return "".join(out)


@ext("snprintf", "PyOS_snprintf")
def _snprintf(W, buf, n, fmt, *args):
    s = cformat(W, fmt, args)
    n = core.CTX.concretize(n)
    b = s.encode()
    if n > 0:
        w = b[:n - 1] + b"\0"
        for i, x in enumerate(w):
            store((buf[0], buf[1] + i), 1, "i", (x ^ 128) - 128)
    return len(b)


@ext("sprintf")
def _sprintf(W, buf, fmt, *args):
    return _snprintf(W, buf, 1 << 30, fmt, *args)


@ext("strlen")
def _strlen(W, p):
    return len(cstring(p))


@ext("strcmp")
def _strcmp(W, a, b):
    a, b = cstring(a), cstring(b)
    return (a > b) - (a < b)


@ext("printf", "fprintf", "puts")
def _printf(W, *a):
    return 0


# ---------------------------------------------------------------------------------------------
# CPython

def obj_of(p, where=""):
    if p is UNDEF:
        bad("uninitialised", "uninitialised object pointer", where)
    o = p[0]
    if o is None:
        bad("null-dereference", f"NULL object passed to {where}", where)
    if o.__class__ is FnPtr or o.py is None:
        bad("wild-access", f"not an object passed to {where}", where)
    if not o.alive:
        bad("use-after-free", f"released object {o} passed to {where}", where)
    return o


def _as_double(W, o):
    """PyFloat_AsDouble; None on error"""
    k, v = o.py
    if k == "float":
        return v
    if k == "int":
        return core.sitofp(v) if v.__class__ is SI else float(v)
    if k == "bool":
        return 1.0 if v else 0.0
    if k == "array":
        if v.size == 1:
            x = list(W.read_array(v).values())[0]
            if len(v.dims) and v.size == 1:
                W.set_error("TypeError", "only 0-dimensional arrays can be converted to Python scalars")
                return None
            return x if v.typenum == NPY_DOUBLE else (core.sitofp(x) if x.__class__ is SI else float(x))
        W.set_error("TypeError", "only 0-dimensional arrays can be converted to Python scalars")
        return None
    W.set_error("TypeError", f"must be real number, not {k}")
    return None


def _as_long(W, o):
    k, v = o.py
    if k == "int":
        return v
    if k == "bool":
        return int(v)
    if k == "array" and v.size == 1 and len(v.dims) == 0 and v.typenum not in (NPY_DOUBLE, NPY_FLOAT):
        return list(W.read_array(v).values())[0]
    W.set_error("TypeError", f"'{k}' object cannot be interpreted as an integer")
    return None


@ext("_PyArg_ParseTupleAndKeywords_SizeT", "PyArg_ParseTupleAndKeywords")
def _parse_kw(W, args, kw, fmt, keywords, *ptrs):
    a = obj_of(args, "PyArg_Parse").py[1]
    kd = dict(obj_of(kw, "PyArg_Parse").py[1]) if kw[0] is not None else {}
    f = cstring(fmt)
    names = []
    o, off = keywords
    while True:
        p = load((o, off), 8, "p")
        if p[0] is None:
            break
        names.append(cstring(p))
        off += 8
    return _parse(W, list(a), kd, f, names, ptrs)


@ext("_PyArg_ParseTuple_SizeT", "PyArg_ParseTuple")
def _parse_tuple(W, args, fmt, *ptrs):
    a = obj_of(args, "PyArg_Parse").py[1]
    return _parse(W, list(a), {}, cstring(fmt), None, ptrs)


_FMT = {"i": 4, "I": 4, "h": 2, "l": 8, "k": 8, "n": 8, "L": 8, "K": 8, "p": 4, "b": 1}


def _parse(W, args, kd, f, names, ptrs):
    m = re.match(r"([^:;]*)(?:[:;](.*))?", f)
    codes, fname = m.group(1), m.group(2) or "function"
    units = []
    opt = False
    i = 0
    while i < len(codes):
        c = codes[i]
        i += 1
        if c in "|$":
            opt = opt or c == "|"
            continue
        if c == "O" and i < len(codes) and codes[i] in "!&":
            raise Unsupported("argument format O" + codes[i])
        if c not in _FMT and c not in "Odfs":
            raise Unsupported("argument format " + c)
        units.append((c, opt))
    if names is not None and len(names) != len(units):
        bad("system-error", "more or fewer argument specifiers than keyword list entries")
    if len(ptrs) < len(units):
        bad("format", "too few output pointers for the argument format")
    if len(args) > len(units):
        W.set_error("TypeError", f"{fname} takes at most {len(units)} arguments ({len(args)} given)")
        return 0
    for i, (c, o) in enumerate(units):
        if i < len(args):
            v = args[i]
            if names is not None and names[i] in kd:
                W.set_error("TypeError", f"argument for {fname} given by name and position")
                return 0
        elif names is not None and names[i] in kd:
            v = kd.pop(names[i])
        elif o:
            continue
        else:
            W.set_error("TypeError", f"{fname} missing required argument")
            return 0
        p = ptrs[i]
        if c == "O":
            store(p, 8, "p", (v, 0), "PyArg_Parse")
        elif c in "df":
            x = _as_double(W, v)
            if x is None:
                return 0
            if c == "f":
                raise Unsupported("argument format f")
            store(p, 8, "f", x, "PyArg_Parse")
        elif c == "s":
            if v.py[0] != "str":
                W.set_error("TypeError", f"{fname} argument must be str")
                return 0
            store(p, 8, "p", _chars(v), "PyArg_Parse")
        elif c == "p":
            store(p, 4, "i", _truth(W, v), "PyArg_Parse")
        else:
            x = _as_long(W, v)
            if x is None:
                return 0
            w = _FMT[c] * 8
            L, H = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if x.__class__ is SI:
                if x.lo < L or x.hi > H:
                    if core.CTX.branch(core.b_or(core.si_cmp("<", x, L), core.si_cmp(">", x, H))):
                        W.set_error("OverflowError", "integer out of range")
                        return 0
            elif not L <= x <= H:
                W.set_error("OverflowError", "integer out of range")
                return 0
            store(p, _FMT[c], "i", x, "PyArg_Parse")
    if kd:
        W.set_error("TypeError", f"unexpected keyword argument of {fname}: {list(kd)}")
        return 0
    return 1


def _chars(o):
    """NUL-terminated bytes of a str object"""
    b = o.py[1].encode("utf-8") + b"\0"
    m = MemObj("global", len(b), "str")
    m.gran = 1
    m.cells = {i: (1, "i", (x ^ 128) - 128) for i, x in enumerate(b)}
    m.ro = True
    return m, 0


@ext("strlen")
def _strlen(W, p):
    return _cbytes(p)


def _cbytes(p):
    n = 0
    while True:
        b = load((p[0], p[1] + n), 1, "i", "strlen")
        if b is UNDEF:
            bad("uninitialised", "unset character in a string")
        if b == 0:
            return n
        n += 1


@ext("strncpy")
def _strncpy(W, d, s, n):
    n = core.CTX.concretize(n)
    end = False
    for i in range(n):
        b = 0 if end else load((s[0], s[1] + i), 1, "i", "strncpy")
        end = end or b == 0
        store((d[0], d[1] + i), 1, "i", b, "strncpy")
    return d


def _truth(W, o):
    k, v = o.py
    if k == "none":
        return 0
    if k in ("int", "bool", "float"):
        if v.__class__ is SI:
            return ir.b2i(core.si_cmp("!=", v, 0))
        if v.__class__ is T:
            return ir.b2i(core.fcmp("une", v, 0.0))
        return 1 if v else 0
    if k == "array":
        if v.size == 1:
            x = list(W.read_array(v).values())[0]
            return 1 if x else 0
        raise Unsupported("truth value of an array")
    return 1 if v else 0


@ext("PyObject_IsTrue")
def _istrue(W, p):
    return _truth(W, obj_of(p, "PyObject_IsTrue"))


@ext("_Py_BuildValue_SizeT", "Py_BuildValue")
def _buildvalue(W, fmt, *args):
    f = cstring(fmt).strip()
    outer = re.fullmatch(r"\((.*)\)", f)
    codes = [c for c in (outer.group(1) if outer else f) if c not in ", \t"]
    if len(codes) > len(args):
        bad("format", "too few values for Py_BuildValue")
    items = []
    fail = False
    for c, a in zip(codes, args):
        if c in "NOS":
            if a is UNDEF:
                bad("uninitialised", "uninitialised object passed to Py_BuildValue")
            if a[0] is None:
                if W.err is None:
                    W.set_error("SystemError", "NULL object passed to Py_BuildValue")
                fail = True
                continue
            o = obj_of(a, "Py_BuildValue")
            items.append(W.incref(o) if c in "OS" else o)
        elif c == "d":
            items.append(W.to_obj(a))
        elif c in "iIlknLKbhH":
            items.append(W.to_obj(a))
        else:
            raise Unsupported("Py_BuildValue format " + f)
    if fail or W.may_fail():
        for o in items:
            W.decref(o)
        if W.err is None:
            W.set_error("MemoryError", "")
        return NULL
    if not outer and len(codes) == 1:
        return (items[0], 0)
    if not codes:
        return (W.none, 0)
    o = W.pyobj("tuple", items, size=24 + 8 * len(items))
    store((o, 16), 8, "i", len(items))
    for i, x in enumerate(items):
        store((o, 24 + 8 * i), 8, "p", (x, 0))
    return (o, 0)


@ext("PyErr_Format")
def _err_format(W, exc, fmt, *args):
    W.set_error(obj_of(exc, "PyErr_Format").py[1], cformat(W, fmt, args))
    return NULL


@ext("PyErr_SetString")
def _err_setstring(W, exc, msg):
    if msg[0] is None:
        bad("null-dereference", "NULL message")
    W.set_error(obj_of(exc, "PyErr_SetString").py[1], cstring(msg))


@ext("PyErr_SetNone")
def _err_setnone(W, exc):
    W.set_error(obj_of(exc, "PyErr_SetNone").py[1], "")


@ext("PyErr_NoMemory")
def _err_nomem(W):
    W.set_error("MemoryError", "")
    return NULL


@ext("PyErr_Occurred")
def _err_occurred(W):
    return NULL if W.err is None else (W.exc(W.err[0]), 0)


@ext("PyErr_Clear", "PyErr_Print")
def _err_clear(W):
    W.err = None


@ext("PyErr_ExceptionMatches")
def _err_matches(W, exc):
    return 1 if W.err and W.err[0] == obj_of(exc).py[1] else 0


@ext("PyErr_WarnEx", "PyErr_WarnFormat")
def _warn(W, *a):
    return 0


@ext("_Py_Dealloc")
def _dealloc(W, p):
    W.dealloc(obj_of(p, "_Py_Dealloc"))


@ext("Py_IncRef")
def _incref(W, p):
    if p[0] is not None:
        W.incref(obj_of(p))


@ext("Py_DecRef")
def _decref(W, p):
    if p[0] is not None:
        W.decref(obj_of(p))


@ext("PyType_IsSubtype")
def _issubtype(W, a, b):
    return 1 if a == b else 0


@ext("PyType_GetFlags")
def _typeflags(W, t):
    return load((t[0], 168), 8, "i")


@ext("PyTuple_Size", "PyList_Size")
def _seq_size(W, p):
    o = obj_of(p, "PySequence size")
    if o.py[0] not in ("tuple", "list"):
        W.set_error("SystemError", "bad argument to internal function")
        return -1
    return len(o.py[1])


@ext("PySequence_Size", "PySequence_Length", "PyObject_Size", "PyObject_Length")
def _seq_size2(W, p):
    o = obj_of(p, "PySequence size")
    k, v = o.py
    if k in ("tuple", "list"):
        return len(v)
    if k == "array" and v.dims:
        return v.dims[0]
    W.set_error("TypeError", "object has no len()")
    return -1


@ext("PyTuple_GetItem", "PyList_GetItem")
def _seq_item(W, p, i):
    o = obj_of(p, "PySequence item")
    if o.py[0] not in ("tuple", "list"):
        W.set_error("SystemError", "bad argument to internal function")
        return NULL
    i = core.CTX.concretize(i)
    if not 0 <= i < len(o.py[1]):
        W.set_error("IndexError", "index out of range")
        return NULL
    return (o.py[1][i], 0)


@ext("PySequence_GetItem")
def _seq_item2(W, p, i):
    r = _seq_item(W, p, i)
    if r[0] is not None:
        W.incref(r[0])
    return r


@ext("PyTuple_New")
def _tuple_new(W, n):
    n = core.CTX.concretize(n)
    if W.may_fail():
        W.set_error("MemoryError", "")
        return NULL
    o = W.pyobj("tuple", [None] * n, size=24 + 8 * max(n, 1))
    store((o, 16), 8, "i", n)
    return (o, 0)


@ext("PyTuple_SetItem")
def _tuple_set(W, p, i, v):
    o = obj_of(p, "PyTuple_SetItem")
    i = core.CTX.concretize(i)
    if not 0 <= i < len(o.py[1]):
        W.decref(v[0])
        W.set_error("IndexError", "assignment index out of range")
        return -1
    o.py[1][i] = obj_of(v)
    store((o, 24 + 8 * i), 8, "p", v)
    return 0


@ext("PyFloat_AsDouble")
def _float_as(W, p):
    r = _as_double(W, obj_of(p, "PyFloat_AsDouble"))
    return -1.0 if r is None else r


@ext("PyFloat_FromDouble")
def _float_from(W, v):
    if W.may_fail():
        W.set_error("MemoryError", "")
        return NULL
    if v is UNDEF:
        core.CTX.event("uninitialised", "uninitialised value returned")
    o = W.to_obj(0.0)
    o.py = ("float", v)
    store((o, 16), 8, "f", v)
    return (o, 0)


@ext("PyLong_AsLong", "PyLong_AsSsize_t", "PyLong_AsLongLong")
def _long_as(W, p):
    r = _as_long(W, obj_of(p, "PyLong_AsLong"))
    return -1 if r is None else r


@ext("PyLong_FromLong", "PyLong_FromSsize_t", "PyLong_FromLongLong")
def _long_from(W, v):
    if W.may_fail():
        W.set_error("MemoryError", "")
        return NULL
    if v is UNDEF:
        core.CTX.event("uninitialised", "uninitialised value returned")
        v = 0
    return (W.pyobj("int", v), 0)


@ext("PyBool_FromLong")
def _bool_from(W, v):
    return (W.true if core.CTX.branch(ir.icmp("ne", v, 0, 64)) else W.false, 0)


@ext("PyUnicode_FromString")
def _str_from(W, p):
    return (W.pyobj("str", cstring(p)), 0)


@ext("PyDict_SetItemString")
def _dict_set(W, d, k, v):
    return 0


# ---------------------------------------------------------------------------------------------
# NumPy

@ext("PyArray_DescrFromType")
def _descr(W, t):
    t = core.CTX.concretize(t)
    if t not in ITEMSIZE:
        raise Unsupported(f"array type {t}")
    return (W.descr(t), 0)


def _flatten(W, o):
    """(dims, values, all integers) of a nested sequence / scalar object"""
    k, v = o.py
    if k in ("float", "int", "bool"):
        return (), [v], k != "float"
    if k == "array":
        if v.dims == ():
            return (), list(W.read_array(v).values()), v.typenum not in (NPY_DOUBLE, NPY_FLOAT)
        return v.dims, list(W.read_array(v).values()), v.typenum not in (NPY_DOUBLE, NPY_FLOAT)
    if k in ("tuple", "list"):
        sub = [_flatten(W, x) for x in v]
        if any(s is None for s in sub):
            return None
        if len({s[0] for s in sub}) > 1:
            return None
        if not sub:
            return (0,), [], False
        return (len(sub),) + sub[0][0], [x for s in sub for x in s[1]], all(s[2] for s in sub)
    return None


def _convert(v, frm_int, typenum):
    if typenum == NPY_DOUBLE:
        if v.__class__ is SI:
            return core.sitofp(v)
        if v.__class__ is int or v.__class__ is bool:
            return float(v)
        return v
    if typenum == NPY_BOOL:
        if v.__class__ in (int, bool):
            return int(bool(v))
        raise Unsupported("conversion to bool")
    if v.__class__ is bool:
        return int(v)
    if v.__class__ is float:
        return int(v)
    return v


def _out_of_memory(W):
    W.set_error("MemoryError", "Unable to allocate array")
    return NULL


@ext("PyArray_FromAny")
def _fromany(W, p, descr, mind, maxd, flags, ctx):
    o = obj_of(p, "PyArray_FromAny")
    d = descr[0]
    typenum = d.py[1] if d is not None else None
    k, v = o.py
    cc = core.CTX.concretize
    mind, maxd, flags = cc(mind), cc(maxd), cc(flags)
    if k == "array" and typenum is None:
        typenum = v.typenum
    if k == "array":
        nd = len(v.dims)
        dims = v.dims
    else:
        fl = _flatten(W, o)
        if fl is None:
            W.set_error("ValueError", "setting an array element with a sequence")
            return NULL
        dims, vals, allint = fl
        nd = len(dims)
        if typenum is None:
            typenum = NPY_LONG if allint else NPY_DOUBLE
    if mind and nd < mind:
        W.set_error("ValueError", "object of too small depth for desired array")
        return NULL
    if maxd and nd > maxd:
        W.set_error("ValueError", "object too deep for desired array")
        return NULL
    item = ITEMSIZE[typenum]
    if k == "array" and v.typenum == typenum and not flags & ENSURECOPY:
        ok = True
        if flags & C_CONT and not is_c(v.dims, v.strides, item):
            ok = False
        if flags & F_CONT and not is_f(v.dims, v.strides, item):
            ok = False
        if ok:
            return (W.incref(o), 0)
    if k == "array":
        isint = v.typenum not in (NPY_DOUBLE, NPY_FLOAT)
        if not isint and typenum not in (NPY_DOUBLE, NPY_FLOAT) and not flags & FORCECAST:
            W.set_error("TypeError", "Cannot cast array data from dtype('float64') to integer")
            return NULL
        if v.typenum != typenum and isint and typenum in (NPY_INT,) and ITEMSIZE[v.typenum] > 4 and \
                not flags & FORCECAST:
            W.set_error("TypeError", "Cannot cast array data from dtype('int64') to dtype('int32')")
            return NULL
        vals = list(W.read_array(v).values())
        allint = isint
    if W.may_fail():
        return _out_of_memory(W)
    a = W.new_array(dims, typenum, bool(flags & F_CONT) and not flags & C_CONT, name="converted")
    for ix, x in zip(a.indices(), vals):
        store((a.data, a.off(ix)), item, "f" if typenum == NPY_DOUBLE else "i", _convert(x, allint, typenum))
    return (W.array_obj(a), 0)


@ext("PyArray_FROM_OTF", "PyArray_FromObject")
def _unsup(W, *a):
    raise Unsupported("array conversion function")


@ext("PyArray_CheckFromAny")
def _checkfromany(W, p, descr, mind, maxd, flags, ctx):
    return _fromany(W, p, descr, mind, maxd, flags, ctx)


def _mkarray(W, nd, dims, typenum, fortran, zero):
    cc = core.CTX.concretize
    nd = cc(nd)
    if nd > 64:
        W.set_error("ValueError", "maximum supported dimension is 64")
        return NULL
    ds = []
    for i in range(nd):
        d = load((dims[0], dims[1] + 8 * i), 8, "i", "PyArray_Empty")
        if d is UNDEF:
            bad("uninitialised", "array dimension is uninitialised")
        if d.__class__ is SI:
            if core.CTX.branch(core.si_cmp("<", d, 0)):
                W.set_error("ValueError", "negative dimensions are not allowed")
                return NULL
        ds.append(d)
    known = ITEMSIZE[typenum]
    for d in ds:
        known *= d if d.__class__ is int else 1
    for i, d in enumerate(ds):
        if d.__class__ is SI:
            if known > 0 and core.CTX.branch(core.si_cmp(">", d, W.alloc_limit // known)):
                return _out_of_memory(W)
            ds[i] = d = cc(d)
            known *= d
    if any(d < 0 for d in ds):
        W.set_error("ValueError", "negative dimensions are not allowed")
        return NULL
    n = ITEMSIZE[typenum]
    for d in ds:
        n *= d
    if n > W.alloc_limit:
        return _out_of_memory(W)
    if W.may_fail():
        return _out_of_memory(W)
    a = W.new_array(ds, typenum, bool(fortran), name="output", zero=zero)
    return (W.array_obj(a), 0)


@ext("PyArray_Empty", "PyArray_Zeros")
def _empty(W, nd, dims, descr, fortran):
    return _mkarray(W, nd, dims, descr[0].py[1], core.CTX.concretize(fortran), False)


@ext("PyArray_Zeros")
def _zeros(W, nd, dims, descr, fortran):
    return _mkarray(W, nd, dims, descr[0].py[1], core.CTX.concretize(fortran), True)


@ext("PyArray_New")
def _new(W, subtype, nd, dims, typenum, strides, data, itemsize, flags, obj):
    if strides[0] is not None or data[0] is not None:
        raise Unsupported("PyArray_New with data")
    return _mkarray(W, nd, dims, core.CTX.concretize(typenum), core.CTX.concretize(flags) & F_CONT, False)


@ext("PyArray_SimpleNew")
def _simplenew(W, nd, dims, typenum):
    return _mkarray(W, nd, dims, typenum, 0, False)


@ext("PyArray_NewCopy")
def _newcopy(W, p, order):
    o = obj_of(p, "PyArray_NewCopy")
    v = o.py[1]
    if W.may_fail():
        return _out_of_memory(W)
    a = W.new_array(v.dims, v.typenum, core.CTX.concretize(order) == 1, name="copy")
    vals = W.read_array(v)
    for ix in a.indices():
        store((a.data, a.off(ix)), ITEMSIZE[v.typenum], "f" if v.typenum == NPY_DOUBLE else "i", vals[ix])
    return (W.array_obj(a), 0)


@ext("PyArray_MultiplyList", "PyArray_MultiplyIntList")
def _multlist(W, p, n):
    n = core.CTX.concretize(n)
    r = 1
    for i in range(n):
        r = ir.ibin("*", r, load((p[0], p[1] + 8 * i), 8, "i"), 64, True, "PyArray_MultiplyList")
    return r


@ext("PyArray_Return")
def _areturn(W, p):
    return p


def setup_api_table(W, mod):
    """the PyArray_API table as filled by import_array()"""
    if "PyArray_API" not in mod.globals:
        return
    slots = api_slots(NUMPY_INCLUDE)
    n = max(slots) + 1
    t = MemObj("global", 8 * n, "PyArray_API table")
    for i, nm in slots.items():
        if nm.startswith("Py") and nm.endswith("_Type"):
            store((t, 8 * i), 8, "p", (W.type("array" if nm == "PyArray_Type" else nm), 0))
        else:
            store((t, 8 * i), 8, "p", W.fnptr(None, nm))
    g = W.glob(mod, "PyArray_API")
    g.ro = False
    store((g, 0), 8, "p", (t, 0))
