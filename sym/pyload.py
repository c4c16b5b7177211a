"""Symbolic execution of the package's Python modules.

The modules are compiled from the source files of the working tree and executed by the Python interpreter with
symbolic values: float arrays are object arrays of terms (SymArray), the compiled extension modules are replaced by
the symbolic execution of their IR, numpy and math by thin wrappers.  A comparison of terms forks the path.
"""
import builtins
import importlib
import math
import operator
import os
import sys
import types

import numpy as np

from . import build, capi, core
from .core import T, SI, BT, UNDEF, Unsupported, fcall
from . import harness

nd = np.ndarray
DOUBLE = capi.NPY_DOUBLE


class SymArray(nd):
    """object array which never decays to bare elements"""

    def __array_finalize__(self, obj):
        pass

    def __getitem__(self, ix):
        r = nd.__getitem__(self.view(nd), plain(ix))
        return wrap(r)

    def __setitem__(self, ix, v):
        v = plain(v)
        if isinstance(v, (list, tuple)):
            v = plain(toarray(v))
        nd.__setitem__(self.view(nd), plain(ix), v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(len(self)))

    def __float__(self):
        raise Unsupported("conversion of a symbolic value to float")

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [plain(x) for x in inputs]
        f = ELEMENT.get(ufunc.__name__)
        if method == "__call__" and f is not None and any(isinstance(x, nd) and x.dtype == object or isinstance(x, T)
                                                          for x in ins):
            kw.pop("casting", None)
            where = kw.pop("where", True)
            if where is not True:
                raise Unsupported("where argument of a function")
            kw.pop("dtype", None)
            r = np.frompyfunc(f, len(ins), 1)(*ins)
            if ufunc.__name__ in BOOLEAN:
                r = np.asarray(r).astype(bool)
            if out is not None:
                plain(out[0])[...] = r
                return out[0]
            return wrap(r)
        if out is not None:
            kw["out"] = tuple(plain(x) for x in out)
        if kw.get("dtype") is not None and np.dtype(kw["dtype"]).kind == "f":
            kw["dtype"] = object
        ins = [np.asarray(x, object) if isinstance(x, (T, SI)) else x for x in ins]
        if ufunc.signature is not None and method == "__call__":
            ins = [np.asarray(x).astype(object) for x in ins]
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None and len(out) == 1:
            return out[0]
        return wrap(r)

    def __array_function__(self, func, types_, args, kwargs):
        f = OVERRIDE.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        return call(func, args, kwargs)

    def astype(self, dtype, *a, **kw):
        if self.dtype == object and np.dtype(dtype).kind == "f":
            return self.copy()
        if self.dtype == object and np.dtype(dtype).kind in "iu":
            def conv(x):
                if isinstance(x, float):
                    return int(x)
                if isinstance(x, T):
                    raise Unsupported("conversion of a symbolic value to an integer")
                return x
            return np.frompyfunc(conv, 1, 1)(self.view(nd)).astype(dtype)
        return wrap(nd.astype(self.view(nd), dtype, *a, **kw))

    def view(self, *a, **kw):
        r = nd.view(self, *a, **kw)
        return r

    def copy(self, order="C"):
        return wrap(nd.copy(self.view(nd), order))

    def item(self, *a):
        return nd.item(self.view(nd), *a)

    def tolist(self):
        return nd.tolist(self.view(nd))

    def fill(self, v):
        self.view(nd)[...] = plain(v)


def _method(name):
    def f(self, *a, **kw):
        kw = {k: plain(v) for k, v in kw.items()}
        if kw.get("dtype") is not None and np.dtype(kw["dtype"]).kind == "f":
            kw.pop("dtype")
        return wrap(getattr(self.view(nd), name)(*(plain(x) for x in a), **kw))
    f.__name__ = name
    setattr(SymArray, name, f)


for _n in ("sum", "prod", "dot", "max", "min", "mean", "cumsum", "reshape", "ravel", "flatten", "transpose", "squeeze",
           "swapaxes", "take", "repeat", "argsort", "argmax", "argmin", "any", "all", "diagonal", "trace", "clip",
           "nonzero", "compress", "searchsorted"):
    _method(_n)


def plain(x):
    if isinstance(x, SymArray):
        return nd.view(x, nd)
    if isinstance(x, tuple):
        return tuple(plain(y) for y in x)
    if isinstance(x, list):
        return [plain(y) for y in x]
    return x


def wrap(r):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, nd):
        return r.view(SymArray) if r.dtype == object else r
    if isinstance(r, (T, SI)) or r.__class__ is float:
        return box(r)
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r) if r.__class__ is tuple else r.__class__(*(wrap(x) for x in r))
    if r.__class__ is list:
        return [wrap(x) for x in r]
    if r is UNDEF:
        return box(r)
    return r


def box(v):
    a = np.empty((), object)
    a[()] = v
    return a.view(Scalar)


class Scalar(SymArray):
    """numpy scalar: in-place operations make new objects"""
    pass



def _inplace(n, op):
    i = getattr(nd, n)
    setattr(Scalar, n, lambda a, b: op(a, b) if a.ndim == 0 else i(a, b))


for _n in ("add", "sub", "mul", "truediv", "mod", "pow", "floordiv"):
    _inplace(f"__i{_n}__", getattr(operator, _n))


def unbox(x):
    """element of a 0-d array"""
    if isinstance(x, nd) and x.ndim == 0:
        return x.view(nd)[()] if isinstance(x, SymArray) else x[()]
    return x


def symbolic(x):
    if isinstance(x, (T, SI)) or x is UNDEF:
        return True
    if isinstance(x, nd):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(symbolic(y) for y in x)
    return False


def toarray(x, dtype=None, copy=False, ndmin=0, order=None):
    """float (and symbolic) data as SymArray, integers and booleans as they are"""
    if isinstance(x, SymArray):
        r = x
        if dtype is not None:
            k = np.dtype(dtype).kind
            if k in "iu" and x.dtype == object or k == "b":
                return x.astype(dtype)
        if copy:
            r = r.copy() if order is None else wrap(nd.copy(plain(r), order))
        elif order in ("C", "F"):
            r = wrap(np.asarray(plain(r), order=order))
    else:
        k = np.dtype(dtype).kind if dtype is not None else None
        if k == "f":
            dtype = None
            if isinstance(x, str) or isinstance(x, (list, tuple, nd)) and len(x) and np.asarray(plain(x)).dtype.kind == "U":
                a = np.asarray(plain(x))
                x = np.array([unbox(Float(v)) for v in a.ravel().tolist()] + [None], object)[:-1].reshape(a.shape).tolist()
        if k in ("i", "u", "b", "U", "S", "M", "m") and not symbolic(x):
            r = np.array(plain(x), dtype)
        elif isinstance(x, (T, SI)) or x is UNDEF:
            r = box(x)
        else:
            if symbolic(x):
                r = np.array(_elements(x), object)
            else:
                r = np.array(plain(x), dtype) if copy or not isinstance(x, nd) else np.asarray(x, dtype)
            if r.dtype.kind == "f" or (k == "f" and r.dtype.kind in "iub"):
                r = r.astype(float).astype(object)
            if r.dtype == object:
                for v in r.flat:
                    if v is not UNDEF and not isinstance(v, (T, SI, float, int)) and v is not None and \
                            not isinstance(v, str):
                        raise Unsupported(f"element {type(v)} of an array")
                r = r.view(SymArray)
        if order == "F":
            r = wrap(np.asfortranarray(plain(r)))
    while r.ndim < ndmin:
        r = r[None]
    return r


def _elements(x):
    """nested lists with the elements of the arrays inside of them"""
    if isinstance(x, nd):
        return _elements(x.tolist()) if x.ndim else unbox(x)
    if isinstance(x, (list, tuple)):
        return [_elements(y) for y in x]
    return x


def call(func, args, kwargs):
    kwargs = {k: plain(v) for k, v in kwargs.items()}
    if kwargs.get("dtype") is not None:
        try:
            if np.dtype(kwargs["dtype"]).kind == "f":
                kwargs.pop("dtype")
        except TypeError:
            pass
    r = func(*(plain(a) for a in args), **kwargs)
    if isinstance(r, nd) and r.dtype.kind == "f" and not any(symbolic(a) for a in args):
        r = r.astype(object)
    return wrap(r)


# ---- element functions

def _num(f, name, snap=False):
    def g(*xs):
        if any(x is UNDEF for x in xs):
            return UNDEF
        if any(isinstance(x, T) for x in xs):
            return fcall(name, *(core.fl(x) for x in xs))
        if any(isinstance(x, SI) for x in xs):
            return fcall(name, *(core.fl(x) for x in xs))
        try:
            r = float(f(*(float(x) for x in xs)))
            if snap and abs(r) < 4e-16 and core.CTX is not None and core.CTX.mode == "poly":
                return 0.0              # exact arithmetic: the cosine of 90 degrees
            return r
        except ValueError:
            return math.nan
    return g


def _isnan(x):
    if x is UNDEF:
        core.CTX.event("uninitialised", "test of an uninitialised element")
        return False
    return x.__class__ is float and x != x


def _fmod(a, b):
    return core.fsub(core.fl(a), core.fmul(fcall("floor", core.fdiv(core.fl(a), core.fl(b))), core.fl(b)))


def _sign(x):
    if x > 0:
        return 1.0
    return -1.0 if x < 0 else 0.0


def _round(x):
    raise Unsupported("rounding")


def _max(a, b):
    if _isnan(a) or _isnan(b):
        return math.nan
    return a if a >= b else b


def _min(a, b):
    if _isnan(a) or _isnan(b):
        return math.nan
    return a if a <= b else b


def _not(x):
    return not x


ELEMENT = {
    "sqrt": _num(math.sqrt, "sqrt"), "sin": _num(math.sin, "sin", True), "cos": _num(math.cos, "cos", True),
    "tan": _num(math.tan, "tan"), "arcsin": _num(math.asin, "asin"), "arccos": _num(math.acos, "acos"),
    "arctan": _num(math.atan, "atan"), "arctan2": _num(math.atan2, "atan2"), "floor": _num(math.floor, "floor"),
    "ceil": lambda x: core.fneg(ELEMENT["floor"](core.fneg(core.fl(x)))), "fabs": _num(abs, "fabs"),
    "absolute": lambda x: abs(x) if not isinstance(x, T) else fcall("fabs", x),
    "exp": _num(math.exp, "exp"), "log": _num(math.log, "log"), "hypot": lambda a, b: ELEMENT["sqrt"](a * a + b * b),
    "radians": lambda x: core.fmul(core.fl(x), math.pi / 180), "deg2rad": lambda x: core.fmul(core.fl(x), math.pi / 180),
    "degrees": lambda x: core.fmul(core.fl(x), 180 / math.pi), "rad2deg": lambda x: core.fmul(core.fl(x), 180 / math.pi),
    "isnan": _isnan, "isinf": lambda x: x.__class__ is float and math.isinf(x),
    "isfinite": lambda x: not (x.__class__ is float and not math.isfinite(x)),
    "remainder": _fmod, "mod": _fmod, "sign": _sign, "rint": _round,
    "floor_divide": lambda a, b: fcall("floor", core.fdiv(core.fl(a), core.fl(b))),
    "trunc": lambda x: ELEMENT["floor"](x) if x >= 0 else ELEMENT["ceil"](x),
    "maximum": _max, "minimum": _min, "fmax": _max, "fmin": _min, "square": lambda x: x * x,
    "reciprocal": lambda x: core.fdiv(1.0, core.fl(x)), "signbit": lambda x: bool(x < 0),
    "logical_not": lambda x: not x, "logical_and": lambda a, b: bool(a) and bool(b),
    "logical_or": lambda a, b: bool(a) or bool(b),
    "add": lambda a, b: _ar(core.fadd, a, b), "subtract": lambda a, b: _ar(core.fsub, a, b),
    "multiply": lambda a, b: _ar(core.fmul, a, b), "divide": lambda a, b: _ar(core.fdiv, a, b),
    "true_divide": lambda a, b: _ar(core.fdiv, a, b), "negative": lambda a: UNDEF if a is UNDEF else -a,
    "positive": lambda a: a,
    "greater": lambda a, b: _cmp("ogt", a, b), "greater_equal": lambda a, b: _cmp("oge", a, b),
    "less": lambda a, b: _cmp("olt", a, b), "less_equal": lambda a, b: _cmp("ole", a, b),
    "equal": lambda a, b: _cmp("oeq", a, b), "not_equal": lambda a, b: _cmp("une", a, b),
}
BOOLEAN = {"isnan", "isinf", "isfinite", "logical_not", "logical_and", "logical_or", "signbit", "greater",
           "greater_equal", "less", "less_equal", "equal", "not_equal"}


def _ar(f, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, (SI, int)) and isinstance(b, (SI, int)) and not isinstance(a, bool):
        return {core.fadd: lambda: a + b, core.fsub: lambda: a - b, core.fmul: lambda: a * b,
                core.fdiv: lambda: core.fdiv(core.fl(a), core.fl(b))}[f]()
    return f(core.fl(a), core.fl(b))


def _cmp(pred, a, b):
    if a is UNDEF or b is UNDEF:
        core.CTX.event("uninitialised", "comparison of an uninitialised element")
        raise core.PathAbort()
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return {"oeq": a == b, "une": a != b}[pred]
    a, b = core.fl(a), core.fl(b)
    if a is b and isinstance(a, T):
        return pred in ("oge", "ole", "oeq")
    return bool(core.fcmp(pred, a, b))


# ---- numpy

def _isfloat(dtype):
    return dtype is None or np.dtype(dtype).kind == "f" or np.dtype(dtype) == object


def _filled(value):
    def f(shape, dtype=None, order="C", **kw):
        if not _isfloat(dtype):
            return getattr(np, {0.0: "zeros", 1.0: "ones"}.get(value, "zeros"))(shape, dtype, order)
        if isinstance(shape, nd):
            shape = shape.tolist()
        a = np.empty(shape, object, order)
        for i in np.ndindex(*a.shape):
            a[i] = value
        return a.view(SymArray)
    return f


def _full(shape, fill_value, dtype=None, order="C"):
    if dtype is not None and not _isfloat(dtype) or (dtype is None and isinstance(unbox(fill_value), (bool, int, np.integer))):
        return np.full(shape, plain(fill_value), dtype, order)
    a = np.empty(shape, object, order)
    v = plain(toarray(fill_value))
    a[...] = v.astype(object) if v.dtype != object else v
    return a.view(SymArray)


def _like(f):
    def g(a, *args, dtype=None, order="K", subok=True, shape=None):
        a = toarray(a)
        if dtype is None and a.dtype != object:
            dtype = a.dtype
        return f(a.shape if shape is None else shape, *args, dtype=dtype)
    return g


def _asarray(x, dtype=None, order=None, copy=None, ndmin=0, **kw):
    return toarray(x, dtype, bool(copy), ndmin, order)


def _array(x, dtype=None, copy=True, order=None, ndmin=0, **kw):
    return toarray(x, dtype, bool(copy), ndmin, order)


def _elementwise(name):
    f = ELEMENT[name]
    u = getattr(np, name)

    def g(*args, out=None, where=True, **kw):
        if where is not True:
            raise Unsupported("where argument of a function")
        arrs = [toarray(a) for a in args[:u.nin]]
        if len(args) > u.nin:
            out = args[u.nin]
        if not any(isinstance(a, SymArray) for a in arrs):
            r = u(*arrs, **kw)
            r = r.astype(object) if isinstance(r, nd) and r.dtype.kind == "f" else r
            r = float(r) if isinstance(r, np.floating) else r
        else:
            r = np.frompyfunc(f, u.nin, 1)(*(plain(a) for a in arrs))
            if name in BOOLEAN:
                r = np.asarray(r).astype(bool)
                r = r if r.ndim else r[()]
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            plain(out)[...] = r
            return out
        return wrap(r)
    g.__name__ = name
    return g


def _nditer(op, flags=None, op_flags=None, **kw):
    ops = list(op) if isinstance(op, (list, tuple)) else [op]
    single = not isinstance(op, (list, tuple))
    ops = [toarray(o) if o is not None else None for o in ops]
    flags = list(flags or [])
    if any(isinstance(o, SymArray) for o in ops):
        flags.append("refs_ok")
    it = np.nditer([plain(o) for o in ops], flags, op_flags if op_flags is not None else None, **kw)
    return _Iter(it, single)


class _Iter:
    def __init__(self, it, single):
        self._it, self._single = it, single

    def __iter__(self):
        for x in self._it:
            r = x if isinstance(x, tuple) else (x,)
            r = tuple(wrap(np.asarray(y)) for y in r)
            yield r[0] if self._single else r

    def __enter__(self):
        self._it.__enter__()
        return self

    def __exit__(self, *a):
        return self._it.__exit__(*a)

    def __getattr__(self, n):
        r = getattr(self._it, n)
        return wrap(r) if isinstance(r, (nd, tuple)) else r


def _as_strided(x, shape=None, strides=None, subok=False, writeable=True, **kw):
    """views are only made within the memory of the array, anything else is an error of the caller"""
    x = toarray(x)
    shape = x.shape if shape is None else tuple(int(s) for s in shape)
    strides = x.strides if strides is None else tuple(int(s) for s in strides)
    p = plain(x)
    if len(shape) != len(strides):
        raise ValueError("mismatch in length of strides and shape")
    own = p
    while isinstance(own.base, nd):
        own = own.base
    lo = own.__array_interface__["data"][0]
    hi = lo + own.size * own.itemsize
    if not (own.flags.c_contiguous or own.flags.f_contiguous):
        lo, hi = np.lib.array_utils.byte_bounds(own)
    at = p.__array_interface__["data"][0]
    if 0 not in shape:
        a = at + sum(min(0, (n - 1) * s) for n, s in zip(shape, strides))
        b = at + sum(max(0, (n - 1) * s) for n, s in zip(shape, strides)) + p.itemsize
        if a < lo or b > hi or any(s % p.itemsize for n, s in zip(shape, strides) if n > 1):
            core.CTX.event("out-of-bounds", f"view of shape {shape} and strides {strides} exceeds an array of shape "
                                            f"{x.shape}")
            raise core.PathAbort()
    return wrap(np.lib.stride_tricks.as_strided(p, shape, strides))


def _where(cond, *ab):
    if not ab:
        return np.where(plain(toarray(cond)))
    return wrap(np.where(plain(toarray(cond)).astype(bool), *(plain(_obj(x)) for x in ab)))


def _obj(x):
    a = toarray(x)
    return a if a.dtype == object else a.astype(object)


def _isclose(*a, **kw):
    raise Unsupported("isclose")


def _norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm")
    x = toarray(x)
    return NP.sqrt(wrap((plain(x) * plain(x)).sum(axis=axis, keepdims=keepdims)))


def _einsum(*a, **kw):
    kw.pop("optimize", None)
    return wrap(np.einsum(*(x if isinstance(x, str) else plain(_obj(x)) for x in a), **kw))


def _matmul(a, b, **kw):
    return wrap(np.matmul(plain(_obj(a)), plain(_obj(b))))


def _array_equal(a, b, equal_nan=False):
    a, b = toarray(a), toarray(b)
    return a.shape == b.shape and bool(np.all([_cmp("oeq", x, y) for x, y in zip(plain(a).flat, plain(b).flat)]))


def _arange(*a, dtype=None, **kw):
    r = np.arange(*(plain(unbox(x)) for x in a), dtype=dtype, **kw)
    return wrap(r.astype(object)) if r.dtype.kind == "f" else r


def _linspace(*a, **kw):
    if any(symbolic(x) for x in a):
        raise Unsupported("linspace")
    return wrap(np.linspace(*a, **kw).astype(object))


def _ravel_gen(name):
    f = getattr(np, name)

    def g(*a, **kw):
        a = [_deep(x) for x in a]
        return call(f, a, kw)
    return g


def _deep(x):
    """float members of (lists of) arrays as object arrays"""
    if isinstance(x, (list, tuple)) and any(isinstance(y, (nd, list, tuple, T)) for y in x):
        return x.__class__(_deep(y) for y in x) if x.__class__ in (list, tuple) else x
    if isinstance(x, (nd, T, list, tuple)) and not isinstance(x, SymArray):
        return toarray(x)
    return x


class _Module(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        v = getattr(self._real, n)
        if isinstance(v, types.ModuleType):
            return _Module(v.__name__, v, SUB.get(v.__name__, {}))
        if isinstance(v, type) or not callable(v):
            return v
        if n in ELEMENT:
            return _elementwise(n)
        return _ravel_gen_of(v)


def _ravel_gen_of(f):
    def g(*a, **kw):
        return call(f, [_deep(x) for x in a], {k: _deep(v) for k, v in kw.items()})
    g.__name__ = getattr(f, "__name__", "function")
    return g


OVERRIDE = {
    "empty": _filled(UNDEF), "zeros": _filled(0.0), "ones": _filled(1.0), "full": _full, "asarray": _asarray,
    "array": _array, "asanyarray": _asarray, "ascontiguousarray": lambda x, dtype=None: toarray(x, dtype, ndmin=1, order="C"),
    "asfortranarray": lambda x, dtype=None: toarray(x, dtype, order="F"),
    "empty_like": _like(_filled(UNDEF)), "zeros_like": _like(_filled(0.0)), "ones_like": _like(_filled(1.0)),
    "full_like": _like(lambda s, v, dtype=None: _full(s, v, dtype)), "nditer": _nditer, "where": _where,
    "isclose": _isclose, "allclose": _isclose, "einsum": _einsum, "matmul": _matmul, "array_equal": _array_equal,
    "arange": _arange, "linspace": _linspace,
    "copy": lambda a, order="K", subok=False: toarray(a, copy=True), "as_strided": _as_strided,
    "inf": math.inf, "nan": math.nan, "pi": math.pi, "e": math.e,
    "float64": lambda x=0.0: unbox(toarray(x, float)), "ndarray": nd,
    "isscalar": lambda x: isinstance(x, (T, SI)) or np.isscalar(x),
}
for _n in ELEMENT:
    if hasattr(np, _n):
        OVERRIDE.setdefault(_n, _elementwise(_n))
OVERRIDE["abs"] = OVERRIDE["absolute"]
SUB = {"numpy.linalg": {"norm": _norm}, "numpy.lib.stride_tricks": {"as_strided": _as_strided}}
NP = _Module("numpy", np, OVERRIDE)


# ---- math

def _math1(name, fn=None):
    f = ELEMENT[name]

    def g(*a):
        r = f(*(unbox(x) for x in a))
        return r
    return g


def _mfloor(x):
    x = unbox(x)
    if isinstance(x, (T, SI)):
        return _toint(fcall("floor", core.fl(x)))
    return math.floor(x)


def _toint(x):
    raise Unsupported("conversion of a symbolic value to an integer")


MATH = _Module("math", math, {
    **{m: _math1(n) for m, n in dict(sin="sin", cos="cos", tan="tan", sqrt="sqrt", asin="arcsin", acos="arccos",
                                     atan="arctan", atan2="arctan2", fabs="fabs", radians="radians",
                                     degrees="degrees", hypot="hypot", isnan="isnan", isinf="isinf",
                                     isfinite="isfinite", exp="exp", log="log").items()},
    "floor": _mfloor,
})


# ---- builtins

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, T))

    def __subclasscheck__(cls, x):
        return issubclass(x, (float, T))

    def __call__(cls, x=0.0):
        if isinstance(x, str):
            t = TOKENS.get(x.strip())
            return t if t is not None else float(x)
        x = unbox(x)
        if isinstance(x, (T, SI)):
            return core.fl(x)
        if x is UNDEF:
            core.CTX.event("uninitialised", "conversion of an uninitialised element")
            raise core.PathAbort()
        return float(x)


class Float(metaclass=_FloatMeta):
    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, x):
        return issubclass(x, int)

    def __call__(cls, x=0, *a):
        x = unbox(x)
        if isinstance(x, T):
            _toint(x)
        if isinstance(x, str) and x.strip() in TOKENS:
            raise ValueError(f"invalid literal for int(): {x!r}")
        return int(x, *a)


class Int(metaclass=_IntMeta):
    pass


TOKENS = {}      # text -> term (numbers of input files)


def token(t, text):
    TOKENS[text] = t
    return text


def _sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


def _abs(x):
    return abs(x)


# ---- compiled modules

def _arg(W, x):
    if isinstance(x, SymArray) or isinstance(x, nd):
        return _toworld(W, x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (tuple, list)):
        return x.__class__(_arg(W, y) for y in x) if x.__class__ in (tuple, list) else tuple(_arg(W, y) for y in x)
    return x


TYPES = {"i4": capi.NPY_INT, "i8": capi.NPY_LONG, "b1": capi.NPY_BOOL}


def _toworld(W, x):
    p = plain(x)
    if p.dtype == object:
        t, item = DOUBLE, 8
    elif p.dtype.kind == "f":
        t, item = DOUBLE, 8
    else:
        t = TYPES.get(p.dtype.str[1:])
        if t is None:
            p = p.astype("i8")
            t = capi.NPY_LONG
        item = capi.ITEMSIZE[t]
    st = p.strides
    if p.dtype.itemsize != item:
        st = tuple(s // p.dtype.itemsize * item for s in st)
    # strides of axes of one element are free: keep the memory small
    st = tuple(s if n > 1 else item for n, s in zip(p.shape, st))
    off = -sum(min(0, (n - 1) * s) for n, s in zip(p.shape, st)) if 0 not in p.shape else 0

    def get(ix):
        v = p[ix]
        if isinstance(v, np.generic):
            v = v.item()
        if v.__class__ is int and t == DOUBLE:
            v = float(v)
        if isinstance(v, SI) and t == DOUBLE:
            v = core.sitofp(v)
        if v.__class__ is bool and t == capi.NPY_BOOL:
            v = int(v)
        if v is None:
            v = math.nan
        return v
    a = W.make_array(get, p.shape, t, st, off)
    W.alias.append((a, x))
    return a


def _fromworld(W, r):
    if isinstance(r, tuple):
        return tuple(_fromworld(W, x) for x in r)
    if isinstance(r, capi.Array):
        for a, x in W.alias:
            if a is r:
                return x
        vals = W.read_array(r)
        if r.typenum == DOUBLE:
            o = np.empty(r.dims, object)
        elif any(isinstance(v, (SI, BT)) or v is UNDEF for v in vals.values()):
            o = np.empty(r.dims, object)
        else:
            o = np.empty(r.dims, {capi.NPY_INT: "i4", capi.NPY_LONG: "i8", capi.NPY_BOOL: "b1"}[r.typenum])
        for ix, v in vals.items():
            o[ix] = v
        return wrap(o)
    if isinstance(r, (float, T)):
        return r
    return r


class Compiled(types.ModuleType):
    """proxy of an extension module: its functions are executed symbolically"""

    def __init__(self, pkg, stem, name):
        super().__init__(name)
        self.__dict__["_pkg"], self.__dict__["_stem"] = pkg, stem
        self.__dict__.update(constants(stem))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        W = self._pkg.world(self._stem)
        m = build.module(self._stem)
        if n not in m.methods(W):
            raise AttributeError(n)

        def f(*args, **kw):
            W = self._pkg.world(self._stem)
            W.alias = []
            try:
                r = W.call(m, n, *(_arg(W, a) for a in args), **{k: _arg(W, a) for k, a in kw.items()})
            except capi.PyExc as e:
                raise getattr(builtins, e.type, RuntimeError)(e.msg) from None
            for o in W.modified_inputs():
                core.CTX.event("modified-input", f"an input array of {n} was modified")
                break
            return _fromworld(W, r)
        f.__name__ = n
        self.__dict__[n] = f
        return f


_const = {}


def constants(stem):
    c = _const.get(stem)
    if c is None:
        r = harness.server().exec(
            f"import importlib\nm = importlib.import_module('eoxmagmod.{build.MODULES[stem]}')\n"
            "result = {k: v for k, v in vars(m).items() if type(v) in (int, float, str) and not k.startswith('__')}", {})
        if r[0] != "ok":
            if stem != "pyqd":
                raise RuntimeError(f"cannot import the built module {stem}: {r}")
            r = ("ok", {"QDIPOLE_VERSION": "?"})
        c = _const[stem] = r[1]
    return c


# ---- loading

class Package:
    """one private instance of the package, loaded from the source of the working tree"""

    def __init__(self, stubs=None):
        self.root = os.path.join(build.REPO, build.EXT_DIR)
        self.mods = {}
        self.stubs = stubs or {}
        self.worlds = {}
        self.builtins = dict(vars(builtins))
        self.builtins.update(__import__=self._import, float=Float, int=Int)

    def world(self, stem):
        W = self.worlds.get(stem)
        if W is None:
            W = self.worlds[stem] = build.world(stem)
            if stem == "pyqd":
                from . import qd
                qd.install(W)
            W.alias = []
        return W

    def fresh(self):
        self.worlds = {}

    def module(self, name):
        """module of the package by its full name"""
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in self.stubs:
            m = self.mods[name] = self.stubs[name]
            return m
        parts = name.split(".")
        tail = parts[-1]
        for stem, mn in build.MODULES.items():
            if mn == tail and len(parts) == 2:
                m = self.mods[name] = Compiled(self, stem, name)
                return self._attach(name, m)
        path = os.path.join(self.root, *parts[1:])
        if os.path.isdir(path):
            path, pk = os.path.join(path, "__init__.py"), True
        else:
            path, pk = path + ".py", False
        if not os.path.exists(path):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        if len(parts) > 1:
            self.module(".".join(parts[:-1]))
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__dict__.update(__builtins__=self.builtins, __file__=path, __package__=name if pk else name.rpartition(".")[0])
        if pk:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        try:
            with open(path, encoding="utf-8") as f:
                exec(compile(f.read(), path, "exec"), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        return self._attach(name, m)

    def _attach(self, name, m):
        p, _, t = name.rpartition(".")
        if p in self.mods:
            setattr(self.mods[p], t, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + name if name else "")
        else:
            full = name
        top = full.split(".")[0]
        if top == "eoxmagmod":
            m = self.module(full)
            if not fromlist:
                return self.module("eoxmagmod") if not level else m
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and hasattr(m, "__path__"):
                    try:
                        setattr(m, f, self.module(full + "." + f))
                    except ModuleNotFoundError:
                        pass
            return m
        if full in self.stubs:
            return self.stubs[full] if fromlist or "." not in full else self.stubs[top]
        if full == "numpy" or full.startswith("numpy."):
            r = NP
            if fromlist:
                for p in full.split(".")[1:]:
                    r = getattr(r, p)
            return r
        if full == "math":
            return MATH
        if top == "spacepy":
            return SPACEPY if not fromlist else _sub(SPACEPY, full)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def get(self, path):
        """object by its dotted path below the package"""
        parts = path.split(".")
        for i in range(len(parts), -1, -1):
            try:
                o = self.module(".".join(["eoxmagmod"] + parts[:i]))
            except ModuleNotFoundError:
                continue
            for p in parts[i:]:
                o = getattr(o, p)
            return o
        raise AttributeError(path)


def _sub(m, full):
    for p in full.split(".")[1:]:
        m = getattr(m, p)
    return m


CDF_TYPES = {"epoch": 31, "epoch16": 32, "tt2000": 33, "double": 45, "int": 4}


class _Var:
    """variable of a product file: values as stored"""

    def __init__(self, v, typ, raw):
        self.v, self.t, self.raw = v, typ, raw

    def __getitem__(self, ix):
        if not self.raw and self.t in (31, 32, 33):
            raise Unsupported("conversion of CDF times")
        v = toarray(self.v, copy=True)
        return v if ix is Ellipsis else v[ix]

    def __len__(self):
        return len(self.v)

    @property
    def shape(self):
        return toarray(self.v).shape

    def type(self):
        return self.t

    def rv(self):
        return True


class _CDF:
    """product file: FILES[path] is {variable: (values, type)}"""
    FILES = {}

    def __init__(self, path, *a, **kw):
        if path not in self.FILES:
            raise SPACEPY.pycdf.CDFError(f"NO_SUCH_CDF {path}")
        self.f = self.FILES[path]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __contains__(self, n):
        return n in self.f

    def __iter__(self):
        return iter(self.f)

    def keys(self):
        return self.f.keys()

    def __getitem__(self, n):
        v, t = self.f[n]
        return _Var(v, CDF_TYPES[t], False)

    def raw_var(self, n):
        v, t = self.f[n]
        return _Var(v, CDF_TYPES[t], True)

    def close(self):
        pass


SPACEPY = types.ModuleType("spacepy")
SPACEPY.pycdf = types.ModuleType("spacepy.pycdf")
SPACEPY.pycdf.CDF = _CDF
SPACEPY.pycdf.const = types.SimpleNamespace(CDF_EPOCH=types.SimpleNamespace(value=31),
                                           CDF_EPOCH16=types.SimpleNamespace(value=32),
                                           CDF_TIME_TT2000=types.SimpleNamespace(value=33),
                                           CDF_DOUBLE=types.SimpleNamespace(value=45))
SPACEPY.pycdf.CDFError = type("CDFError", (Exception,), {})


def run(code, pkg, vars_):
    """execute a harness program with the symbolic package; returns its variable `result`"""
    ns = {"__builtins__": pkg.builtins, "__name__": "harness", "np": NP, "math": MATH}
    ns.update(vars_)
    exec(compile(code, "<harness>", "exec"), ns)
    return ns.get("result")


# ---- record of the executed functions

_mon = False


def monitor():
    """note the functions of the package which are executed"""
    global _mon
    if _mon:
        return
    _mon = True
    M = sys.monitoring
    root = os.path.join(build.REPO, build.EXT_DIR) + os.sep
    try:
        M.use_tool_id(3, "verif")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(root):
            harness.PYFUNCS.add(code.co_filename[len(root):] + ":" + code.co_qualname)
        return M.DISABLE
    M.register_callback(3, M.events.PY_START, start)
    M.set_events(3, M.events.PY_START)
