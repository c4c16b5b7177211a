"""Harness programs: Python code using the package, executed symbolically (package source and IR of the extension
modules) and, for witnesses and counterexamples, on the real build.

A program sets `result` to a list of (label, value, expected value[, scale]).
"""
import math
import os

import numpy as np

from . import core, pyload, harness, build, qd
from .core import T, SI, BT, UNDEF, Unsupported
from .poly import decide
from .harness import server, num, same

PRELUDE = """
opaque = lambda *a: None
named = lambda *a: None
known_root = lambda *a: None
exact = lambda *a: None
assume = lambda b: None
lit = lambda x: repr(float(x))
_files = []
def save(text):
    import os, time
    # a new name each time: the code under test may remember what it has read from a file
    _files.append(os.path.join(os.getcwd(), f"real_{os.getpid()}_{time.monotonic_ns()}.txt"))
    with open(_files[-1], "w", encoding="ascii", newline="") as f:
        f.write(text)
    return _files[-1]
def product(**variables):
    import os
    from spacepy import pycdf
    _files.append(os.path.join(os.getcwd(), f"real_{os.getpid()}_{len(_files)}.cdf"))
    if os.path.exists(_files[-1]):
        os.unlink(_files[-1])
    f = pycdf.CDF(_files[-1], "")
    for n, (v, t) in variables.items():
        a = np.array(v)
        f.new(n, type={"epoch": pycdf.const.CDF_EPOCH, "int": pycdf.const.CDF_INT4, "double": pycdf.const.CDF_DOUBLE,
                       "tt2000": pycdf.const.CDF_TIME_TT2000}[t], dims=a.shape[1:], recVary=True)
        f.raw_var(n)[...] = a
    f.close()
    return _files[-1]
def turn(x):
    x = np.asarray(x)
    return x - 360.0 * np.round(x / 360.0)
""" + qd.REAL
REAL = """
def _flat(x):
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.ndarray) or np.isscalar(x) or isinstance(x, (np.generic,)):
        a = np.asarray(x)
        return ("a", a.shape, a.ravel().tolist())
    if isinstance(x, (list, tuple)):
        return ("l", [_flat(y) for y in x])
    return ("o", repr(x))
try:
    exec(compile(code, "<harness>", "exec"), ns)
    result = ("ok", [(r[0], _flat(r[1]), _flat(r[2]), *(float(s) for s in r[3:])) for r in ns["result"]])
except Exception as e:
    import traceback
    result = ("raised", type(e).__name__, str(e), traceback.format_exc()[-600:])
"""

PKG = None


def package():
    global PKG
    if PKG is None:
        prev, core.CTX = core.CTX, None
        PKG = pyload.Package()
        try:
            PKG.module("eoxmagmod")
        finally:
            core.CTX = prev
        pyload.monitor()
    return PKG


class Raised:
    def __init__(self, e):
        self.kind, self.text = type(e).__name__, str(e)
        self.e = e


def value(v, env, low=None):
    if isinstance(v, (list, tuple)):
        return v.__class__(value(x, env, low) for x in v)
    if isinstance(v, dict):
        return {k: value(x, env, low) for k, x in v.items()}
    return num(v, env, low)


def flat(x):
    """(kind, shape, elements) of a result"""
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (list, tuple)) and not isinstance(x, np.ndarray):
        if all(isinstance(y, (T, SI, int, float)) and not isinstance(y, bool) for y in x) and False:
            return None
        return ("l", [flat(y) for y in x])
    if isinstance(x, (T, SI, BT)) or isinstance(x, (int, float, np.generic, np.ndarray)) or x is UNDEF:
        if isinstance(x, np.ndarray):
            p = pyload.plain(x)
            return ("a", p.shape, [v.item() if isinstance(v, np.generic) else v for v in p.ravel().tolist()])
        if isinstance(x, np.generic):
            x = x.item()
        return ("a", (), [x])
    return ("o", repr(x))


def merge(x):
    """nested lists of scalars as arrays"""
    if isinstance(x, tuple) and x and x[0] == "l":
        ys = [merge(y) for y in x[1]]
        if ys and all(isinstance(y, tuple) and y and y[0] == "a" for y in ys) and len({y[1] for y in ys}) == 1:
            return ("a", (len(ys),) + tuple(ys[0][1]), [v for y in ys for v in y[2]])
        return ("l", ys)
    if isinstance(x, tuple) and x and x[0] == "a":
        return ("a", tuple(x[1]), x[2])
    return x


def skeleton(a, b, where, out):
    """element pairs of two results; returns a description of a structural difference"""
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "l":
        if len(a[1]) != len(b[1]):
            return f"{where}: {len(a[1])} items instead of {len(b[1])}"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = skeleton(x, y, f"{where}[{i}]", out)
            if d:
                return d
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "a":
        if a[1] != b[1]:
            return f"{where}: shape {a[1]} instead of {b[1]}"
        out += list(zip(a[2], b[2]))
        return None
    if a != b:
        return f"{where}: {a} instead of {b}"[:300]
    return None


def nonfinite(x):
    return x.__class__ is float and not math.isfinite(x)


def program(k, name, code, inputs, mode="poly", rtol=1e-9, setup="", witnesses=1, tries=60, tol=1e-9, expect=None,
            max_paths=4000, guides=None, timeout_ms=10000, every=1, ranges=None, final=None,
            compare=True):
    """decide the program for all values of the inputs

    inputs(c) -> variables of the program (nested lists of symbols, numbers, strings)
    expect: exception types which are an acceptable outcome of a path (name, function of ctx or None)"""
    pk = package()
    code = PRELUDE + setup + code
    comp = compile(code, "<harness>", "exec")

    def fn(c):
        pk.fresh()
        if hasattr(pyload, "_CDF"):
            pyload._CDF.FILES = {}
        pyload.TOKENS.clear()
        v = c._vars = inputs(c)
        ns = {"__builtins__": pk.builtins, "__name__": "harness", "np": pyload.NP, "math": pyload.MATH}
        ns.update(v)
        src = code.replace(PRELUDE, "", 1)
        ns.update(helpers(c))
        try:
            exec(compile(src, "<harness>", "exec"), ns)
            r = ns.get("result")
        except (Unsupported, core.Inconclusive, core.Budget):
            raise
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            import traceback
            r = Raised(e)
            r.tb = traceback.format_exc()[-900:]
            if os.environ.get("VERIF_TB"): print(traceback.format_exc())
        return v, r
    state = {"n": 0}

    def event(p):
        k.reached()
        replay(k, p.ctx, name, str(p.ctx.events[0]), p.ctx._vars, code, rtol, tries, ranges)

    for p in k.explore(name, fn, mode, max_paths=max_paths, on_event=event, guides=guides, timeout_ms=timeout_ms):
        c = p.ctx
        v, r = p.result
        if c.events:
            continue
        if isinstance(r, Raised):
            k.reached()
            replay(k, c, name, f"raises {r.kind}: {r.text}", v, code, rtol, tries, ranges, detail=r.tb)
            continue
        bad = None
        n = 0
        for item in r:
            label, a, b = item[:3]
            el = []
            d = skeleton(merge(flat(a)), merge(flat(b)), str(label), el)
            if d:
                k.reached()
                bad = bad or d
                continue
            pairs = []
            sc = max([abs(y) for _, y in el if y.__class__ is float and math.isfinite(y)], default=0.0)
            if len(item) > 3 and isinstance(item[3], (int, float)):
                sc = max(sc, item[3])
            for x, y in el:
                if x.__class__ in (int, float) and y.__class__ in (int, float) and abs(x - y) <= tol * sc:
                    n += 1
                    continue
                n += 1
                if x is UNDEF or y is UNDEF:
                    bad = bad or f"{label}: uninitialised element"
                elif x.__class__ in (str, bool, type(None)) or y.__class__ in (str, bool, type(None)) or \
                        nonfinite(x) or nonfinite(y):
                    if not (x is y or (x.__class__ == y.__class__ and x == y) or
                            (nonfinite(x) and nonfinite(y) and x != x and y != y)):
                        bad = bad or f"{label}: {x!r} instead of {y!r}"[:300]
                elif x is not y:
                    pairs.append((x, y))
            k.reached(max(len(el), 1))
            if bad:
                continue
            if pairs:
                z = differ(c, pairs, tol, sc, item[3] if len(item) > 3 else 0.0)
                if z is not None:
                    bad = f"{label}: {z}"
                    continue
            k.discharged(max(len(el), 1))
        if bad:
            if replay(k, c, name, bad, v, code, rtol, tries, ranges):
                return
            continue
        state["n"] += 1
        if k.cur["witnesses"] < witnesses or (every and state["n"] % (every * 25) == 0):
            witness(k, c, name, v, code, r, rtol, tries, ranges, compare)
        if final:
            final(p)


def helpers(c):
    def opaque(*a):
        if c.mode == "poly":
            R = c.low.ring
            for x in a:
                for t in pyload.plain(pyload.toarray(x)).ravel().tolist():
                    if isinstance(t, T):
                        R.opaque_angle(R(t))

    def named(*a):
        if c.mode == "poly":
            for x in a:
                for t in pyload.plain(pyload.toarray(x)).ravel().tolist():
                    if isinstance(t, T):
                        c.low.ring.name(t)

    def known_root(*a):
        if c.mode == "poly":
            R = c.low.ring
            for x in a:
                for t in pyload.plain(pyload.toarray(x)).ravel().tolist():
                    if isinstance(t, T):
                        R.known_root(R(t))
    def turn(x):
        """angle in degrees without whole turns (congruent to the returned polynomial)"""
        x = pyload.plain(pyload.toarray(x)).ravel().tolist()[0]
        if c.mode == "poly" and isinstance(x, T):
            R = c.low.ring
            from .poly import D, clean, const, add
            p = clean(R.turns(R(x), D(360)))
            mid = sum(R.interval(p)) / 720.0
            p = add(p, const(-360 * round(mid) if p and mid - mid == 0.0 else 0))
            lo, hi = R.interval(p)
            t = core.fsub(x, core.fmul(core.fcall("round", core.fdiv(x, 360.0)), 360.0))
            if isinstance(t, T):
                R.memo[t.id] = p
                R.tb[t.id] = lo, hi
            return t
        return x - 360.0 * round(x / 360.0)
    files = []

    def lit(x):
        """number as text; the text of a symbol is a unique number literal which is read back as the symbol"""
        x = pyload.unbox(x)
        if isinstance(x, T):
            return pyload.token(x, f"1.{len(pyload.TOKENS):06d}57e+77")
        return repr(float(x))

    def save(text):
        """path of a text file"""
        files.append(os.path.join(build.scratch(), f"input_{os.getpid()}_{len(files)}.txt"))
        with open(files[-1], "w", encoding="ascii", newline="") as f:
            f.write(text)
        return files[-1]
    def product(**variables):
        """path of a CDF product: its variables with their values and type"""
        path = os.path.join(build.scratch(), f"product_{len(pyload._CDF.FILES)}.cdf")
        pyload._CDF.FILES[path] = variables
        return path
    def assume(b):
        """restrict the inputs"""
        b = pyload.unbox(b)
        c.assume(bool(b) if isinstance(b, np.bool_) else b)
    from . import qd
    return {**qd.helpers(), "assume": assume, "product": product, "lit": lit, "save": save, "opaque": opaque, "named": named, "turn": turn, "known_root": known_root, "exact": lambda *a: None}


def differ(c, pairs, tol, sc=0.0, abs_=0.0):
    """None if all pairs are equal for all values on the path, otherwise a description"""
    if c.mode == "poly":
        z = decide(c, pairs, tol, sc)
        if z is None:
            return None
        return f"element {z[0]} of {len(pairs)} differs by {c.low.ring.show(z[1], 4)}"
    import z3

    def low(x):
        if isinstance(x, SI):
            return z3.ToReal(x.e)
        if isinstance(x, (bool, int)):
            x = float(x)
        return c.low(x)
    todo = []
    for i, (a, b) in enumerate(pairs):
        if not isinstance(a, (T, SI)) and not isinstance(b, (T, SI)):
            if not same(a, b, 1e-12):
                return f"element {i} is {a!r} instead of {b!r}"
            continue
        if abs_ and c.mode == "real":
            d, t = low(a) - low(b), core._rv(tol * abs_)
            e = z3.simplify(z3.Or(d > t, d < -t))
        else:
            e = z3.simplify(low(a) != low(b))
        if z3.is_false(e):
            continue
        todo.append((i, e))
    if not todo:
        return None
    if c.check(z3.Or([e for _, e in todo])) == "unsat":
        return None
    for i, e in todo:
        r = c.check(e)
        if r != "unsat":
            return f"element {i} {'differs' if r == 'sat' else 'is not decided'}"
    return None


def real_run(code, v, env, low):
    ns = {"code": code, "v": value(v, env, low)}
    return server().request(("exec", "ns = {'np': np, 'math': __import__('math'), '__name__': 'harness'}\nns.update(v)\n" + REAL, ns),
                            120)


def judge(res, rtol):
    """description of the deviation shown by the real build, or None"""
    if res[0] != "ok":
        return f"the process ended: {res}"[:600]
    res = res[1]
    if res[0] == "raised":
        return f"raises {res[1]}: {res[2]}; {res[3]}"[:900]
    for item in res[1]:
        label, a, b = item[:3]
        sc = item[3] if len(item) > 3 else 0.0
        el = []
        d = skeleton(merge(a), merge(b), str(label), el)
        if d:
            return d
        numbers = [abs(y) for x, y in el if isinstance(y, (int, float)) and math.isfinite(y)]
        m = max(numbers, default=0.0)
        for i, (x, y) in enumerate(el):
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                if not same(x, y, 0.0, rtol * max(m, sc)):
                    return f"{label}: element {i} is {x!r} instead of {y!r}"
            elif x != y:
                return f"{label}: element {i} is {x!r} instead of {y!r}"
    return None


def replay(k, c, name, text, v, code, rtol, tries, ranges, detail=None):
    """show the deviation on the real build"""
    any_ = False
    for env in k.envs(c, ranges, tries=tries, want=6):
        any_ = True
        bad = judge(real_run(code, v, env, c.low), rtol)
        if bad:
            k.violation(f"{name}: {text}", {"harness": name, "inputs": value(v, env, c.low), "difference": bad,
                                            "program": code})
            return True
    k.undecided(f"{name}: {text}" + ("" if any_ else " (no witness found)"))
    return False


def witness(k, c, name, v, code, r, rtol, tries, ranges, compare=True):
    env = next(iter(k.envs(c, ranges, tries=tries)), None)
    if env is None:
        k.validation_skipped += 1
        return
    res = real_run(code, v, env, c.low)
    bad = judge(res, rtol)
    if bad:
        k.violation(f"{name}: on a witness", {"harness": name, "inputs": value(v, env, c.low), "difference": bad,
                                              "program": code})
        return
    # the symbolic results evaluated at the witness agree with the real ones
    for item, real in zip(r, res[1][1]) if compare else ():
        el = []
        d = skeleton(merge(flat(item[1])), merge(real[1]), str(item[0]), el)
        sc = max([abs(y) for x, y in el if isinstance(y, (int, float)) and math.isfinite(y)], default=0.0)
        sc = max(sc, real[3] if len(real) > 3 else 0.0)
        if not d:
            for x, y in el:
                x = num(x, env, c.low)
                if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    if not same(x, y, 1e-7, 1e-7 * sc):
                        d = f"symbolic {x!r} real {y!r}"
                elif x != y:
                    d = f"symbolic {x!r} real {y!r}"
        if d:
            raise harness.TranslatorMismatch(f"{name}: {item[0]}: {d}; {value(v, env, c.low)}"[:900])
    k.validated += 1
    k.cur["witnesses"] += 1
    if len(k.samples) < 6:
        k.samples.append({"harness": name, "witness": {n: env[n] for n in sorted(env)[:12]},
                          "agrees_with_real_build": True})
