"""Replay of memory errors found on a symbolic path: the same call on instrumented builds of the real code."""
from .harness import server

CRASH = {"out-of-bounds", "null-dereference", "use-after-free", "double-release", "double-free", "bad-free",
         "stack-overflow", "wild-access", "wild-call", "bad-allocation", "misaligned", "uninitialised", "format"}

CALL = """
import importlib, sys, gc
m = importlib.import_module("eoxmagmod." + mod)
f = getattr(m, fn)
def once():
    try:
        return f(*args, **kw)
    except Exception as e:
        return e
"""

POISON = CALL + """
import numpy as np
def poison(fill):
    for n in list(range(1, 1100)):
        blocks = [np.full(n, fill, dtype="u1") for _ in range(8)]
        del blocks
def image(r):
    if isinstance(r, tuple):
        return [image(x) for x in r]
    if isinstance(r, Exception):
        return [type(r).__name__]
    a = np.asarray(r)
    return [a.shape, a.tobytes()]
out = []
for fill in (0, 0, 77, 77):
    poison(fill)
    out.append(image(once()))
result = out
"""

LEAK = CALL + """
import ctypes
class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
libc = ctypes.CDLL(None)
libc.mallinfo2.restype = Info
def used():
    gc.collect()
    i = libc.mallinfo2()
    return i.uordblks + i.hblkhd
def flat(x):
    if isinstance(x, (tuple, list)):
        for y in x:
            yield from flat(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from flat(y)
    if hasattr(x, "shape") or isinstance(x, (tuple, list)):
        yield x
objs = list(flat(args)) + list(flat(kw))
N = 1500
for i in range(200):
    r = once()
del r
c0 = [sys.getrefcount(o) for o in objs]
u0 = used()
for i in range(N):
    r = once()
del r
u1 = used()
c1 = [sys.getrefcount(o) for o in objs]
result = [(u1 - u0) / N, [b - a for a, b in zip(c0, c1)]]
"""

FAIL = CALL + """
import ctypes
lib = ctypes.CDLL(None)
lib.fail_after.argtypes = [ctypes.c_long]
lib.allocations.restype = ctypes.c_long
class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
lib.mallinfo2.restype = Info
def used():
    gc.collect()
    i = lib.mallinfo2()
    return i.uordblks + i.hblkhd
import numpy as np
def refs(x):
    if isinstance(x, (tuple, list)):
        for y in x:
            yield from refs(y)
    if hasattr(x, "shape") or isinstance(x, (tuple, list)):
        yield x
objs = list(refs(args))
def failing(n):
    kind = None
    lib.fail_after(n)
    try:
        f(*args, **kw)
        bad = None
    except BaseException as e:
        bad = type(e)
    seen = lib.allocations()
    return seen, bad
for i in range(50):
    once()
result = None
n = 0
while n < 60 and result is None:
    n += 1
    for i in range(20):
        failing(n)
    c0 = [sys.getrefcount(o) for o in objs]
    u0 = used()
    for i in range(400):
        seen, bad = failing(n)
    u1 = used()
    c1 = [sys.getrefcount(o) for o in objs]
    if seen < n:
        break
    if bad is SystemError:
        result = [n, "SystemError"]
    elif u1 - u0 > 400 * 12:
        result = [n, f"leaks {(u1 - u0) / 400:.0f} bytes per call"]
    elif c0 != c1:
        result = [n, f"references to the arguments change by {[(b - a) / 400 for a, b in zip(c0, c1)]}"]
"""


def variables(call, env, low):
    mod, fn, args, kw = call.wire(env, low)
    return {"mod": ("__raw__", mod), "fn": ("__raw__", fn), "args": args, "kw": kw}


def crash(call, env, low, kinds=("plain", "asan")):
    for s in kinds:
        r = server(s).call(call, env, low, timeout=40)
        if r[0] == "crash":
            txt = r[2]
            lines = [x.strip() for x in txt.splitlines() if "ERROR: AddressSanitizer" in x or "runtime error" in x]
            return f"{'no answer within 40 s' if r[1] == 'timeout' else 'crash'} ({s} build, {r[1]}) {' '.join(lines)[:300]}"
        if r[0] == "err" and r[1] == "SystemError":
            return f"SystemError: {r[2]}"
    return None


def undefined(call, env, low):
    a, b = (server(k).exec(POISON, variables(call, env, low)) for k in ("perturb85", "perturb170"))
    for r in (a, b):
        if r[0] == "crash":
            return f"crash ({r[1]})"
        if r[0] != "ok":
            return None
    x = a[1] + b[1]
    # the same memory contents lead to the same result, different contents to another one
    if x[0] == x[1] and x[2] == x[3] and (x[0] != x[2] or a[1] != b[1]):
        return "the result depends on the previous contents of uninitialised memory"
    return None


def leak(call, env, low):
    r = server("perturb85").exec(LEAK, variables(call, env, low))
    if r[0] == "crash":
        return f"crash after repeated calls ({r[1]})"
    if r[0] != "ok":
        return None
    rate, refs = r[1]
    if any(refs):
        return f"reference counts of the arguments change by {refs} in 1500 calls"
    if rate > 12:
        return f"{rate:.0f} bytes of memory are lost per call"
    return None


def failure(call, env, low):
    """behaviour with every single allocation failing"""
    r = server("failalloc").exec(FAIL, variables(call, env, low), timeout=200)
    if r[0] == "crash":
        return f"crash when an allocation fails ({r[1]})"
    if r[0] == "ok" and r[1]:
        return f"failure of allocation {r[1][0]}: {r[1][1]}"
    return None


def replay(kind, call, env, low):
    """description of the reproduced defect or None"""
    r = crash(call, env, low)
    if r is None and kind in ("uninitialised", "out-of-bounds", "use-after-free"):
        r = undefined(call, env, low)
    if r is None and kind in ("leak", "double-release"):
        r = leak(call, env, low)
    return r
