"""Common machinery of the checks: call descriptions shared by the symbolic and the real execution,
replay on the real build, verdicts, evidence."""
import json
import itertools
import math
import os
import pickle
import random
import select
import struct
import subprocess
import sys
import time
import traceback

import numpy as np

from . import build, capi, core, ir
from .core import T, SI, UNDEF, Unsupported, Inconclusive

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPT = {capi.NPY_DOUBLE: "f8", capi.NPY_INT: "i4", capi.NPY_LONG: "i8", capi.NPY_BOOL: "b1"}
DOUBLE, INT = capi.NPY_DOUBLE, capi.NPY_INT


# ---------------------------------------------------------------------------------------------
# call descriptions

class Arr:
    """array argument: values by index and an explicit memory layout"""

    def __init__(self, dims, vals, typenum=DOUBLE, layout="C"):
        self.dims = tuple(dims)
        self.typenum = typenum
        self.vals = vals if isinstance(vals, dict) else {ix: vals(ix) for ix in np.ndindex(*self.dims)}
        self.layout = layout
        self._layout()

    def _layout(self):
        it = capi.ITEMSIZE[self.typenum]
        d = self.dims
        lo = self.layout
        off = 0
        if lo == "C":
            st = capi.cstrides(d, it)
        elif lo == "F":
            st = capi.fstrides(d, it)
        elif lo == "step":        # every second element along every axis of a larger array
            st = tuple(2 * s for s in capi.cstrides([2 * x for x in d], it))
        elif lo == "rev":         # all axes reversed
            c = capi.cstrides(d, it)
            st = tuple(-s for s in c)
            off = sum((n - 1) * s for n, s in zip(d, c)) if 0 not in d else 0
        elif lo == "bcast":       # first axis of zero stride
            st = (0,) + capi.cstrides(d[1:], it) if d else ()
        elif lo == "bcastlast":
            st = capi.cstrides(d[:-1], it) + (0,) if d else ()
        elif lo == "col":         # column slices of a wider array
            st = capi.cstrides(d[:-1] + (d[-1] + 2,), it) if d else ()
            off = it if d else 0
        elif lo == "mid":         # axes rolled
            perm = d[1:] + d[:1]
            s = capi.cstrides(perm, it)
            st = s[-1:] + s[:-1] if d else ()
        elif isinstance(lo, tuple):
            st, off = lo
        else:
            raise ValueError(lo)
        size = off + it
        for n, s in zip(d, st):
            size += max(0, (n - 1) * s)
        if 0 in d:
            size = 0
        self.strides, self.offset, self.nbytes = tuple(st), off, size

    def sym(self, W, name="input"):
        return W.make_array(self.vals, self.dims, self.typenum, self.strides, self.offset, self.nbytes, name)

    def wire(self, env, low=None):
        dt = NPT[self.typenum]
        buf = bytearray(self.nbytes)
        if self.typenum == DOUBLE:
            # unused elements hold a recognisable value
            for o in range(0, self.nbytes - 7, 8):
                struct.pack_into("<d", buf, o, 1.25e77)
        for ix, v in self.vals.items():
            o = self.offset + sum(i * s for i, s in zip(ix, self.strides))
            v = num(v, env, low)
            struct.pack_into({"f8": "<d", "i4": "<i", "i8": "<q", "b1": "<?"}[dt], buf, o, v)
        return ("__arr__", self.dims, self.strides, self.offset, bytes(buf), dt)


def num(v, env, low=None):
    if isinstance(v, T):
        return core.evalf(v, env, None, low and {"__vars__": low.vars})
    if isinstance(v, SI):
        return core.eval_si(v, env, low and {"__vars__": low.vars})
    return v


def to_sym(W, v):
    if isinstance(v, Arr):
        return v.sym(W)
    if isinstance(v, (tuple, list)):
        return type(v)(to_sym(W, x) for x in v)
    return v


def to_wire(v, env, low=None):
    if isinstance(v, Arr):
        return v.wire(env, low)
    if isinstance(v, (tuple, list)):
        return type(v)(to_wire(x, env, low) for x in v)
    if isinstance(v, dict):
        return {k: to_wire(x, env, low) for k, x in v.items()}
    return num(v, env, low)


def read(W, r):
    """result of W.call as nested tuples of dict(index -> value) / scalars"""
    if isinstance(r, tuple):
        return tuple(read(W, x) for x in r)
    if isinstance(r, capi.Array):
        d = W.read_array(r)
        for ix, v in d.items():
            if v is UNDEF:
                core.CTX.event("uninitialised", f"element {ix} of the result is not set")
                break
        return Result(r.dims, d, r.typenum)
    return r


class Result(dict):
    def __init__(self, dims, d, typenum):
        super().__init__(d)
        self.dims, self.typenum = dims, typenum


class Call:
    """one call of a compiled function"""

    def __init__(self, mod, fn, *args, **kw):
        self.mod, self.fn, self.args, self.kw = mod, fn, args, kw

    def sym(self, W):
        m = build.module(self.mod)
        core.CTX.last_call = self
        args = [to_sym(W, a) for a in self.args]
        kw = {k: to_sym(W, a) for k, a in self.kw.items()}
        r = W.call(m, self.fn, *args, **kw)
        return read(W, r)

    def wire(self, env, low=None):
        return (build.MODULES[self.mod], self.fn, to_wire(self.args, env, low), to_wire(self.kw, env, low))

    def describe(self, env, low=None):
        return {"module": self.mod, "function": self.fn,
                "args": [desc(a, env, low) for a in self.args],
                "kwargs": {k: desc(a, env, low) for k, a in self.kw.items()}}


def desc(v, env, low=None):
    if isinstance(v, Arr):
        def nest(ix):
            if len(ix) == len(v.dims):
                return num(v.vals[ix], env, low)
            return [nest(ix + (i,)) for i in range(v.dims[len(ix)])]
        return {"array": nest(()), "dims": list(v.dims), "strides": list(v.strides), "layout": str(v.layout)}
    if isinstance(v, (tuple, list)):
        return [desc(x, env, low) for x in v]
    x = num(v, env, low)
    return x


# ---------------------------------------------------------------------------------------------
# the real implementation in a separate process

class Crash(Exception):
    pass


class Server:
    def __init__(self, kind="plain"):
        self.kind = kind
        self.p = None
        self.log = os.path.join(build.scratch(), f"server_{kind}_{os.getpid()}_{id(self)}.log")

    def start(self):
        env = dict(os.environ)
        flags = ()
        cc = "gcc"
        if self.kind == "asan":
            cc = "clang-18"
            flags = ("-fsanitize=address,null,bounds,signed-integer-overflow,float-cast-overflow,shift,"
                     "integer-divide-by-zero,vla-bound", "-fno-sanitize-recover=all", "-shared-libasan", "-g", "-O0")
            lib = subprocess.run(["clang-18", "-print-file-name=libclang_rt.asan-x86_64.so"],
                                 capture_output=True, text=True).stdout.strip()
            env["LD_PRELOAD"] = lib
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
            env["PYTHONMALLOC"] = "malloc"
        elif self.kind.startswith("perturb"):
            env["MALLOC_PERTURB_"] = self.kind[7:]
            env["PYTHONMALLOC"] = "malloc"
            # uninitialised automatic variables differ as well
            flags = ("-ftrivial-auto-var-init=" + ("zero" if self.kind == "perturb85" else "pattern"),)
        elif self.kind == "failalloc":
            env["LD_PRELOAD"] = failing_malloc()
            env["PYTHONMALLOC"] = "malloc"
        d = build.real_dir(flags, cc, QD)
        env["PYTHONPATH"] = d
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        # spacepy rewrites its configuration on import: a private place for each process
        env["SPACEPY"] = os.path.join(build.scratch(), f"spacepy{os.getpid()}_{self.kind}")
        os.makedirs(env["SPACEPY"], exist_ok=True)
        self.p = subprocess.Popen([build.PY, os.path.join(ROOT, "sym", "server.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=open(self.log, "wb"), env=env,
                                  cwd=build.scratch())

    def request(self, req, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        b = pickle.dumps(req)
        try:
            self.p.stdin.write(struct.pack("<q", len(b)) + b)
            self.p.stdin.flush()
        except BrokenPipeError:
            return self._crashed()
        h = self._read(8, timeout)
        if h is None:
            return self._crashed()
        b = self._read(struct.unpack("<q", h)[0], timeout)
        if b is None:
            return self._crashed()
        return pickle.loads(b)

    def _read(self, n, timeout):
        out = b""
        t0 = time.time()
        fd = self.p.stdout.fileno()
        while len(out) < n:
            r, _, _ = select.select([fd], [], [], max(0.0, timeout - (time.time() - t0)))
            if not r:
                self.p.kill()
                self.p.wait()
                self.timed_out = True
                return None
            x = os.read(fd, n - len(out))
            if not x:
                self.timed_out = False
                return None
            out += x
        return out

    def _crashed(self):
        rc = self.p.wait()
        self.p = None
        txt = open(self.log, "rb").read()[-6000:].decode("utf-8", "replace")
        if getattr(self, "timed_out", False):
            self.timed_out = False
            return ("crash", "timeout", "no answer within the time limit")
        return ("crash", f"exit status {rc}", txt)

    def call(self, call, env, low=None, timeout=60):
        return self.request(("call",) + call.wire(env, low), timeout)

    def calls(self, calls, env, low=None, timeout=60):
        return self.request(("calls", [c.wire(env, low) for c in calls]), timeout)

    def exec(self, code, vars_, timeout=120):
        return self.request(("exec", code, vars_), timeout)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def failing_malloc():
    """library in which the n-th allocation after fail_after(n) fails"""
    p = os.path.join(build.scratch(), f"failmalloc_{os.getpid()}.so")
    if not os.path.exists(p):
        src = p[:-3] + ".c"
        with open(src, "w") as f:
            f.write(FAILING)
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", src, "-o", p, "-ldl"], check=True)
    return p


FAILING = '''
#include <stddef.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static long left = -1, seen;
void fail_after(long n) { seen = 0; left = n; }
long allocations(void) { long n = seen; left = -1; return n; }
static int fails(void) {
    if (left < 0) return 0;
    ++seen;
    return seen == left;
}
void *malloc(size_t n) { return fails() ? NULL : __libc_malloc(n); }
void *calloc(size_t n, size_t m) { return fails() ? NULL : __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { return fails() ? NULL : __libc_realloc(p, n); }
'''

QD = False          # with a freshly built Fortran library
_servers = {}


def server(kind="plain"):
    s = _servers.get(kind)
    if s is None:
        s = _servers[kind] = Server(kind)
    return s


def same(a, b, rtol=0.0, atol=0.0):
    a, b = float(a), float(b)
    if a == b or (a != a and b != b):
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


# ---------------------------------------------------------------------------------------------

class Violation(Exception):
    pass


class Check:
    """one run of the check of a property"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.rng = random.Random(seed)
        self.violations = []
        self.known = []
        self.errors = []
        self.samples = []
        self.assumptions = []
        self.bounds = []
        self.harnesses = {}
        self.validated = 0
        self.validation_skipped = 0
        self.quick = tier != "thorough"
        self.limit = float(os.environ.get("VERIF_LIMIT", 780 if self.quick else 6 * 3600))
        self.cur = None
        self.open = []
        self.collect = False
        self.known_list = load_known(pid)

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def time_left(self):
        return self.limit - (time.time() - self.t0)

    def bound(self, text):
        if text not in self.bounds:
            self.bounds.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def harness(self, name):
        h = self.harnesses.setdefault(name, {"paths": 0, "assertions": 0, "witnesses": 0, "s": 0.0})
        self.cur = h
        return h

    def undecided(self, text):
        """an abstract counterexample without a concrete witness: the obligation stays open"""
        self.open.append(text)
        if len(self.open) < 20:
            self.log("undecided:", text)

    # ---- independent jobs in parallel processes
    def parallel(self, jobs, workers=None):
        """jobs: list of (name, function of the check); results are merged into this check"""
        workers = workers or max(1, min(8, os.cpu_count() or 1))
        jobs = list(jobs)
        build.real_dir((), qd=QD)
        for n in ("pymm", "pytimeconv", "pysunpos") + (("pyqd", "cqdipole") if QD else ()):
            build.module(n)
        if QD:
            from . import gimple, qd
            gimple.program(gimple.ALL if qd.FULL else gimple.FILES)
        if len(jobs) == 1 or workers == 1:
            for name, f in jobs:
                try:
                    f(self)
                except OPEN as e:
                    self.undecided(f"{name}: {type(e).__name__}: {e}"[:600])
            return
        running = {}
        queue = list(enumerate(jobs))
        nviol = 0
        while queue or running:
            while queue and len(running) < workers and nviol < 5:
                i, (name, f) = queue.pop(0)
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(rd)
                    self._child(f, wr)
                os.close(wr)
                running[rd] = [pid, name, b""]
            if nviol >= 5:
                queue = []
                for pid, name, buf in running.values():
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                running = {}
            if not running:
                break
            r, _, _ = select.select(list(running), [], [])
            for fd in r:
                x = os.read(fd, 1 << 20)
                if x:
                    running[fd][2] += x
                    continue
                pid, name, buf = running.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                if not buf:
                    self.errors.append(f"{name}: the worker process ended without a result")
                    continue
                nviol += self._merge(pickle.loads(buf), name)

    def _child(self, f, wr):
        try:
            _servers.clear()
            core.STATS.__init__()
            self.violations, self.known, self.errors, self.samples = [], [], [], []
            self.assumptions, self.bounds, self.harnesses, self.open = [], [], {}, []
            self.validated = self.validation_skipped = 0
            self.collect = True
            try:
                f(self)
            except Violation:
                pass
            except OPEN as e:
                self.undecided(f"{type(e).__name__}: {e}"[:600])
            except Exception as e:
                traceback.print_exc()
                self.errors.append(f"{type(e).__name__}: {e}"[:600])
            for s in _servers.values():
                s.close()
            out = {k: getattr(self, k) for k in ("violations", "known", "errors", "samples", "assumptions", "bounds",
                                                 "harnesses", "validated", "validation_skipped", "open")}
            out["stats"] = core.STATS.__dict__
            out["enc"] = {n: sorted(m.encoded) for n, m in build._mods.items()}
            out["py"] = sorted(PYFUNCS)
            b = pickle.dumps(out)
            while b:
                n = os.write(wr, b)
                b = b[n:]
        finally:
            sys.stdout.flush()
            os._exit(0)

    def _merge(self, o, name):
        self.known += [x for x in o["known"] if x not in self.known]
        self.errors += [x if x.startswith(name) else f"{name}: {x}" for x in o["errors"]]
        self.samples = (self.samples + o["samples"])[:8]
        for t in o["assumptions"]:
            self.assume(t)
        for t in o["bounds"]:
            self.bound(t)
        for n, h in o["harnesses"].items():
            g = self.harnesses.setdefault(n, {"paths": 0, "assertions": 0, "witnesses": 0, "s": 0.0})
            for a, b in h.items():
                g[a] = g[a] + b
        self.validated += o["validated"]
        self.validation_skipped += o["validation_skipped"]
        self.open += o["open"]
        for a, b in o["stats"].items():
            setattr(core.STATS, a, getattr(core.STATS, a) + b)
        for n, e in o["enc"].items():
            build.module(n).encoded.update(e)
        PYFUNCS.update(o["py"])
        for text, data in o["violations"]:
            self._report(text, data)
        return len(o["violations"])

    # ---- exploration
    def explore(self, name, fn, mode="real", max_paths=4000, timeout_ms=10000, on_event=None,
                guides=None):
        """iterate over the paths of fn; events are handed to on_event (or are errors)"""
        h = self.harness(name)
        t0 = time.time()
        n = 0
        skipped = []

        def unsupported(c, e):
            skipped.append(e)
            self.undecided(f"{name}: a path is outside of the encoding: {e}")
        for path in core.explore(fn, mode, max_paths, timeout_ms, deadline=self.t0 + self.limit, guides=guides,
                                 unsupported=unsupported):
            n += 1
            h["paths"] += 1
            self.cur = h
            if path.ctx.events:
                if on_event is not None:
                    on_event(path)
                else:
                    self.memory_event(name, path)
                if path.error:
                    continue
            yield path
        if n == 0 and not skipped:
            self.errors.append(f"{name}: no feasible path (vacuous harness)")
        h["s"] += time.time() - t0

    def memory_event(self, name, path, want=3):
        """a path on which the code violates the rules of memory or of the interpreter: replay on the real build"""
        from . import memory
        ev = path.ctx.events[0]
        call = getattr(path.ctx, "last_call", None)
        if call is None:
            self.errors.append(f"{name}: {ev}")
            return
        for env in self.envs(path.ctx, want=want):
            r = memory.replay(ev.kind, call, env, path.ctx.low)
            if r:
                self.violation(f"{name}: {ev.kind}: {ev.text} ({ev.where}): {r}",
                               {"harness": name, "event": str(ev), "replay": r,
                                "call": call.describe(env, path.ctx.low)})
                return
        self.undecided(f"{name}: {ev} (not reproduced on the real build)")

    def reached(self, n=1):
        self.cur["assertions"] += n
        core.STATS.obligations += n

    def discharged(self, n=1):
        core.STATS.discharged += n

    # ---- witnesses
    def envs(self, ctx, ranges=None, tries=60, want=1):
        """numeric assignments following the path of ctx (checked numerically)"""
        got = 0
        m = ctx.model() if ctx.guide is None else None
        cands = []
        if ctx.guide is not None:
            cands.append(dict(ctx.gvals))
        if isinstance(m, dict):
            cands.append(m)
        if ctx.mode == "ord" and ctx.guide is None:
            m2 = real_model(ctx)
            if m2:
                cands.append(m2)
        eq = classes(ctx)
        rnd = [self._random_env(ctx, eq, ranges or {}, m if isinstance(m, dict) else {}, k) for k in range(tries)]
        if ctx.guide is None:
            own = constrained(ctx)
            # the values of the inputs the path depends on are those of a model, all others are random
            mix = [{n: c[n] if n in own else r[n] for n in r} for c in cands for r in rnd[:4]]
            cands = rnd[:3] + mix + cands + rnd[3:]
        else:
            cands = cands + rnd

        def more():
            if ctx.guide is None and want > 1 and got < want and isinstance(m, dict):
                for r in rnd[:4]:
                    e = spread(ctx, own, r)
                    if e:
                        yield e
        cands = itertools.chain(cands, more())
        for env in cands:
            if follows(ctx, env):
                yield env
                got += 1
                if got >= want:
                    return

    def _random_env(self, ctx, eq, ranges, m, k):
        env = {}
        val = {}
        for name, (kind, lo, hi) in ctx.inputs.items():
            if kind == "int":
                env[name] = m.get(name, lo) if k % 3 == 0 else self.rng.randint(lo, hi)
                continue
            r = eq.get(name, name)
            if r not in val:
                rg = None
                for pre, x in ranges.items():
                    if name.startswith(pre):
                        rg = x
                if callable(rg):
                    val[r] = rg(self.rng, k)
                else:
                    a, b = rg if rg is not None else (lo if lo is not None else -10.0, hi if hi is not None else 10.0)
                    val[r] = round(self.rng.uniform(a, b), 3)
            env[name] = val[r]
        return env

    def validate(self, ctx, call, result, env=None, ranges=None, rtol=1e-9, atol=1e-9):
        """execute a witness of the path on the real build and compare with the symbolic result"""
        if env is None:
            env = next(iter(self.envs(ctx, ranges)), None)
        if env is None:
            self.validation_skipped += 1
            return None
        r = server().call(call, env, ctx.low)
        if r[0] != "ok":
            raise TranslatorMismatch(f"{call.fn}: real build answered {r[:2]} {r[2][-300:]} on a path with a result; "
                                     f"{call.describe(env, ctx.low)}")
        d = compare(result, r[1], env, ctx.low, rtol, atol)
        if d:
            raise TranslatorMismatch(f"{call.fn}: {d}; {call.describe(env, ctx.low)}")
        self.validated += 1
        self.cur["witnesses"] += 1
        if len(self.samples) < 6:
            self.samples.append({"harness": [k for k, v in self.harnesses.items() if v is self.cur][0],
                                 "witness": {k: env[k] for k in sorted(env)[:12]},
                                 "call": call.fn, "agrees_with_real_build": True})
        return env

    # ---- verdicts
    def violation(self, text, data):
        """a deviation which was reproduced on the real build"""
        for k in self.known_list:
            if k.get("match") and all(str(data.get(a)) == str(b) for a, b in k["match"].items()):
                if k["what"] not in self.known:
                    self.known.append(k["what"])
                return
        if self.collect:
            self.violations.append((text, data))
            self.log("violation:", text)
            if len(self.violations) >= 3:
                raise Violation()
            return
        self._report(text, data)
        if len(self.violations) > 4:
            raise Violation()

    def _report(self, text, data):
        n = len(self.violations)
        if n >= 8:
            return
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}_{n}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "violation": text, **data}, f, indent=1, default=str)
        self.violations.append((text, path))
        self.log("violation:", text)
        print(json.dumps(data, default=str)[:1500])

    def error(self, text):
        self.errors.append(text)
        self.log("ERROR:", text)

    def finish(self):
        for s in _servers.values():
            s.close()
        st = core.STATS
        funcs = {n: sorted(m.encoded) for n, m in build._mods.items() if m.encoded}
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": max(st.paths, 1), "transitions": st.branches,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples or [{"harness": k, **v} for k, v in list(self.harnesses.items())[:3]],
                "obligations": st.obligations, "discharged": st.discharged,
                "solver_queries": st.queries, "solver_sat": st.sat, "solver_unsat": st.unsat,
                "solver_unknown": st.unknown, "solver_seconds": round(st.solver_s, 2),
                "functions_encoded": funcs, "ir_lines": {n: m.lines for n, m in build._mods.items()},
                "python_functions_encoded": sorted(PYFUNCS),
                "bounds": self.bounds, "harnesses": self.harnesses,
                "rule": "a state is one feasible path of a harness (symbolic inputs, path condition satisfiable); "
                        "a transition is one solver-decided branch; an obligation is one assertion over all values "
                        "of a path, discharged by the solver or by the normaliser and solver together",
                "undecided": self.open[:20], "errors": self.errors[:20], "known_findings": self.known,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        self.log(f"paths {st.paths}, branches {st.branches}, obligations {st.discharged}/{st.obligations}, "
                 f"queries {st.queries} ({st.solver_s:.1f}s), witnesses {self.validated}")
        for text, path in self.violations:
            print(f"VIOLATION property={self.pid} replay={path}")
        if self.violations:
            return 1
        if self.errors:
            for e in self.errors[:10]:
                print("CHECK-ERROR:", e)
            return 2
        if self.open:
            print(f"UNDECIDED: property={self.pid} {len(self.open)} obligations are open (listed in the evidence)")
        if st.obligations == 0 or st.discharged == 0:
            print("CHECK-ERROR: nothing was checked")
            return 2
        return 0


PYFUNCS = set()


class TranslatorMismatch(Exception):
    pass


# outside of the encoding or of the budget: the obligations stay open
OPEN = (Unsupported, Inconclusive, core.Budget)


def classes(ctx):
    """inputs forced equal by the path: name -> representative"""
    rep = {}
    def find(x):
        while rep.get(x, x) != x:
            x = rep[x]
        return x
    for b, d in ctx.conds:
        if b.__class__ is core.BT and b.k == "fcmp" and isinstance(b.a, T) and isinstance(b.b, T) and \
                b.a.op == "var" and b.b.op == "var":
            if (b.p[1:] == "eq" and d) or (b.p[1:] == "ne" and not d):
                rep[find(b.a.args[0])] = find(b.b.args[0])
    return {n: find(n) for n in ctx.inputs}


def constrained(ctx):
    """names of the inputs the path condition depends on"""
    names, seen = set(), set()
    stack = [b for b, _ in ctx.conds]
    while stack:
        x = stack.pop()
        if x.__class__ is core.BT:
            stack += [x.a, x.b]
        elif isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "var":
                names.add(x.args[0])
            else:
                stack += list(x.args)
        elif isinstance(x, SI):
            names.update(n for n, (kind, _, _) in ctx.inputs.items() if kind == "int")
            for n, (v, kind) in ctx.low.vars.items():
                if kind.__class__ is tuple:
                    stack.append(kind[1])
        elif isinstance(x, (tuple, list)):
            stack += list(x)
    return names


def spread(ctx, own, r):
    """a model with as many as possible of the constrained inputs at the given random values"""
    fixed = []
    for n in sorted(own, key=lambda n: hash((n, r.get(n)))):
        if n not in r:
            continue
        kind = ctx.inputs[n][0]
        e = (core.z3.Int(n) == r[n]) if kind == "int" else (ctx.low(core.var(n)) == core._rv(r[n]))
        if ctx.check(*fixed, e, timeout_ms=2000) == "sat":
            fixed.append(e)
    m = ctx.model(*fixed, timeout_ms=2000)
    return {n: m[n] if n in own else r[n] for n in r} if isinstance(m, dict) else None


def real_model(ctx, timeout_ms=5000):
    """assignment satisfying the path condition in real arithmetic"""
    low = core.Lower("real")
    low.vars = dict(ctx.low.vars)
    s = core.z3.Solver()
    s.set("timeout", timeout_ms)
    try:
        for name, (kind, lo, hi) in ctx.inputs.items():
            v = core.z3.Int(name) if kind == "int" else low(core.var(name))
            if lo is not None:
                s.add(v >= (lo if kind == "int" else core._rv(lo)))
            if hi is not None:
                s.add(v <= (hi if kind == "int" else core._rv(hi)))
        for b, d in ctx.conds:
            e = low.bool(b)
            s.add(e if d else core.z3.Not(e))
        for name, (v, kind) in list(low.vars.items()):
            if kind.__class__ is tuple:
                x = low(kind[1])
                s.add(v == core.z3.If(x >= 0, core.z3.ToInt(x), -core.z3.ToInt(-x)))
        for a in low.axioms:
            s.add(a)
        if s.check() != core.z3.sat:
            return None
        m = s.model()
        out = {}
        for name, (kind, lo, hi) in ctx.inputs.items():
            if kind == "int":
                out[name] = m.eval(core.z3.Int(name), model_completion=True).as_long()
            else:
                out[name] = core.real_value(m.eval(low.var(name), model_completion=True))
        return out
    except (Unsupported, core.z3.Z3Exception):
        return None


def follows(ctx, env):
    """does the numeric assignment satisfy the path condition (evaluated in floating point)?"""
    ienv = {"__vars__": ctx.low.vars}
    for name, (kind, lo, hi) in ctx.inputs.items():
        v = env[name]
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            return False
    try:
        for b, d in ctx.conds:
            if core.eval_bt(b, env, ienv) != d:
                return False
        # integer-only constraints of the path
        for k, ex in getattr(ctx, "intpc", ()):
            pass
    except (Unsupported, KeyError, ZeroDivisionError):
        return False
    return True


def compare(sym, real, env, low, rtol, atol, what="result"):
    """description of the first difference between the symbolic and the real result, or None"""
    if isinstance(sym, Result):
        r = np.asarray(real)
        if tuple(r.shape) != tuple(sym.dims):
            return f"{what}: shape {r.shape} instead of {sym.dims}"
        for ix, v in sym.items():
            if v is UNDEF:
                continue
            x = num(v, env, low)
            if not same(x, r[ix], rtol, atol):
                return f"{what}{list(ix)}: real {r[ix]!r} symbolic {x!r}"
        return None
    if isinstance(sym, tuple):
        if len(sym) != len(real):
            return f"{what}: {len(real)} items instead of {len(sym)}"
        for i, (a, b) in enumerate(zip(sym, real)):
            d = compare(a, b, env, low, rtol, atol, f"{what}[{i}]")
            if d:
                return d
        return None
    if sym is None:
        return None if real is None else f"{what}: {real} instead of None"
    x = num(sym, env, low)
    if not same(x, real, rtol, atol):
        return f"{what}: real {real!r} symbolic {x!r}"
    return None


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def main(pid, run):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(pid, tier, seed)
    try:
        run(c)
    except Violation:
        pass
    except OPEN as e:
        c.undecided(f"{type(e).__name__}: {e}"[:600])
    except Exception as e:
        traceback.print_exc()
        c.errors.append(f"{type(e).__name__}: {e}"[:600])
    rc = c.finish()
    sys.stdout.flush()
    os._exit(rc) if False else None
    return rc
