"""C07 node lookup and interpolation"""
import math

import z3

from sym import core, build
from sym.core import fcmp, T
from sym.harness import Arr, Call, DOUBLE, same, num, server

LEFT, RIGHT = 0, 1
C0, C1, C1D1 = 0, 1, 0x11


def nodes(c, n, strict):
    v = [c.real(f"v{i}") for i in range(n)]
    for i in range(n - 1):
        c.assume(fcmp("olt" if strict else "ole", v[i], v[i + 1]))
    return v


def run(k):
    N = 10 if k.quick else 24
    BIG = (16, 17, 33, 64) if k.quick else (31, 32, 33, 64, 65, 100, 129)
    k.bound(f"bisect: 0..{N} and {BIG} non-decreasing nodes (repetitions included), any finite query and +-inf, NaN; "
            f"interp: 1..{N} and {BIG[:3]} strictly increasing nodes, 3 kinds, both extrapolation modes, 2 coefficient series")
    k.assume("finite node values; comparisons and bit-exact selections in ordered-value semantics, "
             "straight-line values in exact real arithmetic")
    jobs = []
    for n in BIG[::-1] + tuple(range(N, -1, -1)):
        for side in (LEFT, RIGHT):
            jobs.append((f"bisect {n} {side}", lambda k, n=n, s=side: check_bisect(k, n, s)))
        if n > 0 and n not in BIG[3:]:
            for kind in (C0, C1, C1D1):
                for ext in (False, True):
                    if kind == C0 or n >= 2:
                        jobs.append((f"interp {n} {kind} {ext}", lambda k, n=n, d=kind, e=ext: interpolation(k, n, d, e)))
    k.parallel(jobs)
    k.cur = k.harness("interp[too few nodes]")
    check_too_few(k)


def interpolation(k, n, kind, ext):
    check_interp(k, n, kind, ext)
    if n <= 4:
        check_special(k, n, kind, ext)
    check_at_nodes(k, n, kind, ext)


def check_bisect(k, n, side):
    name = f"bisect[{n},{'LR'[side]}]"

    def fn(c):
        v = nodes(c, n, False)
        x = [c.real("x0"), math.inf, -math.inf, math.nan]
        call = Call("pymm", "bisect", Arr((n,), lambda i: v[i[0]]), Arr((4,), lambda i: x[i[0]]), side)
        return call, v, x, call.sym(build.world("pymm"))
    for p in k.explore(name, fn, "ord"):
        call, v, x, r = p.result
        c = p.ctx
        if r.dims != (4,):
            report(k, p, call, f"result of shape {r.dims}", None)
            continue
        k.validate(c, call, r)
        lt, ge = ("olt", "oge") if side == RIGHT else ("ole", "ogt")
        # the interval of the result must contain the query
        i = core.CTX.concretize(r[(0,)])
        conds = []
        if n == 0:
            ok = i == -1
        elif not -1 <= i <= n - 1:
            ok = False
        else:
            if i >= 0:
                conds.append(fcmp(ge, x[0], v[i]))
            if i < n - 1:
                conds.append(fcmp(lt, x[0], v[i + 1]))
            ok = True
        k.reached()
        if not ok:
            report(k, p, call, f"index {i} of {n} nodes", {})
        else:
            e = z3.And(*[c.low.bool(b) for b in conds]) if conds else z3.BoolVal(True)
            m = c.model(z3.Not(e))
            if m is None:
                k.discharged()
            elif m == "unknown":
                k.error(f"{name}: solver undecided")
            else:
                report(k, p, call, "index of an interval not containing the query", m)
        for j, want in ((1, n - 1), (2, -1), (3, -1)):
            k.reached()
            got = r[(j,)]
            if got != want:
                report(k, p, call, f"index {got} of query {x[j]} in {n} nodes", c.model())
            else:
                k.discharged()


def spec(c, kind, ext, v, cf, t):
    """independent specification; decides with its own case split"""
    n = len(v)
    if not ext:
        if c.branch(fcmp("olt", t, v[0])):
            return math.nan
        if kind != C0 and c.branch(fcmp("ogt", t, v[n - 1])):
            return math.nan
    # the last node at or below t by a linear scan
    i = 0
    for j in range(1, n):
        if c.branch(fcmp("oge", t, v[j])):
            i = j
        else:
            break
    if kind == C0:
        return cf[i]
    i = min(i, n - 2)
    slope = (cf[i + 1] - cf[i]) / (v[i + 1] - v[i])
    if kind == C1D1:
        return slope
    return cf[i] + (t - v[i]) * slope


def check_interp(k, n, kind, ext):
    name = f"interp[{n},{kind},{ext}]"

    def fn(c):
        v = nodes(c, n, True)
        t = c.real("t")
        cf = [[c.real(f"c{r}_{i}") for i in range(n)] for r in range(2)]
        call = Call("pymm", "interp", Arr((1,), {(0,): t}), Arr((n,), lambda i: v[i[0]]),
                    Arr((2, n), lambda i: cf[i[0]][i[1]]), kind, ext)
        r = call.sym(build.world("pymm"))
        want = [spec(c, kind, ext, v, cf[q], t) for q in range(2)]
        return call, r, want
    for p in k.explore(name, fn, "real"):
        call, r, want = p.result
        c = p.ctx
        if r.dims != (1, 2):
            report(k, p, call, f"result of shape {r.dims}", None)
            continue
        k.validate(c, call, r)
        for q in range(2):
            k.reached()
            a, b = r[(0, q)], want[q]
            if isinstance(a, float) or isinstance(b, float):
                if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
                    k.discharged()
                else:
                    report(k, p, call, "NaN expected" if isinstance(b, float) else "unexpected constant", c.model(),
                           lambda env, b=b: num(b, env))
                continue
            if a is b:
                k.discharged()
                continue
            m = c.model(c.low(a) != c.low(b), timeout_ms=20000)
            if m is None:
                k.discharged()
            elif m == "unknown":
                k.error(f"{name}: solver undecided")
            else:
                report(k, p, call, "interpolated value differs from the straight line through the nodes", m,
                       lambda env, b=b: num(b, env), (0, q))


def check_at_nodes(k, n, kind, ext):
    """queries exactly at the nodes reproduce the node values"""
    name = f"interp-at-node[{n},{kind},{ext}]"
    if kind == C1D1:
        return

    def fn(c):
        v = nodes(c, n, True)
        cf = [c.real(f"c{i}") for i in range(n)]
        call = Call("pymm", "interp", Arr((n,), lambda i: v[i[0]]), Arr((n,), lambda i: v[i[0]]),
                    Arr((n,), lambda i: cf[i[0]]), kind, ext)
        # differences of distinct finite doubles are not zero (gradual underflow)
        for i in range(n - 1):
            c.assume(fcmp("ogt", v[i + 1] - v[i], 0.0))
        return call, cf, call.sym(build.world("pymm"))
    for p in k.explore(name, fn, "real"):
        call, cf, r = p.result
        c = p.ctx
        k.validate(c, call, r, rtol=1e-12)
        for i in range(n):
            k.reached()
            a = r[(i,)]
            if a is cf[i]:
                k.discharged()
                continue
            m = c.model(c.low(a) != c.low(cf[i])) if isinstance(a, T) else c.model()
            if m is None:
                k.discharged()
            elif m == "unknown":
                k.error(f"{name}: solver undecided")
            else:
                report(k, p, call, f"value at node {i} is not reproduced", m, lambda env, i=i: env[f"c{i}"], (i,))


def check_special(k, n, kind, ext):
    """NaN and infinite queries"""
    name = f"interp-special[{n},{kind},{ext}]"

    def fn(c):
        v = nodes(c, n, True)
        cf = [c.real(f"c{i}") for i in range(n)]
        x = [math.nan, math.inf, -math.inf]
        call = Call("pymm", "interp", Arr((3,), lambda i: x[i[0]]), Arr((n,), lambda i: v[i[0]]),
                    Arr((n,), lambda i: cf[i[0]]), kind, ext)
        return call, call.sym(build.world("pymm")), cf
    for p in k.explore(name, fn, "real"):
        call, r, cf = p.result
        k.validate(p.ctx, call, r)
        for j in range(3):
            k.reached()
            a = r[(j,)]
            isnan = isinstance(a, float) and a != a
            if not ext:
                want_nan = j in (0, 2) or kind != C0
                ok = isnan if want_nan else a is cf[-1]
            elif kind == C0 and j > 0:
                ok = a is (cf[-1] if j == 1 else cf[0])
            else:
                ok = True       # unspecified (NaN query or infinite extrapolation)
            if ok:
                k.discharged()
            else:
                report(k, p, call, f"query {('nan', 'inf', '-inf')[j]} gives {a}", p.ctx.model(),
                       lambda env, j=j, wn=(not ext and (j in (0, 2) or kind != C0)):
                       math.nan if wn else env["c%d" % (0 if j == 2 else len(cf) - 1)], (j,))


def check_too_few(k):
    from sym.capi import PyExc
    for n, kind in ((0, C0), (1, C1), (1, C1D1), (0, C1)):
        def fn(c):
            v = nodes(c, n, True)
            call = Call("pymm", "interp", Arr((1,), {(0,): c.real("t")}), Arr((n,), lambda i: v[i[0]]),
                        Arr((n,), lambda i: 1.0), kind)
            try:
                call.sym(build.world("pymm"))
            except PyExc as e:
                return call, e.type
            return call, None
        for p in k.explore(f"interp[too few: {n},{kind}]", fn, "real"):
            k.reached()
            if p.result[1] == "ValueError":
                k.discharged()
            else:
                r = server().call(p.result[0], p.ctx.model())
                if r[:2] != ("err", "ValueError"):
                    k.violation(f"interp accepts {n} nodes for kind {kind}", {"real": r})
                else:
                    k.error("model and real build disagree on the node count check")


def report(k, p, call, text, m, want=None, ix=None):
    """replay on the real build"""
    from sym.harness import compare
    if not isinstance(m, dict):
        m = p.ctx.model()
    r = server().call(call, m, p.ctx.low)
    data = {"text": text, "call": call.describe(m, p.ctx.low), "inputs": m, "real": str(r)[:800]}
    if r[0] == "crash":
        k.violation(text, data)
        return
    if want is None:
        # bisect: check the returned indices directly
        bad = None
        if r[0] == "ok":
            bad = bisect_wrong(call, m, r[1]) if call.fn == "bisect" else None
        if bad or r[0] == "err":
            k.violation(f"{text}: {bad or r}", data)
        else:
            k.error(f"counterexample does not reproduce: {text} {data}")
        return
    w = want(m)
    data["expected"] = w
    if r[0] == "ok":
        got = r[1][ix] if ix is not None else r[1].reshape(-1)[0]
        if not same(got, w, 1e-9, 1e-12):
            data["observed"] = float(got)
            k.violation(f"{text}: got {got}, expected {w}", data)
            return
    k.error(f"counterexample does not reproduce: {text} {data}")


def bisect_wrong(call, m, r):
    v = [num(call.args[0].vals[ix], m) for ix in sorted(call.args[0].vals)]
    side = call.args[2]
    for ix, x in sorted(call.args[1].vals.items()):
        x = num(x, m)
        if x != x:
            w = -1
        elif side == RIGHT:
            w = sum(a <= x for a in v) - 1
        else:
            w = sum(a < x for a in v) - 1
        if r.shape != (4,):
            return f"shape {r.shape}"
        if r[ix] != w:
            return f"query {x}: index {r[ix]} instead of {w}"
    return None
