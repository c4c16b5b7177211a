"""C03 every element of a batch equals its evaluation alone, whatever was evaluated before"""
from sym import core, build, catalog
from sym.core import fcmp
from sym.catalog import POT
from sym.harness import Call, server, num
from checks.common import aslist, differs, ieq_real, Thin

SKIP_FULL = ("shevaltemp",)


def run(k):
    k.bound("batches of 2 distinct symbolic elements followed by a repetition of the first one (light functions: 3 "
            "distinct elements and a repetition), all coincidences of coordinates and times between the elements; "
            "degree 2 (1 for the cases with per-point coefficients), 2 or 3 time nodes, 1 or 2 coefficient sets, "
            "2x3 Fourier terms; then every element alone, in the process state left by the batch and in a fresh one")
    k.assume("finite inputs within the ranges of checks/c03.py; floating-point operations are uninterpreted "
             "functions (equal arguments give equal results), comparisons are exact: equality is bit-exact")
    jobs = []
    for e in catalog.entries():
        if e.fn == "shevaltemp":
            continue
        jobs.append((e.name, lambda k, e=e: batch(k, e, 2 if e.heavy or e.mod != "pymm" else 3)))
    S, G, C = catalog.SPH, catalog.GEOD, catalog.CART
    T_ = catalog._shevaltemp
    # all coincidences of times and positions
    jobs.insert(0, ("ts-a", lambda k: batch(k, T_(S, S, POT, (2,), nt=2), 2)))
    jobs.insert(0, ("ts-b", lambda k: batch(k, T_(S, S, POT, (1,), nt=2), 2)))
    # a common position, all modes
    for m in (1, 2, 3):
        for o in ((2,), (1,), (1, 2), (2, 1)):
            jobs.insert(0, (f"ts-{m}{o}", lambda k, m=m, o=o: batch(k, T_(S, C if m == 2 else S, m, o, nt=3), 2, ("x",))))
    jobs.insert(0, ("ts-ov", lambda k: batch(k, T_(S, S, 2, (1, 1), nt=2,
                                                   sets=([(1, 0), (1, -1)], [(1, 0), (2, -2)])), 2, ("x",))))
    jobs.insert(0, ("ts-ov2", lambda k: batch(k, T_(S, S, 1, (1, 2), nt=2,
                                                    sets=([(1, 0), (1, -1)], [(1, 0), (2, -2)])), 2, ("x",))))
    # a common time, all coordinate coincidences
    for a, b, m in ((S, S, 3), (G, C, 2), (C, G, 3)):
        jobs.insert(0, (f"ts-{a}{b}", lambda k, a=a, b=b, m=m: batch(k, T_(a, b, m, (2,), nt=2), 2, ("t",))))
    k.parallel(jobs)


def batch(k, e, n, common=()):
    """n distinct elements and a repetition of the first one"""
    name = e.name + (f" common {','.join(common)}" if common else "") + f" x{n}+1"
    pts = list(range(n)) + [0]

    def fn(c):
        sh = e.shared(c)
        vals = {}
        for p in e.params:
            get = e.values(c, p.name)
            vals[p.name] = (lambda ix, t, get=get: get((0,), t)) if p.name in common else \
                (lambda ix, t, get=get: get((pts[ix[0]],), t))
        call = e.batch(c, (n + 1,), sh, vals=vals)
        singles = [e.single(c, (i,), sh, vals=vals) for i in range(n)]
        W = build.world(e.mod)
        r = aslist(call.sym(W))
        after = [aslist(singles[i].sym(W)) for i in reversed(range(n))][::-1]
        fresh = [aslist(singles[i].sym(build.world(e.mod))) for i in range(n)]
        return call, singles, r, after, fresh
    thin = Thin()
    for p in k.explore(name, fn, "ord", max_paths=20000):
        call, singles, r, after, fresh = p.result
        c = p.ctx
        if thin():
            k.validate(c, call, tuple(r) if len(r) > 1 else r[0])
        done = False
        for o in range(len(r)):
            tail = e.outs({})[o]
            if r[o].dims != (n + 1,) + tail:
                k.reached()
                replay(k, p, e, call, singles, pts, f"{name}: output of shape {r[o].dims}")
                done = True
                break
            for j, i in enumerate(pts):
                for t, v in fresh[i][o].items():
                    for what, a in (("in the batch", r[o][(j,) + t]), ("after the batch", after[i][o][t])):
                        k.reached()
                        m = differs(c, a, v)
                        if m is None:
                            k.discharged()
                        elif m == "unknown":
                            k.undecided(f"{name}: solver undecided")
                        elif not done:
                            replay(k, p, e, call, singles, pts,
                                   f"{name}: output {o}{list(t)} of element {j} {what} differs from the element "
                                   f"evaluated alone", m)
                            done = True


def replay(k, p, e, call, singles, pts, text, m=None):
    """batch and single calls on the real build"""
    import random
    envs = []
    if isinstance(m, dict) and m:
        envs.append(m)
    ranges = {}
    envs += list(k.envs(p.ctx, ranges, tries=200, want=6))
    for env in envs:
        try:
            from sym.harness import Server
            s = Server("plain")
            a = s.calls([call] + singles[::-1], env, p.ctx.low)
            s.close()
            if a[0] != "ok":
                data = {"call": call.describe(env, p.ctx.low), "real": str(a)[:600], "inputs": env}
                k.violation(f"{text}: {a[:2]}", data)
                return
            b = []
            for x in singles:
                s = Server("plain")
                b.append(s.call(x, env, p.ctx.low))
                s.close()
            if any(x[0] != "ok" for x in b):
                continue
            b = [aslist(x[1]) for x in b]
            batch_ = aslist(a[1][0])
            after = [aslist(x) for x in a[1][1:]][::-1]
            for o in range(len(batch_)):
                for j, i in enumerate(pts):
                    for what, x in (("in the batch", batch_[o][j] if len(batch_[o]) > j else None),
                                    ("after the batch", after[i][o])):
                        d = ieq_real(x, b[i][o]) if x is not None else "missing element"
                        if d:
                            k.violation(f"{text}; real build: element {j} {what}: {d}",
                                        {"inputs": env, "call": call.describe(env, p.ctx.low), "output": o,
                                         "element": j, "where": what, "difference": d})
                            return
        except (core.Unsupported, KeyError):
            continue
    k.undecided(text)
