"""C02 building blocks of the spherical-harmonic evaluation follow their definitions"""
import math

import numpy as np

from sym import core, build, poly
from sym.poly import D, DEG, const, add, scale, decide
from sym.harness import Arr, Call, DOUBLE, server, num
from checks import sh
from checks.common import aslist, Thin

LATS = {"lat": lambda rng, k: (90.0, -90.0, 0.0)[k] if k < 3 else round(rng.uniform(-90, 90), 3)}


def run(k):
    N = 22 if k.quick else 60
    FAR = (30, 40) if k.quick else (70, 80)
    M = 64 if k.quick else 130
    k.bound(f"legendre degrees 0..{N} and {FAR}, loncossin 0..{M} (both algorithms), relradpow 0..{M}; potential and gradient "
            f"assembled from the series: degrees 0..{6 if k.quick else 18} (and 17, 18), all coefficients; all latitudes "
            "-90..90 (both poles included), all longitudes, all positive radii")
    k.assume("exact real arithmetic; constants of the code compared up to a relative difference of 1e-11; "
             "results compared up to 1e-9 of the magnitude of the terms (assembled fields of degree 17+: 1e-7)")
    jobs = []
    for n in FAR[::-1] + tuple(range(0, N + 1)):
        jobs.append((f"legendre {n}", lambda k, n=n: legendre(k, n)))
    jobs = [(f"series {i}", lambda k, i=i: series(k, range(M - i, -1, -8))) for i in range(8)] + jobs
    degs = list(range(0, 7)) + [17, 18] if k.quick else list(range(0, 19))
    for n in degs:
        for internal in (True, False):
            jobs.append((f"assembled {n} {internal}", lambda k, n=n, i=internal: assembled(k, n, i)))
    jobs.sort(key=lambda j: -int(j[0].split()[1]) if j[0].startswith("ass") else 1)
    for n in range(1, 5):
        jobs.append((f"given {n}", lambda k, n=n: given(k, n)))
    k.parallel(jobs)


def scalar(x):
    return Arr((), lambda ix: x)


def legendre(k, n):
    name = f"legendre[{n}]"

    def fn(c):
        lat = c.real("lat", -90.0, 90.0)
        a = c.low.ring.angle("lat", DEG, -math.pi / 2, math.pi / 2)
        call = Call("pymm", "legendre", scalar(lat), n)
        return call, a, aslist(call.sym(build.world("pymm")))
    for p in k.explore(name, fn, "poly"):
        call, a, r = p.result
        c, R = p.ctx, p.ctx.low.ring
        nt = (n + 1) * (n + 2) // 2
        k.reached(2 * nt)
        if [x.dims for x in r] != [(nt,), (nt,)]:
            return report_legendre(k, p, call, n, f"{name}: shapes {[x.dims for x in r]}")
        k.validate(c, call, tuple(r), ranges=LATS)
        pairs = []
        for i in range(n + 1):
            for j in range(i + 1):
                pairs.append((r[0][(sh.idx(i, j),)], sh.schmidt_poly(R, a, i, j)))
                pairs.append((r[1][(sh.idx(i, j),)], sh.dschmidt_poly(R, a, i, j)))
        x = decide(c, pairs)
        if x is None:
            k.discharged(2 * nt)
        else:
            report_legendre(k, p, call, n, f"{name}: output {x[0] % 2} entry {x[0] // 2} differs: {R.show(x[1])}")


def report_legendre(k, p, call, n, text):
    for env in k.envs(p.ctx, LATS, tries=80, want=6):
        r = server().call(call, env, p.ctx.low)
        P, dP, _ = sh.nschmidt(n, env["lat"])
        bad = None
        if r[0] != "ok":
            bad = str(r)[:400]
        else:
            lp, ldp = (np.asarray(x) for x in r[1])
            if lp.shape != ((n + 1) * (n + 2) // 2,) or ldp.shape != lp.shape:
                bad = f"shapes {lp.shape} {ldp.shape}"
            else:
                for (i, j), v in P.items():
                    for what, got, w in (("function", lp, v), ("derivative", ldp, dP[i, j])):
                        if abs(got[sh.idx(i, j)] - float(w)) > 1e-7 * max(1.0, abs(float(w))):
                            bad = f"{what} of degree {i} order {j} is {got[sh.idx(i, j)]!r} instead of {float(w)!r}"
        if bad:
            k.violation(f"{text}; real build: {bad}", {"call": call.describe(env, p.ctx.low), "difference": bad})
            return
    k.undecided(text)


def series(k, degrees):
    for n in degrees:
        for fast in (None, 0, 1, True, False):
            loncossin(k, n, fast)
        for internal in (True, False):
            for ref in (None, 6371.2, 1.0, 1234.5):
                relradpow(k, n, internal, ref)


def loncossin(k, n, fast):
    name = f"loncossin[{n},{fast}]"

    def fn(c):
        lon = c.real("lon", -540.0, 540.0)
        a = c.low.ring.angle("lon", DEG)
        call = Call("pymm", "loncossin", scalar(lon), n, *(() if fast is None else (int(fast),)))
        return call, a, aslist(call.sym(build.world("pymm")))
    for p in k.explore(name, fn, "poly"):
        call, a, r = p.result
        c, R = p.ctx, p.ctx.low.ring
        k.reached(2 * n + 2)
        k.validate(c, call, r[0])
        pairs = []
        ok = r[0].dims == (n + 1, 2)
        x = None
        if ok:
            for i in range(n + 1):
                cs, sn = R.multiple(a, i)
                pairs += [(r[0][(i, 0)], cs), (r[0][(i, 1)], sn)]
            x = decide(c, pairs)
        if ok and x is None:
            k.discharged(2 * n + 2)
            continue
        text = f"{name}: shape {r[0].dims}" if not ok else f"{name}: {'cos' if x[0] % 2 == 0 else 'sin'} term {x[0] // 2}"
        for env in k.envs(c, tries=20, want=6):
            q = server().call(call, env, c.low)
            lo = math.radians(env["lon"])
            w = np.array([[math.cos(i * lo), math.sin(i * lo)] for i in range(n + 1)])
            if q[0] != "ok" or np.shape(q[1]) != w.shape or np.abs(q[1] - w).max() > 1e-9:
                k.violation(text, {"call": call.describe(env, c.low), "expected": w.tolist(), "real": str(q)[:600]})
                return
        k.undecided(text)


def relradpow(k, n, internal, ref):
    name = f"relradpow[{n},{internal},{ref}]"

    def fn(c):
        rad = c.real("rad", 1e-3, 1e9)
        call = Call("pymm", "relradpow", scalar(rad), n, *(() if ref is None and internal else (ref or 6371.2,)),
                    **({} if internal and ref is None else {"is_internal": internal}))
        return call, aslist(call.sym(build.world("pymm")))
    for p in k.explore(name, fn, "poly"):
        call, r = p.result
        c, R = p.ctx, p.ctx.low.ring
        k.reached(n + 1)
        k.validate(c, call, r[0], ranges={"rad": (1.0, 9e3)})
        rr = D(ref or 6371.2)
        i = R.atom("rad")
        ok = r[0].dims == (n + 1,)
        x = None
        if ok:
            pairs = []
            for j in range(n + 1):
                e = -(j + 2) if internal else j - 1
                pairs.append((r[0][(j,)], {((i, e),) if e else (): rr ** -e}))
            x = decide(c, pairs)
        if ok and x is None:
            k.discharged(n + 1)
            continue
        text = f"{name}: " + (f"shape {r[0].dims}" if not ok else f"power {x[0]}")
        for env in k.envs(c, {"rad": (1.0, 9e3)}, tries=20, want=6):
            q = server().call(call, env, c.low)
            w = np.array([(env["rad"] / float(rr)) ** (-(j + 2) if internal else j - 1) for j in range(n + 1)])
            if q[0] != "ok" or np.shape(q[1]) != w.shape or (np.abs(q[1] / w - 1) > 1e-9).any():
                k.violation(text, {"call": call.describe(env, c.low), "expected": w.tolist(), "real": str(q)[:600]})
                return
        k.undecided(text)


def field_oracle(R, n, a, lon, gname, internal, radius="rad"):
    """potential and gradient as polynomials; the gradient by differentiation of the potential"""
    ri = R.atom(radius)
    V = {}
    dl = {}
    Vphi = {}
    for i in range(n + 1):
        e = -(i + 1) if internal else i
        q = {((ri, e),) if e else (): sh.REF ** (i + 2) if internal else sh.REF ** (1 - i)}
        for j in range(i + 1):
            cs, sn = R.multiple(lon, j)
            g, h = R.v(f"{gname}{sh.idx(i, j)}_0"), R.v(f"{gname}{sh.idx(i, j)}_1")
            P = R.mul(q, sh.schmidt_poly(R, a, i, j))
            dP = R.mul(q, sh.dschmidt_poly(R, a, i, j))
            t = R.mul(g, cs)
            if j:
                t = add(t, R.mul(h, sn))
            V = add(V, R.mul(t, P))
            Vphi = add(Vphi, R.mul(t, dP))
            if j:
                d = scale(add(R.mul(h, cs), R.mul(g, sn), -1), j)
                dl = add(dl, R.mul(d, P))
    ir = {((ri, -1),): D(1)}
    dn = R.mul(Vphi, ir)
    de = R.mul(dl, R.mul(ir, R.inv(a.cos)))
    du = R.diff(V, radius, {})
    return V, (dn, de, du)


def assembled(k, n, internal):
    """legendre, loncossin, relradpow -> spharpot, sphargrd"""
    name = f"assembled[{n},{'int' if internal else 'ext'}]"
    nt = (n + 1) * (n + 2) // 2

    def fn(c):
        W = build.world("pymm")
        lat, lon = c.real("lat", -90.0, 90.0), c.real("lon", -360.0, 360.0)
        rad = c.real("rad", 1000.0, 60000.0)
        R = c.low.ring
        a = R.angle("lat", DEG, -math.pi / 2, math.pi / 2)
        b = R.angle("lon", DEG)
        cf = Arr((nt, 2), lambda ix: c.real("g" + "_".join(map(str, ix)), -10.0, 10.0))
        P, dP = (x for x in Call("pymm", "legendre", scalar(lat), n).sym(W))
        cs = Call("pymm", "loncossin", scalar(lon), n).sym(W)
        rr = Call("pymm", "relradpow", scalar(rad), n, 6371.2, is_internal=internal).sym(W)
        A = lambda r: Arr(r.dims, lambda ix: r[ix])
        c1 = Call("pymm", "spharpot", scalar(rad), cf, A(P), A(rr), A(cs), n)
        c2 = Call("pymm", "sphargrd", scalar(lat), cf, A(P), A(dP), A(rr), A(cs), internal, n)
        return a, b, c1, c1.sym(W), c2, c2.sym(W)
    for p in k.explore(name, fn, "poly"):
        a, b, c1, v, c2, g = p.result
        c, R = p.ctx, p.ctx.low.ring
        k.reached(4)
        k.validate(c, c2, g, ranges=LATS)
        V, G = field_oracle(R, n, a, b, "g", internal)
        if v.dims != () or g.dims != (3,):
            report_field(k, p, n, internal, f"{name}: shapes {v.dims} {g.dims}")
            continue
        x = decide(c, [(v[()], V)] + [(g[(i,)], G[i]) for i in range(3)], 1e-9 if n < 16 else 1e-7)
        if x is None:
            k.discharged(4)
        else:
            what = ("potential", "north component", "east component", "up component")[x[0]]
            report_field(k, p, n, internal, f"{name}: {what} differs by {R.show(x[1])}")


def report_field(k, p, n, internal, text):
    code = """
import numpy as np
from eoxmagmod import _pymm as m
P, dP = m.legendre(lat, n); cs = m.loncossin(lon, n); rr = m.relradpow(rad, n, 6371.2, is_internal=internal)
result = (np.array(m.spharpot(rad, coef, P, rr, cs, n)).tolist(),
          np.array(m.sphargrd(lat, coef, P, dP, rr, cs, internal, n)).tolist())
"""
    nt = (n + 1) * (n + 2) // 2
    for env in k.envs(p.ctx, LATS, tries=80, want=8):
        cf = np.array([[env[f"g{i}_{j}"] for j in range(2)] for i in range(nt)])
        v = {"lat": env["lat"], "lon": env["lon"], "rad": env["rad"], "n": n, "internal": internal, "coef": cf}
        q = server().exec(code, v)
        V, G = sh.nfield(cf, n, env["lat"], env["lon"], env["rad"], internal)
        w = np.array([V / env["rad"], *G])
        if q[0] == "ok" and np.shape(q[1][1]) == (3,) and np.shape(q[1][0]) == ():
            g = np.array([q[1][0] / env["rad"], *q[1][1]])
            if (np.abs(g - w) <= 1e-6 * np.abs(w).max()).all():
                continue
        k.violation(text, {"inputs": {x: str(y) for x, y in v.items()}, "expected": [V, *G], "real": str(q)[:600]})
        return
    k.undecided(text)


def given(k, n):
    """series given by the caller are used as they are; a lower degree uses the leading terms only"""
    nt = (n + 1) * (n + 2) // 2
    for deg in [None] + list(range(0, n + 1)):
        name = f"given[{n},{deg}]"
        d = n if deg is None else deg

        def fn(c):
            W = build.world("pymm")
            lat = c.real("lat", -89.0, 89.0)
            rad = c.real("rad", 1000.0, 60000.0)
            a = c.low.ring.angle("lat", DEG, math.radians(-89.0), math.radians(89.0))
            A = lambda n_, dims: Arr(dims, lambda ix: c.real(n_ + "_".join(map(str, ix)), -10.0, 10.0))
            cf, P, dP, rr, cs = A("g", (nt, 2)), A("p", (nt,)), A("d", (nt,)), A("r", (n + 1,)), A("c", (n + 1, 2))
            ex = () if deg is None else (deg,)
            c1 = Call("pymm", "spharpot", scalar(rad), cf, P, rr, cs, *ex)
            c2 = Call("pymm", "sphargrd", scalar(lat), cf, P, dP, rr, cs, True, *ex)
            c3 = Call("pymm", "sphargrd", scalar(lat), cf, P, dP, rr, cs, False, *ex)
            return a, [(x, x.sym(W)) for x in (c1, c2, c3)]
        for p in k.explore(name, fn, "poly"):
            a, calls = p.result
            c, R = p.ctx, p.ctx.low.ring
            v = R.v
            low = min((math.cos(math.radians(89.0)), 1.0))
            V, N, E, U = {}, {}, {}, [{}, {}]
            for i in range(d + 1):
                rr = v(f"r{i}")
                for j in range(i + 1):
                    x = sh.idx(i, j)
                    g, h, P, dP = v(f"g{x}_0"), v(f"g{x}_1"), v(f"p{x}"), v(f"d{x}")
                    if j == 0:
                        t, u = g, {}
                    else:
                        t = add(R.mul(g, v(f"c{j}_0")), R.mul(h, v(f"c{j}_1")))
                        u = scale(add(R.mul(h, v(f"c{j}_0")), R.mul(g, v(f"c{j}_1")), -1), j)
                    if i == 0:
                        P, dP = const(1), {}
                    V = add(V, R.mul(R.mul(t, P), rr))
                    N = add(N, R.mul(R.mul(t, dP), rr))
                    E = add(E, R.mul(R.mul(u, P), rr))
                    U[0] = add(U[0], R.mul(R.mul(t, P), rr), -(i + 1))
                    U[1] = add(U[1], R.mul(R.mul(t, P), rr), i)
            E = R.mul(E, R.inv(a.cos))
            V = R.mul(V, v("rad"))
            want = [[V], [N, E, U[0]], [N, E, U[1]]]
            for (call, r), w in zip(calls, want):
                k.reached()
                k.validate(c, call, r)
                dims = (3,) if len(w) == 3 else ()
                x = decide(c, list(zip([r[(i,)] for i in range(3)] if len(w) == 3 else [r[()]], w))) \
                    if r.dims == dims else (0, {})
                if x is None:
                    k.discharged()
                    continue
                text = f"{name}: {call.fn} differs in component {x[0]}: {R.show(x[1])}"
                # value of the definition on a witness
                for env in k.envs(c, tries=30, want=4):
                    q = server().call(call, env, c.low)
                    e = [peval(R, y, env) for y in w]
                    if q[0] != "ok" or not np.allclose(np.ravel(q[1]), e, rtol=1e-8, atol=1e-8 * max(map(abs, e))):
                        k.violation(text, {"call": call.describe(env, c.low), "expected": e, "real": str(q)[:500]})
                        return
                k.undecided(text)


def peval(R, p, env, extra=None):
    """numeric value of an oracle polynomial"""
    s = 0.0
    for m, v in p.items():
        x = float(v)
        for a, e in m:
            nm = R.atoms[a].name
            if nm.startswith("cos<"):
                y = math.cos(math.radians(env[nm[4:-1]]))
            elif nm.startswith("sin<"):
                y = math.sin(math.radians(env[nm[4:-1]]))
            else:
                y = env[nm]
            x *= y ** e
        s += x
    return s
