"""C08 coordinate conversions describe the same point and invert each other"""
import math

import mpmath
import numpy as np
import z3

from sym import core, build, poly
from sym.core import fmul, fcall
from sym.poly import D, DEG, add, scale, decide, const, clean, drop, maxabs
from sym.harness import Arr, read, server

GEOD, SPH, CART = 0, 1, 2
NAME = {GEOD: "geodetic", SPH: "spherical", CART: "Cartesian"}
A, B = 6378.137, 6356.7523142
E2 = 1.0 - (B * B) / (A * A)
RAD = math.pi / 180.0


def run(k):
    k.bound("one position per call (arrays: C03, C04); geocentric radius 957..127000 km (0.15..20 semi-major axes), heights "
            "-3000..120000 km; every latitude including the poles and the equator, longitudes -180..180; "
            "all nine pairs of coordinate types and all 27 compositions")
    k.assume("exact real arithmetic; geodetic inverse: the code's expression satisfies the ellipsoid equations exactly "
             "for the value of the squared eccentricity given by the code's ellipsoid (90 digit coefficients); "
             "other results up to 1e-9 of the magnitude of the terms; the root of the latitude equation is on the branch "
             "k > 1 everywhere because it is continuous, never 1 and above 1 at a point of every explored region")
    jobs = [("lemma", lemma)]
    for box in ("plus", "minus", "north", "south"):
        jobs.append((f"inverse {box}", lambda k, b=box: inverse(k, b)))
    for f in (trig, geod_forward, identity):
        jobs.append((f.__name__, f))
    for src in (CART, SPH):
        jobs.append((f"special {src}", lambda k, s=src: special(k, s)))
    for i in range(3):
        for j in range(3):
            jobs.append((f"composition {i}{j}", lambda k, i=i, j=j: compositions(k, i, j)))
    k.parallel(jobs)


# ---- definitions (numeric)

def ncart(src, x):
    with mpmath.workdps(40):
        u, v, w = (mpmath.mpf(float(y)) for y in x)
        if src == CART:
            return u, v, w
        d = mpmath.pi / 180
        sf, cf, sl, cl = mpmath.sin(u * d), mpmath.cos(u * d), mpmath.sin(v * d), mpmath.cos(v * d)
        if abs(u) == 90:
            cf = mpmath.mpf(0)
        if src == SPH:
            return w * cf * cl, w * cf * sl, w * sf
        e2 = 1 - mpmath.mpf(B) ** 2 / mpmath.mpf(A) ** 2
        n = A / mpmath.sqrt(1 - e2 * sf * sf)
        return (n + w) * cf * cl, (n + w) * cf * sl, (n * (1 - e2) + w) * sf


def badness(src, dst, x, y):
    """description of a result y which is not the position x"""
    y = np.asarray(y, "f8")
    if y.shape != (3,) or not np.isfinite(y).all():
        return f"result {y.tolist()}"
    a, b = ncart(src, x), ncart(dst, y)
    d = float(mpmath.sqrt(sum((u - v) ** 2 for u, v in zip(a, b))))
    r = float(mpmath.sqrt(sum(u ** 2 for u in a)))
    if d > 1e-9 * r + 1e-6:
        return f"{NAME[dst]} {y.tolist()} is {d:.6g} km off the position"
    if dst != CART:
        if not (abs(y[0]) <= 90 + 1e-9 and abs(y[1]) <= 540 + 1e-9):
            return f"angles {y[:2].tolist()} out of range"
        if dst == SPH and y[2] < 0:
            return f"negative radius {y[2]}"
        if dst == GEOD and y[2] < -(1 - E2) * A + 1:
            return f"height {y[2]} on the other side of the ellipsoid"
    return None


def replay(k, c, name, text, vals, src, chain, want=8):
    """chain: coordinate types to convert to one after the other, judged against the definition"""
    for env in k.envs(c, tries=60, want=want):
        x = [float(core.evalf(v, env)) if isinstance(v, core.T) else float(v) for v in vals]
        code = ["import eoxmagmod", "a = np.array(x)", "result = []"]
        s = src
        for d in chain:
            code += [f"b = eoxmagmod.convert(a, {s}, {d})", "result.append(b.tolist())", "a = b"]
            s = d
        code += ["y = np.array(x)", f"eoxmagmod.convert(y, {src}, {chain[0]})", "result.append((y == np.array(x)).all())"]
        r = server().request(("exec", "\n".join(code), {"x": x}))
        bad = None
        if r[0] != "ok":
            bad = str(r)[:400]
        elif not r[1][-1]:
            bad = "the input array was modified"
        else:
            for d, y in zip(chain, r[1]):
                bad = bad or badness(src, d, x, y)
                if len(set((src,) + tuple(chain))) == 1 and not bad and list(y) != x:
                    bad = f"{y} instead of the values of the input"
        if bad:
            k.violation(f"{name}: {text}", {"function": "convert", "input": x, "from": NAME[src],
                                            "to": [NAME[d] for d in chain], "difference": bad})
            return
    k.undecided(f"{name}: {text}")


# ---- symbolic

def convert(vals, src, dst):
    """(results, input still the same)"""
    W = build.world("pymm")
    a = Arr((3,), lambda i: vals[i[0]]).sym(W)
    r = W.call(build.module("pymm"), "convert", a, src, dst)
    res = read(W, r)
    same = all(W.read_array(a)[(i,)] is vals[i] or W.read_array(a)[(i,)] == vals[i] for i in range(3))
    if res.dims != (3,):
        return None, same
    return [res[(i,)] for i in range(3)], same


def position(c, src, pole=None):
    """(values, angle of the latitude, angle of the longitude, polynomial of the third coordinate)"""
    R = c.low.ring
    lon = c.real("lon", -180.0, 180.0, lo_open=True)
    b = R.angle("lon", DEG, -math.pi, math.pi)
    if src == CART:
        lat, a = c.real("lat", -90.0, 90.0), R.angle("lat", DEG, -math.pi / 2, math.pi / 2)
        r = c.real("r", 957.0, 127000.0)
        p = fmul(r, fcall("cos", fmul(lat, RAD)))
        l = fmul(lon, RAD)
        return [fmul(p, fcall("cos", l)), fmul(p, fcall("sin", l)), fmul(r, fcall("sin", fmul(lat, RAD)))], a, b, R.v("r")
    lat, a = c.real("lat", -90.0, 90.0), R.angle("lat", DEG, -math.pi / 2, math.pi / 2)
    if src == SPH:
        return [lat, lon, c.real("r", 957.0, 127000.0)], a, b, R.v("r")
    h = c.real("h", -3000.0, 120000.0)
    # the distance from the axis is not negative
    e2 = 1 - D(B) * D(B) / (D(A) * D(A))
    n = R.mul(const(D(A)), R.inv(R.sqrt(add(const(1), R.mul(a.sin, a.sin), -e2))))
    R.known_root(R.mul(add(n, R.v("h")), a.cos))
    return [lat, lon, h], a, b, R.v("h")


def direction(R, v):
    """cosine and sine of an output angle in degrees"""
    return R.cossin(scale(R(v), DEG))


def verdict(k, c, name, pairs, what, vals, src, chain, ok=True, tol=1e-9):
    k.reached()
    z = decide(c, pairs, tol) if ok else (0, {})
    if z is None:
        k.discharged()
        return
    replay(k, c, name, what if not ok else f"relation {z[0]} differs: {c.low.ring.show(z[1])}", vals, src, chain)


def trig(k):
    for src, dst in ((SPH, CART), (CART, SPH)):
        name = f"{NAME[src]} to {NAME[dst]}"

        def fn(c):
            v, a, b, r = position(c, src)
            return v, a, b, r, convert(v, src, dst)
        for p in k.explore(name, fn, "poly"):
            v, a, b, r, (o, same) = p.result
            R = p.ctx.low.ring
            if o is None or not same:
                verdict(k, p.ctx, name, [], "input modified or wrong shape", v, src, [dst], False)
                continue
            if dst == CART:
                q = R.mul(r, a.cos)
                pairs = [(o[0], R.mul(q, b.cos)), (o[1], R.mul(q, b.sin)), (o[2], R.mul(r, a.sin))]
            else:
                pairs = [(o[0], scale({a.mono: a.unit}, 180 / poly.PI)), (o[1], scale({b.mono: b.unit}, 180 / poly.PI)),
                         (o[2], r)]
            validated(k, p.ctx, v, src, dst)
            verdict(k, p.ctx, name, pairs, "", v, src, [dst])


def validated(k, c, vals, src, dst):
    """the real build agrees with the definition at a witness of the path (reported if not)"""
    for env in k.envs(c, tries=20, want=1):
        x = [float(core.evalf(v, env)) if isinstance(v, core.T) else float(v) for v in vals]
        r = server().request(("exec", f"import eoxmagmod\nresult = eoxmagmod.convert(np.array(x), {src}, {dst}).tolist()", {"x": x}))
        bad = str(r)[:300] if r[0] != "ok" else badness(src, dst, x, r[1])
        if bad:
            k.violation(f"{NAME[src]} to {NAME[dst]}: {bad}", {"function": "convert", "input": x, "from": NAME[src],
                                                              "to": NAME[dst], "difference": bad})
        k.validated += 1
        k.cur["witnesses"] += 1


def geod_forward(k):
    for dst in (CART, SPH):
        name = f"geodetic to {NAME[dst]}"

        def fn(c):
            v, a, b, h = position(c, GEOD)
            return v, a, b, h, convert(v, GEOD, dst)
        for p in k.explore(name, fn, "poly"):
            v, a, b, h, (o, same) = p.result
            R = p.ctx.low.ring
            if o is None or not same:
                verdict(k, p.ctx, name, [], "input modified or wrong shape", v, GEOD, [dst], False)
                continue
            e2 = 1 - D(B) * D(B) / (D(A) * D(A))
            n = R.mul(const(D(A)), R.inv(R.sqrt(add(const(1), R.mul(a.sin, a.sin), -e2))))
            q = R.mul(add(n, h), a.cos)
            zz = R.mul(add(scale(n, 1 - e2), h), a.sin)
            if dst == CART:
                pairs = [(o[0], R.mul(q, b.cos)), (o[1], R.mul(q, b.sin)), (o[2], zz)]
            else:
                cs, sn = direction(R, o[0])
                r = R(o[2])
                pairs = [(R.mul(r, cs), q), (R.mul(r, sn), zz), (o[1], scale({b.mono: b.unit}, 180 / poly.PI))]
            validated(k, p.ctx, v, GEOD, dst)
            verdict(k, p.ctx, name, pairs, "", v, GEOD, [dst])


def identity(k):
    for t in range(3):
        name = f"{NAME[t]} unchanged"

        def fn(c):
            v = [c.real(n, -1000.0, 1000.0) for n in "abc"]
            return v, convert(v, t, t)
        for p in k.explore(name, fn, "poly"):
            v, (o, same) = p.result
            k.reached()
            ok = o is not None and same and all(x is y for x, y in zip(o, v))
            if ok or (o is not None and same and decide(p.ctx, list(zip(o, v)), 1e-15) is None):
                k.discharged()
            else:
                replay(k, p.ctx, name, "values changed", v, t, [t])
            validated(k, p.ctx, [10.0, 20.0, 7000.0], t, t)


BOXES = {"plus": ((0.15, 20.0), (0.0, 20.0)), "minus": ((0.15, 20.0), (-20.0, 0.0)),
         "north": ((0.0, 0.2), (0.15, 20.0)), "south": ((0.0, 0.2), (-20.0, -0.15))}


def inverse(k, box):
    """Cartesian to geodetic: the latitude and height satisfy the equations of the ellipsoid"""
    name = f"Cartesian to geodetic, {box}"
    poly.exact()

    def fn(c):
        R = c.low.ring
        (p0, p1), (z0, z1) = BOXES[box]
        p = c.real("p", p0, p1, lo_open=True)
        z = c.real("z", z0, z1, lo_open=box == "plus", hi_open=box == "minus")
        lon = c.real("lon", -180.0, 180.0, lo_open=True)
        b = R.angle("lon", DEG, -math.pi, math.pi)
        l = fmul(lon, RAD)
        pa = fmul(A, p)
        v = [fmul(pa, fcall("cos", l)), fmul(pa, fcall("sin", l)), fmul(A, z)]
        return v, b, convert(v, CART, GEOD)
    try:
        for p in k.explore(name, fn, "poly"):
            v, b, (o, same) = p.result
            c, R = p.ctx, p.ctx.low.ring
            k.reached(4)
            for _ in range(3):
                validated(k, c, v, CART, GEOD)
            if o is None or not same:
                replay(k, c, name, "input modified or wrong shape", v, CART, [GEOD])
                continue
            bad = None
            if decide(c, [(o[1], scale({b.mono: b.unit}, 180 / poly.PI))]) is not None:
                bad = "longitude differs"
            else:
                k.discharged()
            e2 = D(E2)
            pp, zz = R.v("p"), R.v("z")
            cs, sn = direction(R, o[0])
            # k = tan(lat) p / z
            try:
                kk = R.mul(R.div(sn, cs), R.mul(pp, R.inv(zz)))
                k1 = add(kk, const(1), -1)
                k2 = R.mul(kk, kk)
                q = add(R.mul(pp, pp), R.mul(R.mul(zz, zz), k2), 1 - e2)
                f = add(R.mul(R.mul(k1, k1), q), k2, -e2 * e2)
                if not zero(R, f):
                    bad = bad or "the latitude does not satisfy the equation of the ellipsoid"
                else:
                    k.discharged()
                # e^2 h k cos = p (1 - (1 - e^2) k), h in semi-major axes
                h = scale(R(o[2]), 1 / D(A))
                g = add(scale(R.mul(R.mul(h, kk), cs), e2), pp, -1)
                g = add(g, R.mul(pp, kk), 1 - e2)
                if not zero(R, g):
                    bad = bad or "the height does not satisfy the equation of the ellipsoid"
                else:
                    k.discharged()
            except core.Unsupported as e:
                bad = bad or f"not decided: {e}"
            if bad is None:
                # on the branch k > 1 at a point of the region
                ok = 0
                for env in k.envs(c, tries=20, want=3):
                    x = [core.evalf(y, env) for y in v]
                    w = core.evalf(o[0], env) * RAD
                    kv = math.tan(w) * math.hypot(x[0], x[1]) / x[2]
                    ok += kv > 1.0 and math.cos(w) >= 0
                if ok:
                    k.discharged()
                else:
                    bad = "the latitude is on the wrong branch"
            if bad:
                replay(k, c, name, bad, v, CART, [GEOD], want=20)
    finally:
        poly.exact(False)


def zero(R, f):
    g = R.clear(f)
    # 90 digits: what is left of exactly cancelling coefficients
    return not g or maxabs(g) <= D("1e-50") * max(maxabs(f), D(1))


def lemma(k):
    """the equation has one root above 1, and every geodetic position above the evolute gives such a root"""
    k.harness("uniqueness")
    P, Q, k1, k2, e = z3.Reals("P Q k1 k2 e")
    s = z3.Solver()
    s.set("timeout", 60000)
    s.add(P >= 0, Q >= 0, P + Q > 0, k1 > 1, k2 > 1, e > 0, e < 1)
    for x in (k1, k2):
        s.add((x - 1) * (x - 1) * (P + Q * x * x) == e * e * x * x)
    s.add(k1 < k2)
    k.reached(2)
    core.STATS.queries += 1
    if s.check() == z3.unsat:
        k.discharged()
    else:
        k.undecided("uniqueness of the root")
    # p = (N + h) c, z = (N (1 - e2) + h) s with N (1 - e2) + h > 0: k = tan(lat) p / z > 1 is a root
    n, h, c, sn = z3.Reals("N h c s")
    s = z3.Solver()
    s.set("timeout", 60000)
    p, z = (n + h) * c, (n * (1 - e) + h) * sn
    w = n * (1 - e) + h
    # multiplied out: k = (N + h) / w
    s.add(n > 0, e > 0, e < 1, w > 0, c > 0, sn != 0, c * c + sn * sn == 1, n * n * (1 - e * sn * sn) == 1)
    s.add(z3.Not(z3.And(n + h > w, (n + h - w) == n * e)))
    core.STATS.queries += 1
    ok = s.check() == z3.unsat
    core.STATS.paths += 1
    if ok:
        k.discharged()
    else:
        k.undecided("geodetic positions are roots")


def special(k, src):
    """positions on the axis and on the equator"""
    poly.exact()
    try:
        _special(k, src)
    finally:
        poly.exact(False)


def _special(k, src):
    cases = {"axis north": (90.0, None), "axis south": (-90.0, None), "equator": (0.0, None)}
    for nm, (lat, _) in cases.items():
        for dst in range(3):
            name = f"{NAME[src]} to {NAME[dst]}, {nm}"

            def fn(c):
                R = c.low.ring
                r = c.real("r", 957.0, 127000.0)
                lon = c.real("lon", -180.0, 180.0, lo_open=True)
                b = R.angle("lon", DEG, -math.pi, math.pi)
                l = fmul(lon, RAD)
                if src == SPH:
                    v = [lat, lon, r]
                elif lat:
                    v = [0.0, 0.0, r if lat > 0 else core.fneg(r)]
                else:
                    v = [fmul(r, fcall("cos", l)), fmul(r, fcall("sin", l)), 0.0]
                return v, b, convert(v, src, dst)
            for p in k.explore(name, fn, "poly"):
                v, b, (o, same) = p.result
                c, R = p.ctx, p.ctx.low.ring
                r = R.v("r")
                lo = scale({b.mono: b.unit}, 180 / poly.PI)
                if o is None or not same:
                    verdict(k, c, name, [], "input modified or wrong shape", v, src, [dst], False)
                    continue
                if dst == CART:
                    if lat:
                        pairs = [(o[0], const(0)), (o[1], const(0)), (o[2], scale(r, int(lat / 90)))]
                    else:
                        pairs = [(o[0], R.mul(r, b.cos)), (o[1], R.mul(r, b.sin)), (o[2], const(0))]
                else:
                    ref = D(A) if not lat else D(A) * (1 - D(E2)).sqrt()
                    h = r if dst == SPH else add(r, const(ref), -1)
                    pairs = [(o[0], const(D(lat))), (o[2], h)]
                    if not (lat and src == CART):
                        pairs.append((o[1], lo))
                validated(k, c, v, src, dst)
                verdict(k, c, name, pairs, "", v, src, [dst])


def compositions(k, i, j):
    """i -> j -> m describes the same position as i -> m"""
    for m in range(3):
        if j == GEOD and m != GEOD and i != GEOD:
            # the geodetic coordinates are decided by `inverse` and `lemma`, the way back by `geod_forward`
            continue
        if i == GEOD and m == GEOD and j != GEOD:
            continue         # uniqueness: `inverse` and `lemma`
        name = f"{NAME[i]} to {NAME[j]} to {NAME[m]}"

        def fn(c):
            v, a, b, r = position(c, i)
            x, s1 = convert(v, i, j)
            y, s2 = convert(x, j, m)
            z, s3 = convert(v, i, m)
            return v, y, z, s1 and s2 and s3
        for p in k.explore(name, fn, "poly"):
            v, y, z, same = p.result
            c, R = p.ctx, p.ctx.low.ring
            if y is None or z is None or not same:
                verdict(k, c, name, [], "input modified or wrong shape", v, i, [j, m], False)
                continue
            validated(k, c, v, i, m)
            if m == CART:
                pairs = list(zip(y, z))
            else:
                pairs = []
                for n in range(2):
                    (c1, s1), (c2, s2) = direction(R, y[n]), direction(R, z[n])
                    pairs += [(c1, c2), (s1, s2)]
                pairs.append((y[2], z[2]))
            verdict(k, c, name, pairs, "", v, i, [j, m])
