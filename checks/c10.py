"""C10 the evaluated field does not depend on the coordinate frames used"""
import math

import numpy as np

from sym import core, build
from sym.core import fcmp
from sym.poly import D, add, scale, decide
from sym.harness import Arr, Call, server, INT
from sym.catalog import POT, GRD, BOTH
from checks.c08 import GEOD, SPH, CART, NAME, position, convert, direction
from checks.common import aslist

NMS = [(1, 0), (1, 1), (1, -1), (2, 1)]


def run(k):
    k.bound("one position; sheval of degrees 0, 1 and 2 and other series also of degree 0 (monopole), shevaltemp with one set of two nodes, sheval2dfs with one or two "
            "terms per axis; all nine pairs of coordinate systems, all three modes, internal and external, unscaled, "
            "scalar and per-component scaling; radius 957..127000 km, heights -3000..120000 km; latitudes -90..90 "
            "with the poles and the equator also as exact cases")
    k.assume("exact real arithmetic, results up to 1e-9 of the magnitude of the terms; the evaluation in spherical "
             "coordinates itself is decided by C01, C05 and C06, the conversions by C08")
    jobs = []
    for src in range(3):
        for dst in range(3):
            for fn in ("sheval", "shevaltemp", "sheval2dfs"):
                for internal in (True, False):
                    for mode in (POT, GRD, BOTH):
                        for sc in (None, "scalar", "vector"):
                            if k.quick and sc == "scalar" and mode != BOTH:
                                continue
                            for deg in (0, 1, 2) if fn == "sheval" and sc is None else (0, 1) if sc is None and mode == BOTH else (1,):
                                jobs.append((src, dst, fn, internal, mode, sc, deg, None))
                    for lat in (90.0, -90.0, 0.0):
                        if internal or not k.quick:
                            jobs.append((src, dst, fn, internal, BOTH, "vector", 1, lat))
    jobs.sort(key=lambda j: (j[0] == CART, j[0] == SPH), reverse=True)
    k.parallel([(f"frames {i}", lambda k, i=i: [frames(k, *j) for j in jobs[i::32]]) for i in range(32)])


def evaluation(c, fn, x, src, dst, internal, deg, kw):
    if fn == "sheval":
        nt = (deg + 1) * (deg + 2) // 2
        cf = Arr((nt, 2), lambda ix: c.real(f"g{ix[0]}_{ix[1]}", -10.0, 10.0))
        return Call("pymm", fn, Arr((3,), lambda ix: x[ix[0]]), cf, src, dst, is_internal=internal, **kw)
    NM = NMS if deg else [(0, 0)]
    nm = Arr((len(NM), 2), lambda ix: NM[ix[0]][ix[1]], INT)
    if fn == "shevaltemp":
        t = c.real("t", 0.25, 0.75)
        cf = Arr((len(NM), 2), lambda ix: c.real(f"g{ix[0]}_{ix[1]}", -10.0, 10.0))
        v = Arr((2,), lambda ix: float(ix[0]))
        return Call("pymm", fn, Arr((), lambda ix: t), Arr((3,), lambda ix: x[ix[0]]), [(v, cf, nm, 2)], src, dst,
                    is_internal=internal, **kw)
    t = c.real("t1", -5.0, 5.0), c.real("t2", -5.0, 5.0)
    cf = Arr((len(NM), 1, 1, 2), lambda ix: c.real(f"g{ix[0]}_{ix[3]}", -10.0, 10.0))
    return Call("pymm", fn, Arr((), lambda ix: t[0]), Arr((), lambda ix: t[1]), Arr((3,), lambda ix: x[ix[0]]),
                (cf, nm, 1, -1, 1.0, 0.5), src, dst, is_internal=internal, **kw)


def frames(k, src, dst, fn, internal, mode, sc, deg, lat0):
    name = f"{fn}[{NAME[src]} to {NAME[dst]},{'int' if internal else 'ext'},mode{mode},scale={sc},degree{deg},lat={lat0}]"

    def run_(c):
        R = c.low.ring
        if lat0 is None:
            x, _, _, _ = position(c, src)
        elif src == CART:
            r = c.real("r", 957.0, 127000.0)
            x = [0.0, 0.0, r if lat0 > 0 else core.fneg(r)] if lat0 else None
            if x is None:
                l = core.fmul(c.real("lon", -180.0, 180.0, lo_open=True), math.pi / 180)
                R.angle("lon", D(1) / 180 * D(str(math.pi)), -math.pi, math.pi)
                x = [core.fmul(r, core.fcall("cos", l)), core.fmul(r, core.fcall("sin", l)), 0.0]
        else:
            x = [lat0, c.real("lon", -180.0, 180.0, lo_open=True), c.real("r", 957.0, 127000.0)]
            R.angle("lon", D(1) / 180 * D(str(math.pi)), -math.pi, math.pi)
        s, _ = convert(x, src, SPH)
        R.opaque_angle(R(s[0]))
        R.opaque_angle(R(s[1]))
        if deg == 0:
            # the cosine of no double vanishes, that of the exact pole does: 0/0 of the zero gradient
            c.assume(fcmp("ogt", core.fcall("cos", core.fmul(s[0], math.pi / 180)), 1e-6))
        g = None
        if dst == GEOD:
            g, _ = convert(x, src, GEOD)
            R.opaque_angle(R(g[0]))
        kw = {"mode": mode}
        if sc:
            kw["scale_potential"] = c.real("sp", -10.0, 10.0)
            kw["scale_gradient"] = c.real("s0", -10.0, 10.0) if sc == "scalar" else \
                Arr((3,), lambda ix: c.real(f"s{ix[0]}", -10.0, 10.0))
        ref = evaluation(c, fn, s, SPH, SPH, internal, deg, {"mode": BOTH})
        call = evaluation(c, fn, x, src, dst, internal, deg, kw)
        return x, s, g, call, call.sym(build.world("pymm")), ref.sym(build.world("pymm"))
    for p in k.explore(name, run_, "poly"):
        x, s, g, call, r, ref = p.result
        c, R = p.ctx, p.ctx.low.ring
        r = aslist(r)
        V = R(ref[0][()])
        n, e, u = (R(ref[1][(i,)]) for i in range(3))
        cf, sf = direction(R, s[0])
        if dst != SPH:
            rho = add(R.mul(u, cf), R.mul(n, sf), -1)
            z = add(R.mul(u, sf), R.mul(n, cf))
            if dst == GEOD:
                cg, sg = direction(R, g[0])
                n, u = add(R.mul(z, cg), R.mul(rho, sg), -1), add(R.mul(rho, cg), R.mul(z, sg))
            else:
                cl, sl = direction(R, s[1])
                n, e, u = (add(R.mul(rho, cl), R.mul(e, sl), -1), add(R.mul(rho, sl), R.mul(e, cl)), z)
        G = [n, e, u]
        if sc:
            V = R.mul(R.v("sp"), V)
            G = [R.mul(R.v("s0" if sc == "scalar" else f"s{i}"), w) for i, w in enumerate(G)]
        want = {POT: [[V]], GRD: [G], BOTH: [[V], G]}[mode]
        k.reached(sum(map(len, want)))
        pairs, bad = [], None
        for o, w in zip(r, want):
            if o.dims != (() if len(w) == 1 else (3,)):
                bad = f"shape {o.dims}"
                break
            pairs += [(o[()] if len(w) == 1 else o[(i,)], q) for i, q in enumerate(w)]
        if len(r) != len(want):
            bad = f"{len(r)} outputs"
        if bad is None:
            z = decide(c, pairs)
            if z is None:
                k.discharged(len(pairs))
                if not k.cur["witnesses"] and replay(k, c, name, None, x, src, dst, call, fn, mode, sc):
                    return
                continue
            bad = f"output {z[0]} differs by {R.show(z[1], 4)}"
        if replay(k, c, name, bad, x, src, dst, call, fn, mode, sc):
            return


CODE = """
import eoxmagmod
from eoxmagmod import _pymm
f = getattr(_pymm, fn)
a, kw = args, kwargs
i = [j for j, y in enumerate(a) if isinstance(y, np.ndarray) and y.shape == (3,)][0]
s = eoxmagmod.convert(a[i], src, 1)
out = f(*a, **kw)
b = list(a)
b[i] = s
j = [j for j, y in enumerate(b) if type(y) is int][-2:]
b[j[0]] = b[j[1]] = 1
V, (n, e, u) = f(*b, mode=3, is_internal=kw["is_internal"])
d = np.pi / 180
rho, z = u * np.cos(s[0] * d) - n * np.sin(s[0] * d), u * np.sin(s[0] * d) + n * np.cos(s[0] * d)
if dst == 0:
    g = eoxmagmod.convert(a[i], src, 0)[0] * d
    n, u = z * np.cos(g) - rho * np.sin(g), rho * np.cos(g) + z * np.sin(g)
elif dst == 2:
    l = s[1] * d
    n, e, u = rho * np.cos(l) - e * np.sin(l), rho * np.sin(l) + e * np.cos(l), z
w = float(np.hypot(np.hypot(n, e), u))
result = [np.asarray(y).tolist() for y in (out if isinstance(out, tuple) else (out,))], float(V), [n, e, u], w
"""


def replay(k, c, name, text, x, src, dst, call, fn, mode, sc):
    """compare with the conversion, evaluation and rotation done one after the other on the real build"""
    for env in k.envs(c, tries=40, want=6 if text else 1):
        _, _, args, kw = call.wire(env, c.low)
        q = server().request(("exec", CODE, {"args": args, "kwargs": kw, "fn": fn, "src": src, "dst": dst}))
        bad = None
        if q[0] != "ok":
            bad = str(q)[-500:]
        else:
            out, V, G, w = q[1]
            sp = env.get("sp", 1.0) if sc else 1.0
            sg = [env["s0"]] * 3 if sc == "scalar" else [env[f"s{i}"] for i in range(3)] if sc else [1.0] * 3
            V, G = V * sp, [a * b for a, b in zip(G, sg)]
            want = {POT: [V], GRD: [G], BOTH: [V, G]}[mode]
            if len(want) != len(out):
                bad = f"{len(out)} outputs"
            for o, y in zip(out, want):
                o, y = np.asarray(o), np.asarray(y)
                tol = 1e-8 * (abs(V) if y.ndim == 0 else w * max(map(abs, sg)))
                if o.shape != y.shape or not (np.abs(o - y) <= tol + 1e-300).all():
                    bad = f"{o.tolist()} instead of {y.tolist()}"
        if bad:
            k.violation(f"{name}: {text or 'values'}", {"call": call.describe(env, c.low), "difference": bad})
            return True
        if not text:
            k.validated += 1
            k.cur["witnesses"] += 1
    if text:
        k.undecided(f"{name}: {text}")
    return False
