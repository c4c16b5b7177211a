"""C06 2D Fourier series are summed exactly over their term range"""
import itertools
import math

import numpy as np

from sym import core, build
from sym.poly import D, DEG, add, scale, decide, const
from sym.program import program
from sym.harness import Arr, Call, server, INT
from sym.catalog import SPH, POT, GRD, BOTH
from checks import sh
from checks.c02 import field_oracle, LATS, scalar, peval
from checks.common import aslist

SCALES = (None, (1.0, 1.0), (0.5, 0.25), (2 * math.pi, 2 * math.pi / 24), (-1.5, 3.0))


def run(k):
    s = 5 if k.quick else 7
    m = 4 if k.quick else 6
    k.bound(f"fourier2d: first terms -{m}..{m} of both series, 1..{s} terms each, coefficient arrays of 0..2 leading "
            "dimensions, default and 4 other pairs of scale factors and symbolic scale factors; all phases and "
            "coefficients; sheval2dfs: term ranges as listed in the harnesses, degrees 1..3, internal and external, "
            "all three modes, with and without scale factors, geocentric spherical coordinates; arrays of 2-3 elements with "
            "partly equal phases in 5 pairs of frames")
    k.assume("exact real arithmetic; results compared up to 1e-9 of the magnitude of the terms; no repeated "
             "degree/order pairs in a set of coefficients")
    combos = []
    for m1, m2 in itertools.product(range(-m, m + 1), repeat=2):
        for n1, n2 in itertools.product(range(1, s + 1), repeat=2):
            if not k.quick or n1 + n2 <= 5 or (n1, n2) in ((s, s), (1, s), (s, 1), (2, 5), (5, 2)):
                combos.append((m1, m2, n1, n2))
    jobs = []
    for i in range(16):
        jobs.append((f"fourier2d {i}", lambda k, i=i: [f2d(k, *c, None, ()) for c in combos[i::16]]))

    def extra(k):
        for j, sc in enumerate(SCALES + ("sym",)):
            for m1, m2, n1, n2 in ((0, 0, 2, 2), (-2, -2, 5, 5), (0, -4, 2, 3), (-1, 2, 3, 1)):
                for lead in ((), (2,), (2, 1)):
                    f2d(k, m1, m2, n1, n2, sc, lead)
    jobs.append(("scales", extra))
    fields = []
    NM = [[(1, 0), (1, 1), (1, -1)], [(2, 1), (2, -2), (1, 0), (2, 0)], [(3, -2), (3, -1), (3, 3)], [(0, 0), (1, 1)],
          [(1, -1)], [(2, -1), (2, 1)]]
    ranges = [(0, 0, 1, 1), (-1, -1, 3, 3), (0, -3, 2, 2), (-2, 1, 1, 2), (1, -2, 2, 4), (-3, 0, 2, 1)]
    for nm, r in zip(itertools.cycle(NM), ranges * 2):
        for internal in (True, False):
            for mode in (POT, GRD, BOTH):
                fields.append((nm, r, internal, mode, None))
    for nm in NM:
        fields.append((nm, (-1, -1, 2, 3), True, BOTH, "scalar"))
        fields.append((nm, (0, -2, 1, 2), False, BOTH, "vector"))
    fields = list(dict.fromkeys((tuple(nm), *x) for nm, *x in fields))
    for i in range(12):
        jobs.append((f"sheval2dfs {i}", lambda k, i=i: [field(k, *f) for f in fields[i::12]]))
    arrays = [(p, mode, fr) for p in ([(0, 0), (0, 1)], [(0, 0), (1, 0)], [(0, 0), (1, 1)], [(0, 1), (1, 1), (1, 0)],
                                      [(0, 0), (0, 1), (0, 0)], [(0, 0), (0, 0)])
              for mode in (POT, GRD, BOTH) for fr in ((1, 1), (0, 1), (1, 2), (2, 2), (0, 0))]
    for i in range(6):
        jobs.append((f"arrays {i}", lambda k, i=i: [several(k, *a) for a in arrays[i::6]]))
    k.parallel(jobs)


def several(k, phases, mode, frames):
    """arrays of phases, some of them equal: every element is the plain evaluation of its own coefficients"""
    def inputs(c):
        t = [[c.real(f"{n}{i}", -20.0, 20.0) for i in range(2)] for n in "tu"]
        for u in t:
            c.assume(u[0] != u[1])
        lon = c.real("lon", -180.0, 180.0)
        x = [c.real(f"x{i}", 3000.0, 7000.0) for i in range(3)] if frames[0] == 2 else \
            [c.real("lat", -89.0, 89.0), lon, c.real("h", 0.0, 1000.0) if frames[0] == 0 else c.real("r", 6000.0, 9000.0)]
        return {"t": [t[0][p[0]] for p in phases], "u": [t[1][p[1]] for p in phases], "x": x, "mode": mode,
                "fr": frames, "cf": [[[[c.real(f"c{i}{j}{l}{q}", -10.0, 10.0) for q in range(2)] for l in range(2)]
                                      for j in range(2)] for i in range(3)]}
    program(k, f"phases {phases} mode {mode} frames {frames}", """
NM = np.array([[1, 0], [1, 1], [1, -1]], dtype="int32")
t, u, cf = np.array(t), np.array(u), np.array(cf)
xs = np.array([x] * len(t))
out = pymm.sheval2dfs(t, u, xs, (cf, NM, -1, 0, 0.5, 0.25), fr[0], fr[1], mode)
out = list(out) if mode == 3 else [out]
result = []
for i in range(len(t)):
    g = [pymm.fourier2d(t[i], u[i], cf[j], -1, 0, 0.5, 0.25) for j in range(3)]
    ref = pymm.sheval(np.array(x), np.array([[0.0, 0.0], [g[0], 0.0], [g[1], g[2]]]), fr[0], fr[1], mode=mode, degree=1)
    ref = list(ref) if mode == 3 else [ref]
    for a, b in zip(out, ref):
        result.append((f"element {i}", a[i], b, 1e5))
    for a in out:
        result.append(("number of elements", np.shape(a)[0], len(t)))
""", inputs, setup="from eoxmagmod import _pymm as pymm")


def series(R, x, y, m1, m2, n1, n2, A):
    """polynomial of the series; x, y: angles of the ring"""
    r = {}
    for i in range(n1):
        c1, s1 = R.multiple(x, m1 + i)
        for j in range(n2):
            c2, s2 = R.multiple(y, m2 + j)
            c, s = R.addangle(c1, s1, c2, s2)
            r = add(r, add(R.mul(A(i, j, 0), c), R.mul(A(i, j, 1), s)))
    return r


def nseries(env, name, x, y, m1, m2, n1, n2, pre=""):
    r = 0.0
    for i in range(n1):
        for j in range(n2):
            p = (m1 + i) * x + (m2 + j) * y
            r += env[f"{name}{pre}{i}_{j}_0"] * math.cos(p) + env[f"{name}{pre}{i}_{j}_1"] * math.sin(p)
    return r


def f2d(k, m1, m2, n1, n2, sc, lead):
    name = f"fourier2d[{m1},{m2},{n1}x{n2},{sc},{lead}]"

    def fn(c):
        t = c.real("t1", -20.0, 20.0), c.real("t2", -20.0, 20.0)
        cf = Arr(lead + (n1, n2, 2), lambda ix: c.real("g" + "_".join(map(str, ix)), -10.0, 10.0))
        ex = sc or ()
        if sc == "sym":
            ex = (c.real("s1", -10.0, 10.0), c.real("s2", -10.0, 10.0))
        call = Call("pymm", "fourier2d", scalar(t[0]), scalar(t[1]), cf, m1, m2, *ex)
        return t, ex, call, call.sym(build.world("pymm"))
    for p in k.explore(name, fn, "poly"):
        t, ex, call, r = p.result
        c, R = p.ctx, p.ctx.low.ring
        ex = ex or (1.0, 1.0)
        k.reached()
        k.validate(c, call, r)
        x, y = (angle(R, t[i], ex[i]) for i in range(2))
        pairs, bad = [], None
        if r.dims != lead:
            bad = f"shape {r.dims}"
        else:
            for ix in np.ndindex(*lead):
                A = lambda i, j, q: R.v("g" + "_".join(map(str, ix + (i, j, q))))
                pairs.append((r[ix], series(R, x, y, m1, m2, n1, n2, A)))
            z = decide(c, pairs)
            if z is None:
                k.discharged()
                continue
            bad = f"result {z[0]} differs by {R.show(z[1])}"
        for env in k.envs(c, tries=20, want=6):
            q = server().call(call, env, c.low)
            s1, s2 = ((env["s1"], env["s2"]) if sc == "sym" else ex)
            want = np.zeros(lead)
            for ix in np.ndindex(*lead):
                want[ix] = nseries(env, "g", s1 * env["t1"], s2 * env["t2"], m1, m2, n1, n2,
                                   "".join(f"{i}_" for i in ix))
            if q[0] != "ok" or np.shape(q[1]) != want.shape or not np.allclose(q[1], want, rtol=1e-7, atol=1e-7):
                k.violation(f"{name}: {bad}", {"call": call.describe(env, c.low), "expected": want.tolist(),
                                               "real": str(q)[:600]})
                return
        k.undecided(f"{name}: {bad}")


class Multi:
    """angle registered in the ring"""


def angle(R, t, s):
    p = R.mul(R(t), R(s))
    (m, q), = p.items()
    for a in R.angles:
        if a.mono == m and abs(a.unit - q) <= abs(q) * D("1e-13"):
            return a
    return R.newangle(m, q, *R.interval(p))


def field(k, nm, rng, internal, mode, sc):
    m1, m2, n1, n2 = rng
    name = f"sheval2dfs[{nm},{rng},{'int' if internal else 'ext'},mode{mode},scale={sc}]"
    n = max(a for a, _ in nm)
    S = (0.5, 0.25)

    def fn(c):
        lat, lon, rad = c.real("lat", -90.0, 90.0), c.real("lon", -360.0, 360.0), c.real("rad", 1000.0, 60000.0)
        t = c.real("t1", -20.0, 20.0), c.real("t2", -20.0, 20.0)
        R = c.low.ring
        a, b = R.angle("lat", DEG, -math.pi / 2, math.pi / 2), R.angle("lon", DEG)
        x = (lat, lon, rad)
        cf = Arr((len(nm), n1, n2, 2), lambda ix: c.real("c" + "_".join(map(str, ix)), -10.0, 10.0))
        kw = {"mode": mode, "is_internal": internal}
        if sc:
            kw["scale_potential"] = c.real("sp", -10.0, 10.0)
            kw["scale_gradient"] = c.real("s0", -10.0, 10.0) if sc == "scalar" else \
                Arr((3,), lambda ix: c.real(f"s{ix[0]}", -10.0, 10.0))
        nma = Arr((len(nm), 2), lambda ix: nm[ix[0]][ix[1]], INT)
        call = Call("pymm", "sheval2dfs", scalar(t[0]), scalar(t[1]), Arr((3,), lambda ix: x[ix[0]]),
                    (cf, nma, m1, m2, *S), SPH, SPH, **kw)
        return a, b, t, call, call.sym(build.world("pymm"))
    for p in k.explore(name, fn, "poly"):
        a, b, t, call, r = p.result
        c, R = p.ctx, p.ctx.low.ring
        r = aslist(r)
        k.validate(c, call, tuple(r) if len(r) > 1 else r[0], ranges=LATS, rtol=1e-7)
        x, y = (angle(R, t[i], S[i]) for i in range(2))
        V, G = field_oracle(R, n, a, b, "g", internal)
        sub = {}
        for j in range((n + 1) * (n + 2) // 2):
            for q in range(2):
                sub[R.atom(f"g{j}_{q}")] = {}
        for i, (dg, o) in enumerate(nm):
            A = lambda u, v, q: R.v(f"c{i}_{u}_{v}_{q}")
            sub[R.atom(f"g{sh.idx(dg, abs(o))}_{int(o < 0)}")] = series(R, x, y, m1, m2, n1, n2, A)
        V, G = R.subst(V, sub), [R.subst(g, sub) for g in G]
        if sc:
            G = [R.mul(R.v("s0" if sc == "scalar" else f"s{i}"), g) for i, g in enumerate(G)]
            V = R.mul(R.v("sp"), V)
        want = {POT: [[V]], GRD: [G], BOTH: [[V], G]}[mode]
        k.reached(sum(len(w) for w in want))
        pairs, names, bad = [], [], None
        if len(r) != len(want):
            bad = f"{len(r)} outputs"
        for o, w in zip(r, want):
            if o.dims != (() if len(w) == 1 else (3,)):
                bad = f"shape {o.dims}"
                break
            for i, q in enumerate(w):
                pairs.append((o[()] if len(w) == 1 else o[(i,)], q))
                names.append("potential" if len(w) == 1 else ("north", "east", "up")[i])
        if bad is None:
            z = decide(c, pairs)
            if z is None:
                k.discharged(len(pairs))
                continue
            bad = f"{names[z[0]]} component differs by {R.show(z[1])}"
        for env in k.envs(c, LATS, tries=40, want=6):
            q = server().call(call, env, c.low)
            cf = np.zeros(((n + 1) * (n + 2) // 2, 2))
            for i, (dg, o) in enumerate(nm):
                cf[sh.idx(dg, abs(o)), int(o < 0)] = nseries(env, "c", S[0] * env["t1"], S[1] * env["t2"],
                                                            m1, m2, n1, n2, f"{i}_")
            V, G = sh.nfield(cf, n, env["lat"], env["lon"], env["rad"], internal)
            if sc:
                V *= env["sp"]
                G = [g * env["s0" if sc == "scalar" else f"s{i}"] for i, g in enumerate(G)]
            want = {POT: [V], GRD: [G], BOTH: [V, G]}[mode]
            diff = None
            if q[0] != "ok":
                diff = str(q)[:500]
            else:
                got = [q[1]] if mode != BOTH else list(q[1])
                for g, w in zip(got, want):
                    g, w = np.asarray(g), np.asarray(w)
                    if g.shape != w.shape or not (np.abs(g - w).max() <= 1e-6 * (np.abs(w).max() or 1.0)):
                        diff = f"{g.tolist()} instead of {w.tolist()}"
            if diff:
                k.violation(f"{name}: {bad}", {"call": call.describe(env, c.low), "difference": diff})
                return
        k.undecided(f"{name}: {bad}")
