"""C05 time-dependent evaluation equals the evaluation of the interpolated coefficients"""
import itertools
import math

import numpy as np

from sym import core, build
from sym.core import fcmp
from sym.poly import D, DEG, add, scale, decide, const
from sym.harness import Arr, Call, server, INT
from sym.catalog import SPH, POT, GRD, BOTH
from checks import sh
from checks.c02 import field_oracle, scalar
from checks.common import aslist

RANGES = {"lat": lambda rng, k: (90.0, -90.0, 0.0)[k] if k < 3 else round(rng.uniform(-80, 80), 3)}
RANGES["v"] = (-12.0, -8.0)
RANGES["t"] = lambda rng, k: round(rng.choice([rng.uniform(-20, 20), rng.uniform(-13, -5), rng.uniform(-14, 3)]), 2)


def run(k):
    nmax = 4 if k.quick else 6
    k.bound(f"1..3 sets of coefficients with 1..{nmax} (piecewise constant) and 2..{nmax} (piecewise linear) nodes, "
            "degree/order lists of the harnesses (repeated within a set, shared by sets, both signs, degrees to 3); "
            "all node times (distances 0.25..8 units), coefficients, times (below, at, between, above the nodes), positions, internal and external, "
            "all modes, with and without scale factors; shapes of times and positions: scalar time and one position, "
            "(2), (3), (2,2) times with fewer, as many or more leading dimensions of the positions; times in any order "
            "and with repetitions; geocentric spherical coordinates")
    k.assume("exact real arithmetic; results compared up to 1e-9 of the magnitude of the terms; array cases for "
             "latitudes -80..80 and order <= 2 nodes")
    jobs = []
    A = [(1, 0), (1, 1), (1, -1)]
    B = [(2, -2), (1, 0), (2, 1)]
    C = [(3, 3), (0, 0), (3, -1)]
    R = [(1, 0), (2, -1), (1, 0), (2, -1), (2, 1)]        # repeated entries
    single = []
    for n in range(1, nmax + 1):
        single.append(([(A, n, 1)], BOTH, True))
        single.append(([(C, n, 1)], GRD, False))
        if n > 1:
            single.append(([(A, n, 2)], BOTH, True))
            single.append(([(B, n, 2)], BOTH, False))
            single.append(([(C, n, 2)], POT, True))
    for (n1, o1), (n2, o2) in itertools.product([(1, 1), (2, 1), (2, 2), (3, 2)], repeat=2):
        single.append(([(A, n1, o1), (B, n2, o2)], BOTH, n1 == n2))
    single.append(([(R, 2, 2)], BOTH, True))
    single.append(([(R, 2, 1), (A, 2, 2)], GRD, True))
    single.append(([(A, 2, 2), (A, 2, 1), (B, 1, 1)], BOTH, True))
    single.append(([(B, 2, 2), ([(0, 0)], 1, 1), ([(1, -1)], 3, 2)], BOTH, False))
    single.append(([(B, 1, 1), (C, 2, 2), (B, 2, 2)], POT, False))
    for s, mode, internal in single:
        for sc in (None, "scalar", "vector") if (mode, internal) == (BOTH, True) and len(s) == 2 else (None,):
            jobs.append((str(s), lambda k, s=s, m=mode, i=internal, q=sc: value(k, s, m, i, q, (), ())))
    shapes = [((2,), ()), ((2,), (2,)), ((), (2,)), ((2,), (2, 2)), ((2, 2), (2,)), ((3,), (3,)), ((1, 2), ()),
              ((2, 1), (2, 1)), ((), (2, 1)), ((0,), ()), ((2,), (2, 0))]
    if not k.quick:
        shapes += [((4,), (4,)), ((3,), ()), ((2, 2), (2, 2)), ((2,), (2, 1, 2))]
    T3 = [((3,), (3,), r) for r in (("a", "b", "a"), ("a", "a", "b"), ("a", "b", "b"), ("a", "a", "a"))] + \
        [((2, 2), (2,), ("a", "b", "a", "b"))]
    two = [([(1, 0), (1, -1)], 1, 1), ([(1, 0), (2, -2)], 2, 1)]
    for ts, xs, rep in [(t, x, None) for t, x in shapes] + T3:
        nt = len(set(rep)) if rep else int(np.prod(ts)) if ts else 1
        for s in ([(A[:2], 2, 2)], two, [([(1, -1)], 2, 2), ([(1, -1)], 3, 1)]):
            if nt > 2 and s is not two and len(s) > 1 and k.quick:
                continue
            for mode in (POT, GRD, BOTH):
                if nt > 2 and mode != BOTH and len(s) > 1:
                    continue
                jobs.append((f"{ts}{xs}{s}", lambda k, s=s, m=mode, t=ts, x=xs, r=rep: value(k, s, m, True, None, t, x, r)))
    k.parallel([(f"bundle{i}", lambda k, b=jobs[i::24]: [f(k) for _, f in b]) for i in range(24)])


def interval(c, t, v):
    """index of the last node not above t (clipped to 0), decided by the path"""
    i = 0
    for j in range(1, len(v)):
        if c.branch(fcmp("oge", t, v[j])):
            i = j
        else:
            break
    return i


def series(R, i, t, v, g, order):
    """interpolated coefficient; g: names of the values by node"""
    if order == 1:
        return R.v(g(i))
    i = min(i, len(v) - 2)
    T, a, b = R(t), R(v[i]), R(v[i + 1])
    num = add(R.mul(R.v(g(i)), add(b, T, -1)), R.mul(R.v(g(i + 1)), add(T, a, -1)))
    return R.div(num, add(b, a, -1))


def ninterp(x, v, g, order):
    i = 0
    for j in range(1, len(v)):
        if x >= v[j]:
            i = j
    if order == 1:
        return g[i]
    i = min(i, len(v) - 2)
    return g[i] + (g[i + 1] - g[i]) * (x - v[i]) / (v[i + 1] - v[i])


def value(k, sets, mode, internal, sc, ts, xs, rep=None):
    desc = "+".join(f"{len(nm)}coef x {n}nodes order {o}" for nm, n, o in sets)
    name = f"shevaltemp[{desc},{'int' if internal else 'ext'},mode{mode},scale={sc},t{list(ts)},x{list(xs)}{' times ' + ','.join(rep) if rep else ''}]"
    tnm = lambda ix: rep[list(np.ndindex(*ts)).index(ix)] if rep else nm_of("t", ix)
    n = max(d for nm, _, _ in sets for d, _ in nm)
    shape = ts if len(ts) > len(xs) else xs
    lim = 90.0 if not shape else 80.0
    nm_of = lambda p, ix: p + "".join(f"_{i}" for i in ix)

    def fn(c):
        R = c.low.ring
        angles = {}

        def pos(ix):
            lat, lon = c.real(nm_of("lat", ix), -lim, lim), c.real(nm_of("lon", ix), -360.0, 360.0)
            rad = c.real(nm_of("rad", ix), 1000.0, 60000.0)
            l = math.radians(lim)
            angles[ix] = (R.angle(nm_of("lat", ix), DEG, -l, l), R.angle(nm_of("lon", ix), DEG))
            return lat, lon, rad
        xv = {ix: pos(ix) for ix in np.ndindex(*xs)}
        xl = list(xv.values())
        for a, b in zip(xl, xl[1:]):      # coincidences of coordinates: C03
            for u, v in zip(a, b):
                c.assume(fcmp("olt", u, v))
        # repeated times are the same symbol, the others differ
        tname = dict(zip(np.ndindex(*ts), rep)) if rep else {ix: nm_of("t", ix) for ix in np.ndindex(*ts)}
        t = {ix: c.real(nm, -50.0, 50.0) for ix, nm in tname.items()}
        tl = [c.real(nm) for nm in dict.fromkeys(tname.values())]
        for a, b in itertools.combinations(tl, 2):
            c.assume(fcmp("one", a, b))
        nodes, lst = [], []
        for s, (nm, nn, o) in enumerate(sets):
            v = [c.real(f"v{s}_0", -20.0, 20.0)]
            for i in range(1, nn):
                v.append(core.fadd(v[-1], c.real(f"d{s}_{i}", 0.25, 8.0)))
            nodes.append(v)
            lst.append((Arr((nn,), lambda ix, v=v: v[ix[0]]),
                        Arr((len(nm), nn), lambda ix, s=s: c.real(f"q{s}_{ix[0]}_{ix[1]}", -10.0, 10.0)),
                        Arr((len(nm), 2), lambda ix, nm=nm: nm[ix[0]][ix[1]], INT), o))
        kw = {"mode": mode, "is_internal": internal}
        if sc:
            kw["scale_potential"] = c.real("sp", -10.0, 10.0)
            kw["scale_gradient"] = c.real("s0", -10.0, 10.0) if sc == "scalar" else \
                Arr((3,), lambda ix: c.real(f"s{ix[0]}", -10.0, 10.0))
        call = Call("pymm", "shevaltemp", Arr(ts, lambda ix: t[ix]), Arr(xs + (3,), lambda ix: xv[ix[:-1]][ix[-1]]),
                    lst, SPH, SPH, **kw)
        r = call.sym(build.world("pymm"))
        ivl = {ix: [interval(c, t[ix], v) for v in nodes] for ix in t}
        return angles, t, nodes, ivl, call, r
    thin = 0
    for p in k.explore(name, fn, "poly"):
        angles, t, nodes, ivl, call, r = p.result
        c, R = p.ctx, p.ctx.low.ring
        r = aslist(r)
        thin += 1
        if thin < 4 or thin % 8 == 0:
            k.validate(c, call, tuple(r) if len(r) > 1 else r[0], ranges=RANGES, rtol=1e-7)
        # oracle
        coefs = {}
        for ix in t:
            g = {}
            for s, (nm, nn, o) in enumerate(sets):
                for i, (d, m) in enumerate(nm):
                    a = R.atom(f"g{sh.idx(d, abs(m))}_{int(m < 0)}")
                    g[a] = add(g.get(a, {}), series(R, ivl[ix][s], t[ix], nodes[s], lambda q: f"q{s}_{i}_{q}", o))
            coefs[ix] = g
        allg = {R.atom(f"g{j}_{q}"): {} for j in range((n + 1) * (n + 2) // 2) for q in range(2)}
        field = {ix: field_oracle(R, n, a, b, "g", internal, nm_of("rad", ix)) for ix, (a, b) in angles.items()}
        fl, ft = [], []
        for ix in np.ndindex(*shape):
            V, G = field[ix[:len(xs)]]
            sub = {**allg, **coefs[ix[:len(ts)]]}
            V, G = R.subst(V, sub), [R.subst(g, sub) for g in G]
            if sc:
                G = [R.mul(R.v("s0" if sc == "scalar" else f"s{i}"), g) for i, g in enumerate(G)]
                V = R.mul(R.v("sp"), V)
            fl.append((ix, V, G))
        pairs, names, bad = [], [], None
        outs = {POT: ["V"], GRD: ["G"], BOTH: ["V", "G"]}[mode]
        k.reached(max(1, len(fl)) * (1 if mode == POT else 3 if mode == GRD else 4))
        if len(r) != len(outs):
            bad = f"{len(r)} outputs"
        for o, w in zip(r, outs):
            if o.dims != shape + (() if w == "V" else (3,)):
                bad = f"shape {o.dims}"
                break
            for ix, V, G in fl:
                if w == "V":
                    pairs.append((o[ix], V))
                    names.append(f"potential at {ix}")
                else:
                    pairs += [(o[ix + (i,)], G[i]) for i in range(3)]
                    names += [f"{q} at {ix}" for q in ("north", "east", "up")]
        if bad is None:
            z = decide(c, pairs)
            if z is None:
                k.discharged(max(1, len(fl)) * (1 if mode == POT else 3 if mode == GRD else 4))
                continue
            bad = f"{names[z[0]]} differs by {R.show(z[1], 4)}"
        if report(k, c, call, sets, n, mode, internal, sc, ts, xs, shape, nm_of, tnm, f"{name}: {bad}"):
            return


def report(k, c, call, sets, n, mode, internal, sc, ts, xs, shape, nm_of, tnm, text):
    for env in k.envs(c, RANGES, tries=80, want=6):
        q = server().call(call, env, c.low)
        W = [np.zeros(shape), np.zeros(shape + (3,))]
        for ix in np.ndindex(*shape):
            cf = np.zeros(((n + 1) * (n + 2) // 2, 2))
            time = env[tnm(ix[:len(ts)])]
            for s, (nm, nn, o) in enumerate(sets):
                v = [env[f"v{s}_0"]]
                for i in range(1, nn):
                    v.append(v[-1] + env[f"d{s}_{i}"])
                for i, (d, m) in enumerate(nm):
                    cf[sh.idx(d, abs(m)), int(m < 0)] += ninterp(time, v, [env[f"q{s}_{i}_{j}"] for j in range(nn)], o)
            y = ix[:len(xs)]
            V, G = sh.nfield(cf, n, *(env[nm_of(a, y)] for a in ("lat", "lon", "rad")), internal)
            W[0][ix] = V * (env["sp"] if sc else 1.0)
            W[1][ix] = [g * (env["s0" if sc == "scalar" else f"s{i}"] if sc else 1.0) for i, g in enumerate(G)]
        want = {POT: W[:1], GRD: W[1:], BOTH: W}[mode]
        diff = None
        if q[0] != "ok":
            diff = str(q)[:500]
        else:
            got = [q[1]] if mode != BOTH else list(q[1])
            for g, w in zip(got, want):
                g = np.asarray(g)
                if g.shape != w.shape:
                    diff = f"shape {g.shape} instead of {w.shape}"
                elif g.size and not (np.abs(g - w).max() <= 1e-6 * (np.abs(w).max() or 1.0)):
                    diff = f"{g.tolist()} instead of {w.tolist()}"
        if diff:
            k.violation(text, {"call": call.describe(env, c.low), "difference": diff})
            return True
    k.undecided(text)
    return False
