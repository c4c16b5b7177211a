"""C01 field evaluation equals the spherical-harmonic series"""
import math

import numpy as np

from sym import core, build
from sym.poly import D, DEG, add, scale, decide, const
from sym.harness import Arr, Call, server
from sym.catalog import SPH, POT, GRD, BOTH
from checks import sh
from checks.c02 import field_oracle, LATS
from checks.common import aslist


def run(k):
    degs = list(range(0, 7)) + [17, 18] if k.quick else list(range(0, 19)) + [20]
    k.bound(f"coefficient arrays of the degrees {degs}, requested degrees -1, lower, equal and higher; all "
            "coefficients, all latitudes -90..90 (both poles included), all longitudes, radii 1000..60000 km; "
            "potential, gradient, both; internal and external; all scale factors (scalar and per component); "
            "geocentric spherical coordinates (other frames: C10)")
    k.assume("exact real arithmetic; constants of the code compared up to a relative difference of 1e-11; results "
             "compared up to 1e-9 of the magnitude of the terms (1e-7 for degrees above 16); coordinates within "
             "1e-10 rad of the poles by the limit formula of the code")
    jobs = []
    for n in degs:
        for internal in (True, False):
            modes = (POT, GRD, BOTH) if n < 8 else (BOTH,)
            for mode in modes:
                reqs = [None]
                if n in (0, 2, 3, 5) or (mode == BOTH and n < 8):
                    reqs += [-1, n, n + 1] + [x for x in (0, 1, n - 1) if 0 <= x < n]
                for req in sorted(set(reqs), key=str):
                    for sc in ((None, "scalar", "vector") if n in (1, 3) and req is None else (None,)):
                        jobs.append((f"{n} {internal} {mode} {req} {sc}",
                                     lambda k, n=n, i=internal, m=mode, q=req, s=sc: one(k, n, i, m, q, s)))
    jobs.sort(key=lambda j: -int(j[0].split()[0]))
    # small jobs are bundled
    big = [j for j in jobs if int(j[0].split()[0]) > 6]
    small = [j for j in jobs if int(j[0].split()[0]) <= 6]
    bundles = [small[i::16] for i in range(16)]
    k.parallel(big + [(f"bundle{i}", lambda k, b=b: [f(k) for _, f in b]) for i, b in enumerate(bundles) if b])


def one(k, n, internal, mode, req, sc):
    name = f"sheval[{n},{'int' if internal else 'ext'},mode{mode},degree={req},scale={sc}]"
    nt = (n + 1) * (n + 2) // 2

    def fn(c):
        lat, lon, rad = c.real("lat", -90.0, 90.0), c.real("lon", -360.0, 360.0), c.real("rad", 1000.0, 60000.0)
        R = c.low.ring
        a, b = R.angle("lat", DEG, -math.pi / 2, math.pi / 2), R.angle("lon", DEG)
        x = (lat, lon, rad)
        cf = Arr((nt, 2), lambda ix: c.real(f"g{ix[0]}_{ix[1]}", -10.0, 10.0))
        kw = {"mode": mode}
        if not internal:
            kw["is_internal"] = False
        if req is not None:
            kw["degree"] = req
        if sc:
            kw["scale_potential"] = c.real("sp", -10.0, 10.0)
            kw["scale_gradient"] = c.real("s0", -10.0, 10.0) if sc == "scalar" else \
                Arr((3,), lambda ix: c.real(f"s{ix[0]}", -10.0, 10.0))
        call = Call("pymm", "sheval", Arr((3,), lambda ix: x[ix[0]]), cf, SPH, SPH, **kw)
        return a, b, call, call.sym(build.world("pymm"))
    for p in k.explore(name, fn, "poly"):
        a, b, call, r = p.result
        c, R = p.ctx, p.ctx.low.ring
        r = aslist(r)
        k.validate(c, call, tuple(r) if len(r) > 1 else r[0], ranges=LATS, rtol=1e-7)
        d = n if req is None or req < 0 or req > n else req
        V, G = field_oracle(R, d, a, b, "g", internal)
        want = {POT: [[V]], GRD: [G], BOTH: [[V], G]}[mode]
        if sc:
            G2 = [R.mul(R.v("s0" if sc == "scalar" else f"s{i}"), g) for i, g in enumerate(G)]
            V2 = R.mul(R.v("sp"), V)
            want = {POT: [[V2]], GRD: [G2], BOTH: [[V2], G2]}[mode]
        k.reached(sum(len(w) for w in want))
        pairs, names = [], []
        bad = None
        if len(r) != len(want):
            bad = f"{len(r)} outputs"
        for o, w in zip(r, want):
            if o.dims != (() if len(w) == 1 else (3,)):
                bad = f"shape {o.dims}"
                break
            for i, q in enumerate(w):
                pairs.append((o[()] if len(w) == 1 else o[(i,)], q))
                names.append("potential" if len(w) == 1 else ("north", "east", "up")[i])
        if bad is None:
            x = decide(c, pairs, 1e-9 if n < 16 else 1e-7)
            if x is None:
                k.discharged(len(pairs))
                continue
            bad = f"{names[x[0]]} component differs by {R.show(x[1])}"
        report(k, p, call, n, d, internal, mode, sc, f"{name}: {bad}")


def report(k, p, call, n, d, internal, mode, sc, text):
    nt = (n + 1) * (n + 2) // 2
    for env in k.envs(p.ctx, LATS, tries=80, want=8):
        q = server().call(call, env, p.ctx.low)
        cf = np.array([[env[f"g{i}_{j}"] for j in range(2)] for i in range(nt)])
        V, G = sh.nfield(cf, d, env["lat"], env["lon"], env["rad"], internal)
        if sc:
            V *= env["sp"]
            G = [g * env["s0" if sc == "scalar" else f"s{i}"] for i, g in enumerate(G)]
        want = {POT: [V], GRD: [G], BOTH: [V, G]}[mode]
        diff = None
        if q[0] != "ok":
            diff = str(q)[:500]
        else:
            got = [q[1]] if mode != BOTH else list(q[1])
            for g, w in zip(got, want):
                g, w = np.asarray(g), np.asarray(w)
                if g.shape != w.shape or np.isnan(g).any() or np.abs(g - w).max() > 1e-6 * (np.abs(w).max() or 1.0):
                    diff = f"{g.tolist()} instead of {w.tolist()}"
        if diff:
            k.violation(text, {"call": call.describe(env, p.ctx.low), "difference": diff})
            return
    k.undecided(text)
