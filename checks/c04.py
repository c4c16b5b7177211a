"""C04 results depend on the values and shapes of the arguments only, not on their memory layout"""
import numpy as np

from sym import core, build, catalog
from sym.core import fcmp, T
from sym.catalog import Arr
from sym.harness import Call, num, server, Result
from sym.program import program
from checks.c20 import DEF
from checks.common import aslist, differs, ieq_real, Thin

LAYOUTS = ("F", "step", "rev", "mid", "col", "bcast", "bcastlast")


def run(k):
    k.bound("shapes (), (1), (3), (2,2), (2,1,2), (0), (2,0), (0,2) of per-element arguments; layouts C, Fortran, "
            "every second element along all axes, all axes reversed, rolled axes, column slices, zero strides (first, "
            "last axis) for every single argument and for all of them together (reduced set of layouts with fewer leading dimensions); every combination of leading "
            "dimensions of the arguments up to two; nested lists and plain numbers instead of arrays")
    k.bound("along the paths of 2 generic witnesses per call (all values following the same decisions); "
            "the other paths are covered by C03 for C-ordered arguments")
    k.assume("distinct elements are distinct, increasing values (coincidences are covered by C03); finite inputs; "
             "floating-point operations are uninterpreted functions, equality is bit-exact")
    jobs = []
    for e in catalog.entries():
        jobs.append((e.name, lambda k, e=e: layouts(k, e)))
    jobs.sort(key=lambda j: -len(next(e for e in catalog.entries() if e.name == j[0]).params))
    k.bound("models (spherical harmonic, linear in time; composed; ionospheric): times and locations of 6 rank combinations, layouts C, Fortran, "
            "column, reversed, zero strides, list of either and both arrays, any values "
            "(ionospheric: fixed positions and sub-solar point)")
    k.parallel(jobs + [(f"models {kind}", lambda k, kind=kind: models(k, kind)) for kind in MODELS])


MODELS = {
    "linear": "SH(linear(g[:3], g[3:], 0.0, 10.0)[0])",
    "composed": "summed(SH(linear(g[:3], g[3:], 0.0, 10.0)[0]), SH(const(g[3:], (0.0, 10.0))[0]))",
    "mio": "mio(g, (78.0, -72.0), 0.015, validity_start=0.0, validity_end=10.0)[0]",
}
LAID = """
from eoxmagmod.magnetic_model.model_composed import ComposedGeomagneticModel as Sum
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel as SH
def summed(a, b):
    m = Sum()
    m.push(a, 1.0)
    m.push(b, -2.0)
    return m
def column(a):
    b = np.full(a.shape + (2,), 0.125)
    b[..., 1] = a
    return b[..., 1]
def second(a):
    b = np.full((2 * a.shape[0],) + a.shape[1:], 0.125)
    b[::2] = a
    return b[::2]
LAY = {
    "C": lambda a: np.array(a), "F": lambda a: np.array(a, order="F"), "column": column,
    "second": lambda a: second(a) if a.ndim else a, "reversed": lambda a: np.array(a[::-1])[::-1] if a.ndim else a,
    "list": lambda a: a.tolist() if a.ndim else a,
}
"""
RANKS = (((2,), ()), ((2,), (2,)), ((2,), (2, 2)), ((2, 2), (2,)), ((2, 2), (2, 2)), ((2,), (2, 1, 2)), ((), (2,)))


def nested(f, dims, ix=()):
    return f(ix) if not dims else [nested(f, dims[1:], ix + (i,)) for i in range(dims[0])]


def models(k, kind):
    for st, sx in RANKS:
        pairs = [(a, "C") for a in ("F", "column", "second", "reversed", "list")] + [("C", a) for a in ("F", "column", "second", "reversed", "list")] + \
            [("column", "column"), ("reversed", "F")]
        if kind == "mio":
            pairs = [("column", "C"), ("reversed", "F")]
        if not st:
            pairs = [x for x in pairs if x[0] == "C"]
        if not sx:
            pairs = [x for x in pairs if x[1] in ("C", "column", "list")]

        def inputs(c):
            ts = []

            def time(ix):
                ts.append(c.real("t" + "".join(map(str, ix)), 0.5 + 0.5 * len(ts), 0.9 + 0.5 * len(ts)))
                return ts[-1]
            n = []

            def position(ix):
                # distinct positions (coincidences: C03)
                i = len(n)
                n.append(1)
                if kind == "mio":
                    return [-60.0 + 30.0 * i, -130.0 + 70.0 * i, 6200.0 + 500.0 * i]
                return [c.real(f"x{i}", -70.0 + 30 * i, -45.0 + 30 * i), c.real(f"y{i}", -160.0 + 70 * i, -100.0 + 70 * i),
                        c.real(f"z{i}", 6000.0 + 500 * i, 6400.0 + 500 * i)]
            return {"extra": {"lat_sol": 12.0, "lon_sol": -30.0} if kind == "mio" else {}, "g": [c.real(f"g{i}", -6e4, 6e4) for i in range(6)], "t": nested(time, st),
                    "x": nested(position, sx)}
        program(k, f"{kind} times {st} locations {sx}", """
model = %s
t, x = np.array(t), np.array(x)
sh = t.shape if t.ndim >= x.ndim - 1 else x.shape[:-1]
want = {ix: model.eval(np.array(t[ix[:t.ndim]]), np.array(x[ix[:x.ndim - 1]]), **extra) for ix in np.ndindex(*sh)}
result = []
for a, b in %r:
    u, v = LAY[a](t), LAY[b](x)
    got = model.eval(u, v, **extra)
    result.append((f"{a} {b} shape", list(np.shape(got)), list(sh) + [3]))
    for ix in want:
        result.append((f"{a} {b} {ix}", got[ix], want[ix], 1e5))
    result.append((f"{a} {b} time is not modified", np.array(u), t))
    result.append((f"{a} {b} location is not modified", np.array(v), x))
""" % (MODELS[kind], pairs), inputs, setup=DEF + LAID, rtol=1e-9)


def call_arrays(call):
    out = []

    def rec(v, path):
        if isinstance(v, Arr):
            out.append((path, v))
        elif isinstance(v, (tuple, list)):
            for i, x in enumerate(v):
                rec(x, path + (i,))
    for i, a in enumerate(call.args):
        rec(a, (i,))
    for n, a in call.kw.items():
        rec(a, (n,))
    return out


def with_layout(call, path, lo):
    """copy of a call with another layout of one array argument (None: of every one)"""
    def rec(v, p):
        if isinstance(v, Arr) and (path is None or p == path):
            if lo == "list":
                return tolist(v)
            return Arr(v.dims, v.vals, v.typenum, lo)
        if isinstance(v, (tuple, list)):
            return type(v)(rec(x, p + (i,)) for i, x in enumerate(v))
        return v
    return Call(call.mod, call.fn, *[rec(a, (i,)) for i, a in enumerate(call.args)],
                **{n: rec(a, (n,)) for n, a in call.kw.items()})


def tolist(a):
    def nest(ix):
        if len(ix) == len(a.dims):
            return a.vals[ix]
        return [nest(ix + (i,)) for i in range(a.dims[len(ix)])]
    return nest(())


def usable(lo, dims, vals):
    if 0 in dims or not dims:
        return lo in ("F",)
    if lo == "F":
        return len(dims) > 1
    if lo == "mid":
        return len(dims) > 2
    if lo == "bcast":
        return all(v is vals[(0,) + ix[1:]] or v == vals[(0,) + ix[1:]] for ix, v in vals.items()) if dims[0] > 1 else True
    if lo == "bcastlast":
        return dims[-1] == 1
    return True


def layouts(k, e):
    n1 = [()] if not e.minlead else []
    shapes = n1 + [(1,), (3,), (2, 2), (2, 1, 2)]
    if e.mod != "pymm" or e.heavy:
        shapes = n1 + [(2,), (2, 1), (1, 2)]
        if e.fn in ("sheval", "sphargrd", "spharpot", "sunpos", "vrot_sph2cart"):
            shapes.append((2, 2))
    for shape in shapes:
        leads = [None]
        if len(e.params) > 1 and e.nested and shape and len(shape) <= 2:
            import itertools
            opts = ([0, len(shape)] if e.full else range(len(shape) + 1))
            combos = [dict(zip([p.name for p in e.params], x))
                      for x in itertools.product(opts, repeat=len(e.params)) if max(x) == len(shape)]
            if len(combos) > 12:
                combos = [x for x in combos if sum(v != len(shape) for v in x.values()) <= 1
                          or sum(v != len(shape) for v in x.values()) == len(x) - 1]
            leads = combos
        for lead in leads:
            one(k, e, shape, lead)
    for shape in ((0,), (2, 0), (0, 2)):
        empty(k, e, shape)


def one(k, e, shape, lead):
    name = f"{e.name} {shape}" + (f" leading {tuple(lead.values())}" if lead else "")

    def fn(c):
        sh = e.shared(c)
        # arguments with fewer leading dimensions
        call = e.batch(c, shape, sh, lead=lead)
        singles = {ix: e.single(c, ix, sh, lead=lead) for ix in np.ndindex(*shape)}
        # distinct increasing values of every component
        for p in e.params:
            n = len(shape) if lead is None else lead.get(p.name, len(shape))
            if p.name in ("coef", "lp", "ldp", "rrp", "lcs", "arr"):
                continue
            for t in np.ndindex(*p.tail):
                get = e.values(c, p.name)
                v = [get(ix, t) for ix in np.ndindex(*shape[:n])]
                for a, b in zip(v, v[1:]):
                    c.assume(fcmp("olt", a, b))
        fresh = {ix: aslist(s.sym(build.world(e.mod))) for ix, s in singles.items()}
        runs = [("C", call)]
        arrs = call_arrays(call)
        for path, a in arrs:
            for lo in (LAYOUTS if lead is None else ("F", "rev", "col")):
                if usable(lo, a.dims, a.vals):
                    runs.append((f"argument {path} {lo}", with_layout(call, path, lo)))
            if a.typenum == catalog.DOUBLE and 0 not in a.dims and lead is None:
                runs.append((f"argument {path} as list", with_layout(call, path, "list")))
        for lo in ("F", "step", "rev"):
            if all(usable(lo, a.dims, a.vals) or not a.dims or (lo == "F") for _, a in arrs):
                runs.append((f"all arguments {lo}", with_layout(call, None, lo)))
        # zero strides: all elements of the argument equal along its first axis
        extra = []
        for p in e.params:
            n = len(shape) if lead is None else lead.get(p.name, len(shape))
            if n and shape[0] > 1:
                get = e.values(c, p.name)
                vals = {p.name: lambda ix, t, get=get: get((0,) + ix[1:], t)}
                b = e.batch(c, shape, sh, lead=lead, vals=vals, layouts={p.name: "bcast"})
                s = {ix: e.single(c, ix, sh, lead=lead, vals=vals) for ix in np.ndindex(*shape)}
                extra.append((f"zero strides of {p.name}", b, s))
        out = []
        for what, cl in runs:
            W = build.world(e.mod)
            before = len(c.events)
            c.running = (what, cl, singles)
            r = aslist(cl.sym(W))
            out.append((what, cl, r, modified(W, c), singles, fresh))
            if len(c.events) > before:
                break
        for what, cl, s in extra:
            W = build.world(e.mod)
            c.running = (what, cl, s)
            r = aslist(cl.sym(W))
            fr = {ix: aslist(x.sym(build.world(e.mod))) for ix, x in s.items()}
            out.append((what, cl, r, modified(W, c), s, fr))
        return out
    thin = Thin(1, 1000)

    def on_event(path):
        ev = path.ctx.events[0]
        mem_event(k, path, e, shape, lead, f"{name}: {ev}")
    for p in k.explore(name, fn, "ord", on_event=on_event, guides=[guide(i) for i in range(2)]):
        if p.ctx.events:
            continue
        c = p.ctx
        v = thin()
        for q, (what, call, r, mod, singles, fresh) in enumerate(p.result):
            text = f"{name}, {what}"
            if v and q < 12:
                k.validate(c, call, tuple(r) if len(r) > 1 else r[0])
            k.reached()
            if mod:
                replay(k, p, call, singles, shape, f"{text}: input modified")
            else:
                k.discharged()
            done = False
            for o in range(len(r)):
                tail = e.outs({})[o]
                k.reached()
                if r[o].dims != shape + tail:
                    replay(k, p, call, singles, shape, f"{text}: output of shape {r[o].dims}")
                    break
                k.discharged()
                for ix in np.ndindex(*shape):
                    for t, x in fresh[ix][o].items():
                        k.reached()
                        m = differs(c, r[o][ix + t], x)
                        if m is None:
                            k.discharged()
                        elif m == "unknown":
                            k.undecided(f"{text}: solver undecided")
                        elif not done:
                            done = True
                            replay(k, p, call, singles, shape,
                                   f"{text}: output {o} at {list(ix + t)} is not the value of that element")


def guide(seed):
    """generic values: distinct and increasing with the index for every component"""
    cnt = {}

    def g(name, lo, hi):
        key = name.split("_")[0].rstrip("0123456789") + "." + name.partition(".")[2]
        n = cnt[key] = cnt.get(key, 0) + 1
        f = 1.0 - (0.93 - 0.04 * seed) ** n
        return round(lo + (hi - lo) * f, 6)
    return g


def modified(W, c):
    """did the call write to one of its input arrays?"""
    return W.modified_inputs()


def empty(k, e, shape):
    name = f"{e.name} empty {shape}"

    def fn(c):
        sh = e.shared(c)
        call = e.batch(c, shape, sh)
        return call, aslist(call.sym(build.world(e.mod)))

    def on_event(path):
        k.undecided(f"{name}: {path.ctx.events[0]}")
    for p in k.explore(name, fn, "ord", on_event=on_event, guides=[guide(0)]):
        if p.ctx.events:
            continue
        call, r = p.result
        k.reached()
        k.validate(p.ctx, call, tuple(r) if len(r) > 1 else r[0])
        if all(r[o].dims == shape + e.outs({})[o] for o in range(len(r))):
            k.discharged()
        else:
            replay(k, p, call, {}, shape, f"{name}: output of shapes {[x.dims for x in r]}",
                   [shape + t for t in e.outs({})])
        break


def mem_event(k, p, e, shape, lead, text):
    what, call, singles = getattr(p.ctx, "running", (None, None, None))
    if call is None:
        return k.undecided(text + " (memory event; see C11)")
    replay(k, p, call, singles, shape, f"{text}, {what}")


def replay(k, p, call, singles, shape, text, shapes=None):
    code = """
import numpy as np, importlib
def go(c):
    f = getattr(importlib.import_module('eoxmagmod.' + c[0]), c[1])
    a, kw = dec(c[2]), dec(c[3])
    arrs = []
    def col(v):
        if isinstance(v, np.ndarray): arrs.append((v, v.copy()))
        elif isinstance(v, (tuple, list)):
            for x in v: col(x)
    col(a); col(list(kw.values()))
    r = f(*a, **kw)
    bad = any(not np.array_equal(x, y, equal_nan=True) for x, y in arrs)
    return [np.array(x) for x in r] if isinstance(r, tuple) else [np.array(r)], bad
result = (go(batch), [(ix, go(c)) for ix, c in singles])
"""
    envs = list(k.envs(p.ctx, {}, tries=60, want=2))
    for env in envs:
        low = p.ctx.low
        # descriptions are decoded inside of the worker
        b = call.wire(env, low)
        s = [(ix, x.wire(env, low)) for ix, x in singles.items()]
        r = server().request(("exec", code, {"batch": Raw(b), "singles": [(ix, Raw(x)) for ix, x in s]}))
        data = {"inputs": env, "call": call.describe(env, low)}
        if r[0] != "ok":
            data["real"] = str(r)[:800]
            k.violation(f"{text}; real build: {r[:2]}", data)
            return
        (out, bad), sing = r[1]
        if bad:
            k.violation(f"{text}; real build: an input array is modified", data)
            return
        if shapes is not None:
            if [tuple(x.shape) for x in out] != shapes:
                k.violation(f"{text}; real build: shapes {[x.shape for x in out]}", data)
                return
            continue
        for ix, (so, sbad) in sing:
            for o in range(len(out)):
                try:
                    d = ieq_real(out[o][tuple(ix)], so[o])
                except IndexError:
                    d = f"output of shape {out[o].shape}"
                if d:
                    data.update(element=ix, output=o, difference=d)
                    k.violation(f"{text}; real build: element {list(ix)}: {d}", data)
                    return
    k.undecided(text)


def Raw(x):
    return ("__raw__", x)
