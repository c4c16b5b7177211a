"""C11 compiled functions: memory safety, release of temporaries, rejection of inconsistent arguments"""
import itertools
import math
import os

from sym import build, capi, core, harness, memory, qd
from sym.core import SI, UNDEF
from sym.harness import Arr, Call, DOUBLE, INT

GEOD, SPH, CART = 0, 1, 2
LIMIT = 1 << 27
NAN, INF = math.nan, math.inf
TOP = 2 ** 31 - 1
APEX = os.path.join(build.REPO, build.EXT_DIR, "data", "apexsh_1980-2030.txt")


class Expect:
    """what has to happen: ok with the given output shapes, ValueError, or (None) any outcome"""

    def __init__(self, ok, shapes=None, why="", large=False):
        self.ok, self.shapes, self.why, self.large = ok, shapes, why, large


def bad(why):
    return Expect(False, None, why)


def ok(*shapes, large=False):
    return Expect(True, list(shapes), "", large)


ANY = Expect(None)


def value(ix, k=0, lo=-60.0, hi=60.0):
    """plain numbers of the arrays whose values do not matter here"""
    h = 7 + 13 * k
    for i in ix:
        h = (h * 31 + 17 * i + 5) % 1009
    return lo + (hi - lo) * (h + 0.5) / 1009.0


def arr(dims, k=0, lo=-60.0, hi=60.0, layout="C", typenum=DOUBLE):
    return Arr(dims, lambda ix: value(ix, k, lo, hi), typenum, layout)


def coords(dims, layout="C"):
    """coordinates which make sense in all three frames"""
    return Arr(dims, lambda ix: (value(ix, 1, -80.0, 80.0), value(ix, 2, -180.0, 180.0),
                                 value(ix, 3, 6500.0, 9000.0))[min(ix[-1], 2)] if ix else 1.0, DOUBLE, layout)


def prefix(*leads):
    """longest of the leading shapes when the others are its beginnings, else None"""
    m = max(leads, key=len)
    return m if all(m[:len(x)] == x for x in leads) else None


def degree_of(nt):
    n = -1
    while (n + 2) * (n + 3) // 2 <= nt:
        n += 1
    return n


LEADS = [(), (0,), (1,), (2,), (3,), (2, 3), (2, 0), (0, 2), (2, 1, 2)]
LAYOUTS = ("C", "rev", "step", "F")


# ---------------------------------------------------------------------------------------------
# arguments of the entry points

SHEVAL_X = [[(3,), (4,), ()], [(2, 3), (0,), (2,)], [(2, 2, 3), (3, 2), (2, 1)], [(0, 3), (3, 3), (2, 0, 3)]]


def g_sheval(c, part):
    mode, d, sc, lay, ci, co = 3, -1, None, "C", 0, 0
    x, cf = (2, 3), (3, 2)
    if part in range(4):
        x = c.choose("x", SHEVAL_X[part])
        cf = c.choose("coef", [(n, 2) for n in (1, 0, 2, 3, 5, 6)] + [(2, 3, 2), (2, 2, 1, 2), (3, 3, 2), (0, 3, 2), (3, 3), (3, 1),
                                                                     (2,), (), (2, 3, 1), (3, 0)])
        mode, d = c.int("mode", -1, 5), c.int("degree", -3, 4)
        ci, co = c.choose("frames", [(0, 0), (1, 2), (2, 1)])
    elif part == "frames":
        x, cf = c.choose("x", [(3,), (2, 3)]), c.choose("coef", [(3, 2), (2, 3, 2)])
        mode = c.choose("mode", (3, 1, 2))
        ci, co = c.int("ct_in", -2, 4), c.int("ct_out", -2, 4)
    else:
        x, cf = c.choose("x", [(3,), (2, 3), (4,)]), c.choose("coef", [(3, 2), (2, 3, 2)])
        mode, d = c.choose("mode", (3, 2)), c.choose("degree", (-1, 0, 1))
        sc, lay = c.choose("scale", [None, (), (3,), (2,), (0,), (4,), (1, 3), (3, 1)]), c.choose("layout", LAYOUTS)
    kw = {} if sc is None else {"scale_gradient": arr(sc, 9)}
    call = Call("pymm", "sheval", coords(x, lay), arr(cf, 4, layout=lay), ci, co, mode, c.choose("int", (True, False)),
                d, 1.5, **kw)

    def expect():
        m, i, o = num(c, mode), num(c, ci), num(c, co)
        if m not in (1, 2, 3):
            return bad("invalid mode")
        if i not in (0, 1, 2) or o not in (0, 1, 2):
            return bad("invalid coordinate type")
        if len(x) < 1 or len(cf) < 2:
            return bad("too few dimensions")
        if cf[-1] != 2 or cf[-2] < 1:
            return bad("coefficient array is not a non-empty list of pairs")
        if x[-1] != 3:
            return bad("coordinates without three components")
        if sc not in (None, (), (3,)):
            return bad("wrong number of scale factors")
        lead = prefix(x[:-1], cf[:-2])
        if lead is None:
            return bad("shapes do not match")
        s = [lead] * (m & 1) + [lead + (3,)] * (m >> 1)
        return ok(*s)
    return call, expect


def num(c, v):
    return c.concretize(v) if isinstance(v, SI) else v


def nm_values(c, n, wild):
    """degree and order pairs: arbitrary integers or a valid list"""
    if not wild:
        return [[(1, 0), (1, -1), (2, 2)][i % 3] for i in range(n)]
    kind = c.choose("nmkind", ("small", "large degree", "large order")) if wild == "large" else "small"
    out = []
    for i in range(n):
        if i == 0:
            if kind == "small":
                p = (c.int("n0", -2, 2), c.int("m0", -3, 3))
            elif kind == "large degree":
                p = (c.choose("n0", (1 << 14, 46340, 65534, 65535, TOP, -TOP - 1)), c.choose("m0", (0, 1, -1)))
            else:
                p = (c.choose("n0", (0, 2)), c.choose("m0", (TOP, -TOP, -TOP - 1, 1 << 16, -(1 << 16))))
        else:
            p = [(1, 0), (1, -1), (2, 2)][i % 3]
        out.append(p)
    return out


def check_nm(c, nm):
    big = False
    for n, m in nm:
        n, m = num(c, n), num(c, m)
        if n < 0 or abs(m) > n:
            return f"degree {n} and order {m}", False
        big |= n > 1000
    return None, big


def g_shevaltemp(c, part):
    t, x = (), (3,)
    nt, n, order = 3, 3, 2
    gh = tail = nodes = None
    kw, wild, mode, lay = {}, None, 3, "C"
    nsets = 1
    sc = None
    if part == "shapes":
        t = c.choose("t", [(), (0,), (2,), (3,), (2, 3), (2, 0)])
        x = c.choose("x", [(3,), (2, 3), (0, 3), (2, 3, 3), (2, 2, 3), (2, 2), (), (0,), (4,), (3,)])
        mode = c.int("mode", -1, 4)
        lay = c.choose("layout", ("C", "rev"))
    elif part == "coef":
        nodes = c.choose("nodes", [(2,), (0,), (1,), (3,), (), (2, 1)])
        gh = c.choose("gh", [(3, 2), (3, 0), (3, 1), (3, 3), (0, 2), (2, 2), (3,), (), (3, 2, 1), (0, 0)])
        tail = c.choose("nm", [(3, 2), (2, 2), (0, 2), (3, 1), (3, 3), (2,), (), (3, 2, 1)])
        order = c.int("order", -1, 4)
    elif part == "nm":
        n = c.choose("n", (1, 2))
        wild = c.choose("wild", ("small", "large"))
        order = c.choose("order", (1, 2))
    elif part == "times":
        nt = c.choose("nt", (1, 2, 3, 4))
        order = c.choose("order", (1, 2))
    elif part == "scale":
        sc = c.choose("scale", [(), (3,), (2,), (0,), (1, 3)])
        kw["scale_gradient"] = arr(sc, 9)
    elif part == "sets":
        nsets = c.choose("sets", (0, 1, 2, 5, 17, 33, 100))
    nodes = nodes if nodes is not None else (nt,)
    gh = gh if gh is not None else (n, nt)
    tail = tail if tail is not None else (n, 2)
    if part == "times":
        tv = c.choose("time", ("any", NAN, INF, -INF))
        tv = c.real("t", -20.0, 20.0) if tv == "any" else tv
        v = [c.real(f"v{i}", -20.0, 20.0) for i in range(nt)]
        at, av = Arr((), lambda ix: tv), Arr(nodes, lambda ix: v[ix[0]])
    else:
        at = Arr(t, lambda ix: value(ix, 5, -1.0, 4.0), DOUBLE, lay)
        av = Arr(nodes, lambda ix: float(sum(ix)), DOUBLE, lay)
    if wild:
        nm = nm_values(c, tail[0], wild)
        an = Arr(tail, lambda ix: nm[ix[0]][ix[1]], INT)
    else:
        nm = []
        an = Arr(tail, lambda ix: (1, 0, 7)[ix[1]] if len(ix) > 1 else 1, INT)
        if part not in ("coef",):
            nm = nm_values(c, tail[0], None)
            an = Arr(tail, lambda ix: nm[ix[0]][ix[1]], INT)
    sets = [(av, arr(gh, 6, layout=lay), an, order)] * nsets
    call = Call("pymm", "shevaltemp", at, coords(x, lay), sets, SPH, SPH, mode, True, 1.0, **kw)

    def expect():
        m, o = num(c, mode), num(c, order)
        if m not in (1, 2, 3):
            return bad("invalid mode")
        if nsets == 0:
            return bad("empty list of coefficient sets")
        if nsets > 16:
            return ANY
        if o not in (1, 2):
            return bad("unsupported spline order")
        if len(nodes) != 1 or len(gh) != 2 or len(tail) != 2 or tail[1] != 2 or gh != (tail[0], nodes[0]):
            return bad("inconsistent coefficient set")
        if nodes[0] < o:
            return bad("too few nodes")
        e, big = check_nm(c, nm)
        if e:
            return bad(e)
        if len(x) < 1 or x[-1] != 3:
            return bad("coordinates without three components")
        lead = prefix(t, x[:-1])
        if lead is None:
            return bad("shapes do not match")
        if sc not in (None, (), (3,)):
            return bad("wrong number of scale factors")
        return Expect(True, [lead] * (m & 1) + [lead + (3,)] * (m >> 1), "", big)
    return call, expect


def g_sheval2dfs(c, part):
    t, u, x = (), (), (3,)
    ab, tail = (3, 2, 2, 2), (3, 2)
    m1 = m2 = -1
    wild, mode, kw, sc, lay = None, 3, {}, None, "C"
    if part == "shapes":
        t = c.choose("t", [(), (0,), (2,), (2, 3)])
        u = c.choose("u", [(), (0,), (2,), (3,), (2, 3), (2, 2)])
        x = c.choose("x", [(3,), (2, 3), (0, 3), (2, 3, 3), (2, 2), (), (0,)])
        mode = c.int("mode", 0, 4)
    elif part == "coef":
        ab = c.choose("ab", [(3, 2, 2, 2), (3, 0, 2, 2), (3, 2, 0, 2), (3, 0, 0, 2), (0, 2, 2, 2), (2, 2, 2, 2), (3, 2, 2, 1), (3, 2, 2, 3),
                             (3, 2, 2), (3, 1, 1, 2), (1, 3, 2, 2, 2)])
        tail = c.choose("nm", [(3, 2), (2, 2), (0, 2), (3, 1), (3, 3), (3,), (3, 2, 1)])
        m1, m2 = c.int("m1", -2, 2), c.int("m2", -2, 2)
    elif part == "nm":
        n = c.choose("n", (1, 2))
        ab, tail = (n, 2, 1, 2), (n, 2)
        wild = c.choose("wild", ("small", "large"))
    elif part == "terms":
        m1 = c.choose("m1", (0, TOP, -TOP - 1, 1 << 40, -(1 << 62), 2 ** 63 - 1, -2 ** 63, 2 ** 63 - 2))
        m2 = c.choose("m2", (0, TOP, -TOP - 1, 1 << 40, 2 ** 63 - 1, -2 ** 63))
    elif part == "scale":
        sc = c.choose("scale", [(), (3,), (2,), (0,), (1, 3)])
        kw["scale_gradient"] = arr(sc, 9)
        lay = c.choose("layout", LAYOUTS)
    nm = nm_values(c, tail[0], wild)
    an = Arr(tail, lambda ix: nm[ix[0]][ix[1]] if len(ix) > 1 and ix[1] < 2 else 1, INT)
    call = Call("pymm", "sheval2dfs", Arr(t, lambda ix: value(ix, 5), DOUBLE, lay), Arr(u, lambda ix: value(ix, 6), DOUBLE, lay),
                coords(x, lay), (arr(ab, 7, layout=lay), an, m1, m2, 1.0, 0.5), SPH, SPH, mode, True, 1.0, **kw)

    def expect():
        m = num(c, mode)
        if m not in (1, 2, 3):
            return bad("invalid mode")
        if len(x) < 1 or x[-1] != 3:
            return bad("coordinates without three components")
        if len(ab) != 4 or ab[3] != 2 or len(tail) != 2 or tail[1] != 2 or ab[0] != tail[0]:
            return bad("inconsistent coefficient set")
        e, big = check_nm(c, nm)
        if e:
            return bad(e)
        if any(abs(num(c, z)) > 1000 for z in (m1, m2)):
            return ANY
        lead = prefix(t, u, x[:-1])
        if lead is None:
            return bad("shapes do not match")
        if sc not in (None, (), (3,)):
            return bad("wrong number of scale factors")
        return Expect(True, [lead] * (m & 1) + [lead + (3,)] * (m >> 1), "", big)
    return call, expect


def sizes(c, name, core_, leads, extra=()):
    """shape of one argument: leading dimensions and the dimensions of an element, or something else"""
    return c.choose(name, [x + core_ for x in leads] + list(extra))


def g_sphar(c, grd, part):
    names = ["coef", "lp"] + (["ldp"] if grd else []) + ["rrp", "lcs"]
    cores = {"coef": (3, 2), "lp": (3,), "ldp": (3,), "rrp": (2,), "lcs": (2, 2)}
    other = {"coef": [(0, 2), (1, 2), (2, 2), (6, 2), (3, 3), (3, 1), (3,), ()], "lp": [(0,), (1,), (6,), ()],
             "ldp": [(0,), (1,), (6,), ()], "rrp": [(0,), (1,), (3,), ()],
             "lcs": [(0, 2), (1, 2), (3, 2), (2, 3), (2, 1), (2,), ()]}
    sh = {n: cores[n] for n in names}
    lat = ()
    if part == "one":
        w = c.choose("which", names)
        sh[w] = c.choose("shape", other[w])
        d = c.int("degree", -2, 3)
    else:
        lead = c.choose("lead", [(2,), (0,), (2, 2)] if part == "lead" else [(2,), (2, 2)])
        lat = lead if c.flag("lat_full") else c.choose("lat", [(), (2,), (1,)])
        d = c.choose("degree", (-1, 1)) if part == "lead" else -1
        for n in names:
            if c.flag(n + "_full"):
                sh[n] = lead + cores[n]
        w = None if part == "lead" else c.choose("which", ["rank"] + names)
        if w == "rank":
            sh["lp"] = (2, 1) + cores["lp"]
        elif w is not None:
            sh[w] = (3,) + cores[w]
    args = [arr(lat, 1)] + [arr(sh[n], 2 + i) for i, n in enumerate(names)]
    call = Call("pymm", "sphargrd" if grd else "spharpot", *args, **({"is_internal": False} if grd else {}), degree=d)

    def expect():
        for n in names:
            if len(sh[n]) < len(cores[n]):
                return bad(f"too few dimensions of {n}")
            if len(cores[n]) == 2 and sh[n][-1] != 2:
                return bad(f"{n} without pairs")
        for n in ("rrp", "lcs"):
            if sh[n][-len(cores[n])] < 1:
                return bad(f"empty {n}")
        for n in names:
            if n not in ("rrp", "lcs") and sh[n][-len(cores[n])] < 1:
                return bad(f"empty {n}")
        lead = prefix(lat, *(sh[n][:len(sh[n]) - len(cores[n])] for n in names))
        if lead is None:
            return bad("shapes do not match")
        return ok(lead + (3,)) if grd else ok(lead)
    return call, expect


def degrees(c, linear):
    k = c.choose("size", ("small", "large", "negative"))
    if k == "small":
        return c.int("degree", -3, 4)
    if k == "large":
        return c.int("degree", (1 << 25) if linear else (1 << 13), TOP)
    return c.int("degree", -TOP - 1, -1)


def leads(c, name, d):
    return c.choose(name, LEADS if d.lo < 1000 else [(), (2,)])


def sign(c, d):
    return (d < 0) if d.__class__ is int else c.branch(d < 0)


def g_legendre(c):
    d = degrees(c, False)
    s = leads(c, "lat", d)
    lay = c.choose("layout", LAYOUTS)
    call = Call("pymm", "legendre", arr(s, 1, -90.0, 90.0, lay), d)

    def expect():
        if sign(c, d):
            return bad("negative degree")
        if c.branch(d > 4):
            return Expect(True, None, "", True)
        n = num(c, d)
        nt = (n + 1) * (n + 2) // 2
        return ok(s + (nt,), s + (nt,))
    return call, expect


def g_loncossin(c):
    d = degrees(c, True)
    s = leads(c, "lon", d)
    call = Call("pymm", "loncossin", arr(s, 1, -180.0, 180.0, c.choose("layout", LAYOUTS)), d, c.int("fast", 0, 1))

    def expect():
        if sign(c, d):
            return bad("negative degree")
        if c.branch(d > 4):
            return Expect(True, None, "", True)
        return ok(s + (num(c, d) + 1, 2))
    return call, expect


def g_relradpow(c):
    d = degrees(c, True)
    s = leads(c, "radius", d)
    ref = c.real("ref", -10.0, 1e4) if c.flag("refsym") else c.choose("ref", (6371.2, 0.0, -1.0))
    call = Call("pymm", "relradpow", arr(s, 1, 6500.0, 9000.0, c.choose("layout", LAYOUTS)), d, ref, c.flag("int"))

    def expect():
        if sign(c, d):
            return bad("negative degree")
        if (c.branch(core.fcmp("ole", ref, 0.0)) if isinstance(ref, core.T) else ref <= 0):
            return bad("reference radius not positive")
        if c.branch(d > 4):
            return Expect(True, None, "", True)
        return ok(s + (num(c, d) + 1,))
    return call, expect


def g_convert(c):
    s = c.choose("x", [x + (3,) for x in LEADS] + [(), (0,), (2,), (4,), (3, 2), (2, 0), (1,) * 33, (1,) * 32 + (3,), (1,) * 31 + (3,),
                                                   (1,) * 62 + (3,), (1,) * 63 + (3,)])
    i, o = c.int("in", -2, 4), c.int("out", -2, 4)
    call = Call("pymm", "convert", coords(s, c.choose("layout", LAYOUTS if len(s) < 5 else ("C",))), i, o)

    def expect():
        if num(c, i) not in (0, 1, 2) or num(c, o) not in (0, 1, 2):
            return bad("invalid coordinate type")
        if len(s) < 1 or s[-1] != 3:
            return bad("coordinates without three components")
        if len(s) > 16:
            return ANY
        return ok(s)
    return call, expect


def g_vrot(c, fn):
    s = c.choose("v", [x + (3,) for x in LEADS] + [(), (0,), (2,), (4,), (3, 2), (2, 0), (1,) * 31 + (3,), (1,) * 33 + (3,)])
    opts = [(), (0,), (1,), (2,), (3,), (2, 3), (2, 0), (3, 2), (1,) * 31]
    lay = c.choose("layout", LAYOUTS if len(s) < 5 else ("C",))
    a = c.choose("lat", opts)
    args = [a] if fn == "vrot_sph2geod" else [a, c.choose("lon", [a] + [x for x in ((), (2,), (2, 3)) if x != a])]
    call = Call("pymm", fn, coords(s, lay), *(arr(x, 3 + i, layout=lay if len(x) < 5 else "C") for i, x in enumerate(args)))

    def expect():
        if len(s) < 1 or s[-1] != 3:
            return bad("vectors without three components")
        if len(s) > 16 or any(len(x) > 16 for x in args):
            return ANY
        if any(x and x != s[:-1] for x in args):
            return bad("shapes do not match")
        return ok(s)
    return call, expect


def g_bisect(c, part):
    if part == "shapes":
        v, x = c.choose("v", [(3,), (0,), (1,), (), (2, 2)]), c.choose("x", LEADS)
        lay = c.choose("layout", LAYOUTS)
        side = c.int("side", -2, 3)
        av, ax = Arr(v, lambda ix: float(sum(ix)), DOUBLE, lay), Arr(x, lambda ix: value(ix, 1, -1.0, 4.0), DOUBLE, lay)
    else:
        v, x = (c.choose("n", (0, 1, 2, 3, 4, 5)),), ()
        side = c.int("side", 0, 1)
        special = c.choose("special", ("any", NAN, INF, -INF))
        y = c.real("y", -20.0, 20.0) if special == "any" else special
        nodes = [c.real(f"v{i}", -20.0, 20.0) for i in range(v[0])]
        if nodes and c.flag("nan_node"):
            nodes[c.choose("which", range(len(nodes)))] = NAN
        av, ax = Arr(v, lambda ix: nodes[ix[0]]), Arr((), lambda ix: y)
    call = Call("pymm", "bisect", av, ax, side)

    def expect():
        if num(c, side) not in (0, 1):
            return bad("invalid side")
        if len(v) != 1:
            return bad("nodes are not a vector")
        return ok(x)
    return call, expect


def g_interp(c, part):
    if part == "shapes":
        t = c.choose("t", [(), (0,), (2,), (2, 3)])
        t0 = c.choose("t0", [(2,), (0,), (1,), (3,), (), (2, 1)])
        c0 = c.choose("c0", [(2,), (0,), (1,), (3,), (), (2, 2), (3, 2), (2, 3), (0, 2), (2, 0), (2, 2, 2)])
        good = len(c0) >= 1 and len(t0) == 1 and c0[-1] == t0[0]
        kind = c.choose("kind", (0, 1, 0x11, 2, -1, 0x10, TOP) if good and t in ((), (2,)) else (0, 1, 0x11) if good else (1,))
        ex = c.flag("extrapolate") if good else False
        lay = c.choose("layout", ("C", "rev")) if good else "C"
        at, a0 = Arr(t, lambda ix: value(ix, 1, -1.0, 4.0), DOUBLE, lay), Arr(t0, lambda ix: float(sum(ix)), DOUBLE, lay)
        ac = arr(c0, 2, layout=lay)
    else:
        n = c.choose("n", (0, 1, 2, 3, 4))
        t, t0, c0 = (), (n,), (n,)
        kind, ex = c.choose("kind", (0, 1, 0x11)), c.flag("extrapolate")
        special = c.choose("special", ("any", NAN, INF, -INF))
        y = c.real("y", -20.0, 20.0) if special == "any" else special
        nodes = [c.real(f"v{i}", -20.0, 20.0) for i in range(n)]
        if nodes and c.flag("nan_node"):
            nodes[c.choose("which", range(len(nodes)))] = NAN
        at, a0, ac = Arr((), lambda ix: y), Arr(t0, lambda ix: nodes[ix[0]]), arr(c0, 2)
    call = Call("pymm", "interp", at, a0, ac, kind, ex)

    def expect():
        if kind not in (0, 1, 0x11):
            return bad("invalid kind")
        if len(t0) != 1 or len(c0) < 1 or c0[-1] != t0[0]:
            return bad("coefficients do not match the nodes")
        if t0[0] < (1 if kind == 0 else 2):
            return bad("too few nodes")
        return ok(t + c0[:-1])
    return call, expect


def g_fourier2d(c, part):
    t, u, lead, n1, n2, m1, m2 = (), (), (), 2, 2, 0, 0
    tail, lay = 2, "C"
    if part == "shapes":
        t = c.choose("t", LEADS)
        u = c.choose("u", [t] + [x for x in ((), (2,), (3,), (2, 2), (0,)) if x != t])
        cf = c.choose("coef", [(2, 2, 2), (0, 2, 2), (2, 0, 2), (0, 0, 2), (1, 1, 2), (2, 2, 3), (2, 2, 1), (2, 2, 0), (2, 2), (2,), (),
                               (2, 1, 2, 2), (0, 1, 2, 2), (2, 2, 1, 1, 2)])
        lay = c.choose("layout", ("C", "rev", "step"))
    elif part == "terms":
        cf = (c.choose("n1", (0, 1, 2, 3)), c.choose("n2", (0, 1, 2, 4)), 2)
        m1, m2 = c.int("m1", -4, 2), c.int("m2", -4, 2)
    else:
        cf = (c.choose("n1", (0, 1, 3)), c.choose("n2", (1, 2)), 2)
        e = (0, TOP, TOP - 1, -TOP - 1, -TOP, 1 << 25, -(1 << 25))
        m1, m2 = c.choose("m1", e), c.choose("m2", e)
    call = Call("pymm", "fourier2d", arr(t, 1, layout=lay), arr(u, 2, layout=lay), arr(cf, 3, layout=lay), m1, m2, 1.0, 0.5)

    def expect():
        if t != u:
            return bad("phases of different shapes")
        if len(cf) < 3 or cf[-1] != 2:
            return bad("wrong shape of the coefficients")
        if part == "large":
            return ANY
        return ok(t + cf[:-3])
    return call, expect


def g_sunpos(c, orig):
    n = 7 if orig else 5
    full = c.choose("shape", [(), (0,), (2,), (2, 3), (2, 0), (1,) * 31, (1,) * 32])
    other = [x for x in ((3,), (2, 1), (2,), (1,), (2, 2)) if x != full]
    w = c.choose("which", range(n + 1))
    wrong = c.choose("wrong", other) if w < n else None
    lay = c.choose("layout", ("C", "rev", "step")) if len(full) < 5 else "C"
    shapes = []
    for i in range(n):
        s = wrong if i == w else full
        if i != w and i < 4 and full in ((), (2,), (2, 3)) and lay != "step" and c.flag(f"scalar{i}"):
            s = ()
        shapes.append(s)
    rng = [(7000.0, 8000.0), (-80.0, 80.0), (-180.0, 180.0), (6500.0, 7000.0), (60.0, 70.0), (1.0, 2.0), (10.0, 20.0)]
    call = Call("pysunpos", "sunpos_original" if orig else "sunpos",
                *(arr(s, i, *rng[i], layout=lay if len(s) < 5 else "C") for i, s in enumerate(shapes)))

    def expect():
        m = max(shapes, key=len)
        if len(m) > 16:
            return ANY
        if any(s and s != m for s in shapes):
            return bad("shapes do not match")
        return ok(m + (5,))
    return call, expect


def g_time(c, fn):
    s = c.choose("t", LEADS + [(1,) * 31, (1,) * 32, (1,) * 33])
    lo, hi = (1990.0, 2030.0) if fn.startswith("decimal") else (-4000.0, 9000.0)
    call = Call("pytimeconv", fn, Arr(s, lambda ix: value(ix, 1, lo, hi), DOUBLE,
                                      c.choose("layout", LAYOUTS if len(s) < 5 else ("C",))))

    def expect():
        return ok(s) if len(s) < 16 else ANY
    return call, expect


def g_kinds(c):
    """arguments which are no arrays at all"""
    what = c.choose("function", ["sheval", "shevaltemp list", "shevaltemp item", "shevaltemp size", "shevaltemp order", "sheval2dfs tuple",
                                 "sheval2dfs size", "sheval2dfs int", "sheval2dfs float", "ragged", "nested", "missing", "keyword",
                                 "flag"])
    x, cf = coords((2, 3)), arr((3, 2), 1)
    nm = Arr((3, 2), lambda ix: (1, 0)[ix[1]], INT)
    cs = (Arr((2,), lambda ix: float(ix[0])), arr((3, 2), 2), nm, 2)
    ab = (arr((3, 2, 2, 2), 3), nm, 0, 0, 1.0, 1.0)
    o = {"sheval": ("sheval", None, cf), "shevaltemp list": ("shevaltemp", 1.0, x, (cs,)),
         "shevaltemp item": ("shevaltemp", 1.0, x, [list(cs)]), "shevaltemp size": ("shevaltemp", 1.0, x, [cs, cs[:3]]),
         "shevaltemp order": ("shevaltemp", 1.0, x, [cs, cs[:3] + (2.0,)]), "sheval2dfs tuple": ("sheval2dfs", 1.0, 2.0, x, list(ab)),
         "sheval2dfs size": ("sheval2dfs", 1.0, 2.0, x, ab[:5]), "sheval2dfs int": ("sheval2dfs", 1.0, 2.0, x, ab[:2] + (0.0, 1) + ab[4:]),
         "sheval2dfs float": ("sheval2dfs", 1.0, 2.0, x, ab[:4] + (1.0, None)),
         "ragged": ("convert", [[1.0, 2.0, 3.0], [1.0]], 0, 1), "nested": ("convert", [[1.0, 2.0, 6500.0]], 0, 1),
         "missing": ("sheval", x), "keyword": ("convert", x, 0, 1), "flag": ("sheval", x, cf, 0, 0, 2, None)}[what]
    kw = {"nothing": 1} if what == "keyword" else {}
    call = Call("pymm", *o, **kw)

    def expect():
        if what == "nested":
            return ok((1, 3))
        if what == "flag":
            return ok((2, 3))
        return Expect(False, None, "wrong type of an argument", None)
    return call, expect


def g_qd(c, fn):
    """quasi-dipole functions: scalars or vectors of one length; the apex routines themselves are uninterpreted"""
    n = {"eval_mlt": 2, "eval_subsol": 1}.get(fn, 4)
    w = c.choose("which", [None] + list(range(n)))
    full = c.choose("shape", [(), (0,), (1,), (3,), (2, 2), (0, 2)])
    wrong = None if w is None else c.choose("wrong", [x for x in ((), (0,), (2,), (3,), (2, 2)) if x != full])
    shapes = [wrong if i == w else full for i in range(n)]
    lay = c.choose("layout", LAYOUTS) if w is None else "C"
    rng = {"eval_mlt": [(-170.0, 170.0), (4000.0, 9000.0)], "eval_subsol": [(4000.0, 9000.0)]}.get(
        fn, [(-80.0, 80.0), (-170.0, 170.0), (6400.0, 8000.0), (1990.0, 2020.0)])
    args = [arr(s, i, *rng[i], layout=lay) for i, s in enumerate(shapes)]
    name = base = None
    if n == 4:
        name = c.choose("file", (APEX, "x" * 1024, "x" * 5000)) if w is None else APEX
        args.append(name)
        base = c.choose("base", (None, True, False, 1, 0, "", "yes"))
        if base is not None:
            args.append(base)

    def expect():
        if name is not None and name != APEX:
            return Expect(False, None, "file name too long", "RuntimeError")
        if any(len(s) > 1 for s in shapes) or any(s != shapes[0] for s in shapes):
            return bad("shapes do not match")
        return ok(*[shapes[0]] * (1 if fn == "eval_mlt" else 7 if base else 2))
    return Call("pyqd", fn, *args), expect


ENTRIES = {
    **{f"sheval {n}": (lambda c, p=p: g_sheval(c, p)) for p, n in
       [(i, f"shapes {i + 1}") for i in range(4)] + [("frames", "frames"), ("options", "options")]},
    **{f"shevaltemp {p}": (lambda c, p=p: g_shevaltemp(c, p)) for p in ("shapes", "coef", "nm", "times", "scale", "sets")},
    **{f"sheval2dfs {p}": (lambda c, p=p: g_sheval2dfs(c, p)) for p in ("shapes", "coef", "nm", "terms", "scale")},
    **{f"sphargrd {p}": (lambda c, p=p: g_sphar(c, True, p)) for p in ("one", "lead", "mismatch")},
    **{f"spharpot {p}": (lambda c, p=p: g_sphar(c, False, p)) for p in ("one", "lead", "mismatch")},
    "legendre": g_legendre, "loncossin": g_loncossin, "relradpow": g_relradpow, "convert": g_convert,
    **{f: (lambda c, f=f: g_vrot(c, f)) for f in ("vrot_sph2cart", "vrot_cart2sph", "vrot_sph2geod")},
    **{f"bisect {p}": (lambda c, p=p: g_bisect(c, p)) for p in ("shapes", "values")},
    **{f"interp {p}": (lambda c, p=p: g_interp(c, p)) for p in ("shapes", "values")},
    **{f"fourier2d {p}": (lambda c, p=p: g_fourier2d(c, p)) for p in ("shapes", "terms", "large")},
    "sunpos": lambda c: g_sunpos(c, False), "sunpos_original": lambda c: g_sunpos(c, True),
    **{f: (lambda c, f=f: g_time(c, f)) for f in ("mjd2000_to_decimal_year", "mjd2000_to_year_fraction", "decimal_year_to_mjd2000")},
    **{f: (lambda c, f=f: g_qd(c, f)) for f in ("eval_qdlatlon", "eval_mlt", "eval_subsol")},
    "kinds": g_kinds,
}


# ---------------------------------------------------------------------------------------------

def entry(k, name, gen, fail=False):
    label = name + (" with a failing allocation" if fail else "")

    def fn(c):
        call, expect = gen(c)
        W = build.world(call.mod)
        W.alloc_limit = LIMIT
        if call.mod == "pyqd":
            qd.install(W)
        if fail:
            W.fail_at = c.int("failing", 0, 20)
        err = None
        r = None
        try:
            r = call.sym(W)
        except capi.PyExc as e:
            err = e
        mod = W.modified_inputs()
        left = W.release()
        return call, expect(), r, err, left, mod, W
    n = 0
    for p in k.explore(label, fn, "ord", max_paths=60000, on_event=(lambda p: failing_event(k, label, p)) if fail else None):
        call, want, r, err, left, mod, W = p.result
        c = p.ctx
        k.reached()
        text = None
        kind = None
        if left:
            text, kind = f"not released: {', '.join(str(x) for x in left[:3])}", "leak"
        elif mod:
            text, kind = "an argument is modified", "modified"
        elif fail:
            if W.failed and err is None:
                text, kind = "result although an allocation failed", "failure"
            elif W.failed and err.type not in ("MemoryError", "ValueError"):
                text, kind = f"{err} when an allocation failed", "failure"
        elif want.ok:
            if err is not None and not (want.large and err.type in ("MemoryError", "ValueError")):
                text, kind = f"valid call refused: {err}", "verdict"
            elif err is None and want.shapes is not None:
                rs = r if isinstance(r, tuple) else (r,)
                got = [tuple(x.dims) for x in rs]
                if got != [tuple(s) for s in want.shapes]:
                    text, kind = f"shapes {got} instead of {want.shapes}", "verdict"
        elif want.ok is False:
            if err is None:
                text, kind = f"accepted: {want.why}", "verdict"
            elif err.type not in ("ValueError", want.large) and not (want.large is None and err.type in ("TypeError", "OverflowError")):
                text, kind = f"{err.type} instead of ValueError: {want.why}", "verdict"
        if text is None:
            k.discharged()
            n += 1
            if not fail and n % 97 == 1 and err is None and r is not None and not want.large and call.mod != "pyqd":
                k.validate(c, call, r)
            continue
        confirm(k, label, c, call, want, kind, text, fail)


def failing_event(k, label, p):
    ev = p.ctx.events[0]
    call = p.ctx.last_call
    for env in k.envs(p.ctx, want=1):
        t = memory.failure(call, env, p.ctx.low)
        if t:
            k.violation(f"{label}: {ev}: {t}", {"harness": label, "event": str(ev), "replay": t, "call": call.describe(env, p.ctx.low)})
            return
    k.undecided(f"{label}: {ev} (not reproduced on the real build)")


def confirm(k, label, c, call, want, kind, text, fail):
    for env in k.envs(c, want=2):
        t = None
        if fail:
            t = memory.failure(call, env, c.low)
        elif kind == "leak":
            t = memory.leak(call, env, c.low)
        else:
            t = memory.crash(call, env, c.low, ("plain",)) or observed(call, env, c.low, want, kind)
        if t:
            k.violation(f"{label}: {text}: {t}", {"harness": label, "deviation": text, "replay": t, "call": call.describe(env, c.low)})
            return
    k.undecided(f"{label}: {text} (not reproduced on the real build)")


CHANGED = memory.CALL + """
import pickle
before = pickle.dumps(args)
once()
result = pickle.dumps(args) != before
"""


def observed(call, env, low, want, kind):
    if kind == "modified":
        r = harness.server().exec(CHANGED, memory.variables(call, env, low))
        return "the arguments are changed by the call" if r[0] == "ok" and r[1] else None
    r = harness.server().call(call, env, low)
    if r[0] == "crash":
        return f"crash ({r[1]})"
    if want.ok:
        if r[0] == "err":
            return None if want.large and r[1] in ("MemoryError", "ValueError") else f"{r[1]}: {r[2]}"
        rs = r[1] if isinstance(r[1], tuple) else (r[1],)
        import numpy as np
        got = [np.shape(x) for x in rs]
        return f"shapes {got} instead of {want.shapes}" if want.shapes is not None and got != [tuple(s) for s in want.shapes] else None
    if r[0] == "ok":
        return f"the call is accepted ({want.why})"
    if r[1] not in ("ValueError", want.large) and not (want.large is None and r[1] in ("TypeError", "OverflowError")):
        return f"{r[1]}: {r[2]}"
    return None


# longest first
ORDER = ["sheval shapes 4", "sheval shapes 1", "sheval shapes 2", "shevaltemp coef", "sunpos_original", "vrot_cart2sph", "vrot_sph2cart",
         "sheval shapes 3", "fourier2d shapes", "sheval options", "convert", "sunpos", "fourier2d terms", "relradpow", "sheval frames",
         "sphargrd mismatch", "interp shapes", "bisect shapes"]
FAILING = ["fourier2d terms", "sheval frames", "sheval2dfs shapes", "shevaltemp shapes", "eval_qdlatlon", "convert", "sunpos",
           "shevaltemp nm", "legendre", "bisect shapes", "interp shapes", "sheval2dfs nm", "loncossin", "vrot_sph2geod",
           "sheval2dfs scale", "shevaltemp scale", "shevaltemp sets", "sphargrd one", "spharpot one", "relradpow", "kinds",
           "mjd2000_to_decimal_year", "mjd2000_to_year_fraction", "decimal_year_to_mjd2000", "eval_mlt", "eval_subsol"]


def run(k):
    harness.QD = True
    k.bound("all 26 entry points of the four extension modules; the listed array shapes of 0 to 5 dimensions with 0 to 6 elements per "
            "dimension (31 to 64 dimensions for the element-wise functions), one argument (or the leading dimensions) varied at a "
            "time; memory layouts C, Fortran, reversed and strided; symbolic mode, coordinate types and degrees -3..4 and "
            "2^13..2^31-1 (legendre) or 2^25..2^31-1 (loncossin, relradpow); degree and order indices -2..3 and the extremes of int; "
            "node counts 0..5, symbolic times including NaN and infinities; first terms -4..2 and the extremes; coefficient sets 0..100")
    k.bound("failing allocation: the 1st to 21st allocation of the call (arrays, buffers, tuples), one at a time"
            + ("" if k.quick else ", in all entries"))
    k.assume("allocations above 128 MB fail; degrees between the two ranges, NaN or infinite times of the calendar conversions and "
             "PyObject_IsTrue failures are not covered; the CPython and NumPy C APIs follow their documentation (sym/capi.py); the "
             "Fortran drivers are executed, the apex routines below them are uninterpreted")
    names = ORDER + [n for n in ENTRIES if n not in ORDER]
    fails = FAILING + ([] if k.quick else [n for n in names if n not in FAILING])
    jobs = [(n, lambda k, n=n: entry(k, n, ENTRIES[n])) for n in names]
    bad_ = [(n + " with a failing allocation", lambda k, n=n: entry(k, n, ENTRIES[n], True)) for n in fails]
    k.parallel(jobs[:4] + bad_[:8] + jobs[4:] + bad_[8:])
