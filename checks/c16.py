"""C16 spherical harmonic models over time"""
from sym.program import program
from checks.c09 import nest

DEF = """
from eoxmagmod import sheval, GEOCENTRIC_SPHERICAL as SPH, GEODETIC_ABOVE_WGS84 as GEOD, GEOCENTRIC_CARTESIAN as CART
from eoxmagmod import GRADIENT, convert, mjd2000_to_decimal_year as todec, decimal_year_to_mjd2000 as fromdec
from eoxmagmod.magnetic_model.coefficients import (
    SparseSHCoefficientsConstant as Const, SparseSHCoefficientsTimeDependent as Time,
    SparseSHCoefficientsTimeDependentDecimalYear as Dec, ComposedSHCoefficients as Composed, CombinedSHCoefficients as Combined)
from eoxmagmod.magnetic_model.model import (
    SphericalHarmomicGeomagneticModel as Model, DipoleSphericalHarmomicGeomagneticModel as Dipole)
from eoxmagmod.dipole import sheval_dipole
NM = [(1, 0), (1, 1), (1, -1)]
def full(g):
    # coefficients of degree one in the full array
    return np.array([[0.0, 0.0], [g[0], 0.0], [g[1], g[2]]])
def const(g, v, **k):
    c = Const(np.array(NM), np.array(g), validity_start=v[0], validity_end=v[1], **k)
    return c, (v, lambda t: g)
def linear(g, h, t0, t1, v=None, **k):
    if v is not None:
        k.update(validity_start=v[0], validity_end=v[1])
    c = Time(np.array(NM), np.array([[x, y] for x, y in zip(g, h)]), np.array([t0, t1]), **k)
    return c, (v or (t0, t1), lambda t: [x + (y - x) * (t - t0) / (t1 - t0) for x, y in zip(g, h)])
def step(g, h, t0, t1, v=None, **k):
    if v is not None:
        k.update(validity_start=v[0], validity_end=v[1])
    c = Time(np.array(NM), np.array([[x, y] for x, y in zip(g, h)]), np.array([t0, t1]), spline_order=1, **k)
    return c, (v or (t0, t1), lambda t: h if t >= t1 else g)
def decimal(g, h, y0, y1, **k):
    c = Dec(np.array(NM), np.array([[x, y] for x, y in zip(g, h)]), np.array([y0, y1]), **k)
    return c, ((fromdec(y0), fromdec(y1)),
               lambda t: [x + (y - x) * (todec(t) - y0) / (y1 - y0) for x, y in zip(g, h)])
# a reference is a (validity, coefficients at a time) pair or a list of those of which the first valid applies
def composed(*items):
    ref = [r for _, x in items for r in (x if isinstance(x, list) else [x])]
    return Composed(*[c for c, _ in items]), ref
def combined(*items):
    # every pair of the parts in the order of the composition, each valid where all its members are
    ref = None
    for _, x in items:
        xs = x if isinstance(x, list) else [x]
        ref = [[r] for r in xs] if ref is None else [r + [s] for r in ref for s in xs]
    out = [((None, tuple(v for v, _ in r)),
            lambda t, r=r: [sum(u) for u in zip(*[f(t) for _, f in r])]) for r in ref]
    return Combined(*[c for c, _ in items]), out
def valid(v, t):
    if v[0] is None:
        return all(valid(u, t) for u in v[1])
    return bool(v[0] <= t) and bool(t <= v[1])
def select(ref, t):
    for v, f in (ref if isinstance(ref, list) else [ref]):
        if valid(v, t):
            return f
    return None
def expected(f, t, x, cin=SPH, cout=SPH, internal=True, pole=None, scale=1.0):
    if f is None:
        return np.array([np.nan] * 3)
    if pole is not None:
        return -sheval_dipole(np.array(x), full(f(t)), pole[0], pole[1], cin, cout, mode=GRADIENT,
                              is_internal=internal, degree=1) * scale
    return -sheval(np.array(x), full(f(t)), cin, cout, mode=GRADIENT, is_internal=internal, degree=1) * scale
def judge(result, label, model, ref, t, x, args=(), **opt):
    # times t[..., n], locations x[..., 3]: every time evaluated with its own location
    t, x = np.array(t), np.array(x)
    part = {ix: select(ref, t[ix]) for ix in np.ndindex(*t.shape)}
    got = model.eval(t, x, *args, **{k: v for k, v in opt.items() if k == "scale"})
    sh = t.shape if t.ndim >= x.ndim - 1 else x.shape[:-1]
    result.append((label + " shape", list(np.shape(got)), list(sh) + [3]))
    for ix in np.ndindex(*sh):
        e = expected(part[ix[:t.ndim]], t[ix[:t.ndim]], x[ix[:x.ndim - 1]], *args, **opt)
        result.append((label + f" {ix}", got[ix], e, 1e5))
"""
OPTS = dict(setup=DEF, rtol=1e-9)
G = lambda c, n: [c.real(f"g{n}_{i}", -6e4, 6e4) for i in range(3)]
def times(c, nt, lo, hi):
    """nt distinct times (equal times and equal coordinates: C03)"""
    if not nt:
        return c.real("t", lo, hi)
    t = [c.real(f"t{i}", lo, hi) for i in range(nt)]
    for i in range(nt):
        for j in range(i):
            c.assume(t[i] != t[j])
    return t


X = lambda c, n="": [c.real(f"x{n}", -89.0, 89.0), c.real(f"y{n}", -360.0, 360.0), c.real(f"z{n}", 6000.0, 9000.0)]
# validity intervals of compositions: separate, touching, overlapping, nested, equal, unsorted
PATTERNS = [
    [(0, 10)], [(0, 10), (10, 20)], [(10, 20), (0, 10)], [(0, 10), (5, 20)], [(5, 20), (0, 10)], [(0, 20), (5, 10)],
    [(5, 10), (0, 20)], [(0, 10), (0, 10)], [(0, 10), (0, 20)], [(0, 20), (10, 20)],
    [(0, 10), (10, 20), (20, 30)], [(20, 30), (0, 10), (10, 20)], [(10, 20), (0, 30), (5, 40)], [(0, 30), (10, 15), (20, 40)],
    [(5, 10), (15, 20), (0, 30)], [(-1e9, 10), (10, 1e9)], [(0, 12), (8, 20), (4, 16)],
]


def run(k):
    k.bound(f"compositions of 1-3 sets with any symbolic validity intervals and {len(PATTERNS)} interval patterns, sets constant, "
            "linear, stepwise, in decimal years and combinations of those (degree 1, any coefficients); one or two symbolic times "
            "(any value, NaN separately) in one call, scalar and array; time/location shapes up to 2x2 with 3 ranks")
    k.assume("exact real arithmetic, results up to 1e-9; the field of given coefficients is that of sheval (C01) and of "
             "sheval_dipole (C10, C14); validity intervals of non-zero length; "
             "times and coordinates within one call are distinct or listed patterns of repetitions (further coincidences: C03)")
    jobs = [("symbolic", symbolic), ("shapes", shapes), ("nan", nan), ("mixed", mixed), ("dipole", dipole), ("frames", frames),
            ("repeated", repeated)]
    n = 4
    for i in range(n):
        jobs.append((f"patterns {i}", lambda k, i=i: patterns(k, PATTERNS[i::n])))
    k.parallel(jobs)


def symbolic(k):
    for n in (1, 2) if k.quick else (1, 2, 3):
        for nt in (0, 1, 2) if n < 2 or not k.quick else (0, 1):
            def inputs(c):
                v = []
                for i in range(n):
                    a, b = c.real(f"a{i}", -1e4, 1e4), c.real(f"b{i}", -1e4, 1e4)
                    c.assume(a < b)
                    v.append([a, b])
                if n == 2:
                    c.assume(v[0][0] <= v[1][1])
                    c.assume(v[1][0] <= v[0][1])
                t = times(c, nt, -2e4, 2e4)
                return {"v": v, "t": t, "g": [G(c, i) for i in range(n)], "x": X(c)}
            program(k, f"{n} sets, {nt} times", """
result = []
c, ref = composed(*[const(h, u) for h, u in zip(g, v)])
judge(result, "field", Model(c), ref, t, x)
""", inputs, max_paths=6000, **OPTS)


def patterns(k, pats):
    for p in pats:
        for kind in ("const", "linear", "combined", "product"):
            if kind == "product" and len(p) < 2:
                continue
            def inputs(c):
                return {"v": p, "t": times(c, 2, -10.0, 50.0), "kind": kind,
                        "g": [G(c, i) for i in range(len(p) + 2)], "x": X(c)}
            program(k, f"{kind} {p}", """
result = []
n = len(v)
if kind == "const":
    c, ref = composed(*[const(h, u) for h, u in zip(g, v)])
elif kind == "linear":
    c, ref = composed(*[linear(h, g[-1], u[0] + 1.0, u[1] - 1.0, v=u) for h, u in zip(g, v)])
elif kind == "combined":
    c, ref = combined(const(g[-1], (-1e4, 25.0)), composed(*[const(h, u) for h, u in zip(g, v)]))
else:
    # two compositions, the second one of the same intervals in the opposite order
    c, ref = combined(composed(*[const(h, u) for h, u in zip(g, v)]),
                      composed(*[linear(h, g[-1], u[0] + 1.0, u[1] - 1.0, v=u) for h, u in zip(g[1:], v[::-1])]))
m = Model(c)
for i in range(1 + (kind != "product")):
    judge(result, f"scalar {i}", m, ref, t[i], x)
if kind != "product":
    judge(result, "array", m, ref, t, x)
else:
    judge(result, "array", m, ref, t[1:], x)
""", inputs, max_paths=6000, **OPTS)


def nan(k):
    for p in ([(0, 10)], [(0, 10), (10, 20)]):
        program(k, f"NaN {p}", """
result = []
c, ref = composed(*[const(h, u) for h, u in zip(g, v)])
m = Model(c)
judge(result, "scalar", m, ref, float("nan"), x)
judge(result, "array", m, ref, [t, float("nan"), 5.0], x)
judge(result, "locations", m, ref, [float("nan"), t], [[x, x], [x, x]])
judge(result, "empty", m, ref, [float("nan")], np.zeros((1, 0, 3)))
judge(result, "no times", m, ref, np.zeros((0,)), np.zeros((0, 3)))
lo, hi = m.validity
result.append(("validity", [lo, hi], [min(u[0] for u in v), max(u[1] for u in v)]))
""", lambda c: {"v": p, "t": c.real("t", -10.0, 50.0), "g": [G(c, i) for i in range(len(p))], "x": X(c)}, **OPTS)


SHAPES = [((), (3,)), ((), (2, 3)), ((), (2, 2, 3)), ((2,), (3,)), ((2,), (2, 3)), ((2,), (2, 2, 3)), ((2, 2), (3,)),
          ((2, 2), (2, 3)), ((2, 2), (2, 2, 3)), ((1,), (1, 3)), ((1, 2), (1, 2, 3)), ((2,), (2, 1, 3)), ((3,), (3, 3)), ((3,), (3,))]


def shapes(k):
    for ts, xs in SHAPES:
        for kind in ("linear", "mixed") if len(ts) + len(xs) < 4 else ("linear",):
            def inputs(c):
                # times on a grid of boundaries and interior points, in any order
                grid = [-1.0, 0.0, 4.0, 10.0, 12.0, 20.0, 21.0]
                m = 1
                for i in ts:
                    m *= i
                pick = [grid[(3 * i + 2 * len(xs)) % 7] for i in range(m - 1)]
                tt = [c.real("t", -5.0, 25.0)] + pick
                it = iter(tt)
                for u in pick:
                    c.assume(tt[0] != u)
                xs_ = nest(xs[:-1], lambda s: X(c, s)) if len(xs) > 1 else X(c)
                flat = lambda x: [x] if not isinstance(x[0], list) else [z for y in x for z in flat(y)]
                for i, p in enumerate(flat(xs_)):
                    for q in flat(xs_)[:i]:
                        for u, w in zip(p, q):
                            c.assume(u != w)
                return {"t": nest(ts, lambda s: next(it)) if ts else tt[0], "g": [G(c, i) for i in range(3)],
                        "x": xs_, "kind": kind}
            program(k, f"{kind} {ts} {xs}", """
result = []
if kind == "linear":
    c, ref = composed(linear(g[0], g[1], 0.0, 10.0), linear(g[2], g[1], 10.0, 20.0))
else:
    c, ref = composed(combined(linear(g[0], g[1], 0.0, 10.0), decimal(g[2], g[0], 2000.0, 2000.5)), const(g[1], (10.0, 20.0)))
judge(result, "field", Model(c), ref, t, x)
if np.array(t).ndim > 0 and np.array(t).shape[0] > 1 and np.array(x).ndim <= np.array(t).ndim + 1:
    pass
""", inputs, max_paths=3000, **OPTS)
    program(k, "shape mismatch", """
result = []
c, ref = const(g, (0.0, 10.0))
for ts, xs in (((2,), (3, 3)), ((2, 3), (2, 2, 3)), ((3,), (2, 3, 3))):
    try:
        Model(c).eval(np.zeros(ts), np.zeros(xs) + 7000.0)
        result.append(("mismatch", "accepted", "refused"))
    except ValueError:
        result.append(("mismatch", "refused", "refused"))
""", lambda c: {"g": G(c, 0)}, **OPTS)


REPEATED = ["aba", "aab", "abb", "aaa", "abca", "abab", ["ab", "ba"], ["ab", "ab"]]


def repeated(k):
    """times (and locations) which occur more than once, neighbouring or not"""
    for r in REPEATED if not k.quick else ["aba", "abb", "abca", "abab", ["ab", "ba"]]:
        for kind in ("linear", "default", "dipole"):
            for same in (True, False):
                def inputs(c):
                    t = {"a": c.real("a", -5.0, 25.0), "b": c.real("b", -5.0, 25.0), "c": 4.0}
                    c.assume(t["a"] != t["b"])
                    for n in "ab":
                        c.assume(t[n] != 4.0)
                    tt = [t[n] for n in r] if isinstance(r, str) else [[t[n] for n in u] for u in r]
                    if kind == "dipole":
                        x = [20.0, 30.0, 7000.0] if same or not isinstance(r, str) else \
                            [[20.0 * i - 50.0, 30.0 * i, 7000.0 + i] for i in range(len(r))]
                    elif same or not isinstance(r, str):
                        x = X(c)
                    else:
                        # disjoint ranges: the locations differ
                        x = [[c.real(f"x{i}", -80.0 + 30 * i, -60.0 + 30 * i), c.real(f"y{i}", -170.0 + 80 * i, -100.0 + 80 * i),
                              c.real(f"z{i}", 6000.0 + 600 * i, 6500.0 + 600 * i)] for i in range(len(r))]
                    return {"t": tt, "g": [G(c, i) for i in range(3)], "x": x, "kind": kind}
                program(k, f"repeated {kind} {r} {same}", """
result = []
if kind == "linear":
    c, ref = composed(linear(g[0], g[1], 0.0, 10.0), linear(g[2], g[1], 10.0, 20.0))
else:
    # not interpolated by the C extension
    c, ref = composed(combined(linear(g[0], g[1], 0.0, 10.0), decimal(g[2], g[0], 2000.0, 2000.5)), const(g[1], (10.0, 20.0)))
if kind == "dipole":
    judge(result, "field", Dipole(c, (80.0, -72.0)), ref, t, x, pole=(80.0, -72.0))
else:
    judge(result, "field", Model(c), ref, t, x)
""", inputs, max_paths=3000, **OPTS)


def mixed(k):
    for kind in ("linear+decimal", "decimal+linear", "const+decimal", "decimal", "step", "decimal+const", "compositions"):
        for nt in (0, 2):
            def inputs(c):
                lo, hi = 6900.0, 6990.0
                t = [c.real("t", lo, hi)] + [6945.0] * (nt - 1) if nt else c.real("t", lo, hi)
                if nt:
                    c.assume(abs(t[0] - 6945.0) > 1e-3)
                return {"t": t, "g": [G(c, i) for i in range(4)], "x": X(c), "kind": kind}
            program(k, f"{kind} {nt}", """
result = []
lin = lambda: linear(g[0], g[1], 6880.0, 6980.0)
dec = lambda: decimal(g[2], g[3], 2018.0, 2020.0)
con = lambda: const(g[1], (6940.0, 1e9))
stp = lambda: step(g[0], g[1], 6910.0, 6950.0, v=(6900.5, 6980.5))
c, ref = {
    "linear+decimal": lambda: combined(lin(), dec()), "decimal+linear": lambda: combined(dec(), lin()),
    "const+decimal": lambda: combined(con(), dec()), "decimal": lambda: composed(dec()), "step": lambda: composed(stp()),
    "decimal+const": lambda: combined(dec(), con()), "compositions": lambda: combined(composed(stp(), lin()), dec()),
}[kind]()
judge(result, "field", Model(c), ref, t, x)
""", inputs, max_paths=3000, **OPTS)


def dipole(k):
    for nt in (0, 2):
        for internal in (True, False):
            for cin, cout in ((1, 1), (0, 1), (1, 2)):
                def inputs(c):
                    x = X(c) if cin == 1 else [c.real("x", -89.0, 89.0), c.real("y", -180.0, 180.0), c.real("z", -10.0, 900.0)]
                    return {"t": times(c, nt, -5.0, 25.0),
                            "g": [G(c, i) for i in range(2)], "x": x, "internal": internal, "args": (cin, cout)}
                program(k, f"dipole {nt} {internal} {cin}{cout}", """
result = []
c, ref = composed(const(g[0], (0.0, 10.0), is_internal=internal), const(g[1], (5.0, 20.0), is_internal=internal))
m = Dipole(c, (80.0, -72.0))
judge(result, "field", m, ref, t, x, args, internal=internal, pole=(80.0, -72.0))
judge(result, "scaled", m, ref, t, x, args, internal=internal, pole=(80.0, -72.0), scale=-2.5)
""", inputs, max_paths=2000, **OPTS)


def frames(k):
    for internal in (True, False):
        for cin, cout in ((0, 0), (0, 2), (0, 1), (2, 2), (2, 1)):
            def inputs(c):
                x = X(c) if cin == 1 else [c.real("x", -89.0, 89.0), c.real("y", -180.0, 180.0), c.real("z", -10.0, 900.0)] \
                    if cin == 0 else [c.real(n, 3000.0, 7000.0) for n in "xyz"]
                t = c.real("t0", -5.0, 25.0)
                c.assume(t != 10.0)
                return {"t": [t, 10.0], "g": [G(c, i) for i in range(2)], "x": x,
                        "internal": internal, "args": (cin, cout)}
            program(k, f"frames {internal} {cin}{cout}", """
result = []
c, ref = composed(linear(g[0], g[1], 0.0, 10.0, is_internal=internal), const(g[1], (10.0, 20.0), is_internal=internal))
judge(result, "field", Model(c), ref, t, x, args, internal=internal)
judge(result, "scaled", Model(c), ref, t, x, args, internal=internal, scale=3.0)
""", inputs, max_paths=2000, **OPTS)
