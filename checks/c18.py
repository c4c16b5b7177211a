"""C18 time-dependent and constant coefficients: interpolation of the snapshots and degree restriction"""
import itertools

from sym.program import program
from checks.c16 import DEF as DEF16, G, X, times

DEF = DEF16 + """
from numpy import inf
NM1 = [(1, 0), (2, -1)]
NM2 = [(2, 1), (1, -1), (3, 0), (1, 0), (2, -2)]
def interpolate(ts, g, t, order):
    # value at t of the snapshots g at the distinct times ts (any order)
    n = len(ts)
    p = sorted(range(n), key=RANK(ts).__getitem__)
    ts, g = [ts[i] for i in p], [g[i] for i in p]
    if order == 1:
        j = 0
        for i in range(1, n):
            if ts[i] <= t:
                j = i
        return g[j]
    j = 0
    for i in range(1, n - 1):
        if ts[i] <= t:
            j = i
    return g[j] + (g[j + 1] - g[j]) * (t - ts[j]) / (ts[j + 1] - ts[j])
def RANK(ts):
    return [sum(1 for y in ts if bool(y < x)) for x in ts]
def array(nm, values, degree, lo=0, hi=99):
    a = np.zeros(((degree + 1) * (degree + 2) // 2, 2)).tolist()
    for (n, m), x in zip(nm, values):
        if lo <= n <= hi:
            a[n * (n + 1) // 2 + abs(m)][1 if m < 0 else 0] = x
    return a
def pad(coeff, degree, upto):
    # full array up to a degree of the returned coefficients
    coeff = np.array(coeff)
    n = (upto + 1) * (upto + 2) // 2
    ok = list(coeff.shape) == [(degree + 1) * (degree + 2) // 2, 2] and degree <= upto
    out = np.zeros((n, 2)).tolist()
    for i in range(min(n, coeff.shape[0])):
        for j in range(2):
            out[i][j] = coeff[i, j]
    return ok, out
"""
OPTS = dict(setup=DEF, rtol=1e-9)
PERMS = [p for n in (2, 3) for p in itertools.permutations(range(n))]
NAN = float("nan")


def run(k):
    k.bound("1-3 snapshots at any symbolic distinct times in every order, 4-node series in 6 (thorough: all 24) orders, spline "
            "orders 1 and 2, days and decimal years; degree/order lists of 1-9 entries (degrees 1-4, any coefficients); "
            "one symbolic time (any value, scalar and in arrays up to 2x2); all degree restrictions -1..5")
    k.assume("exact real arithmetic, results up to 1e-9; distinct snapshot times; linear series have at least two snapshots; "
             "a linear series extends its outer segments, a stepwise one holds its first and last snapshots outside of its times")
    jobs = [("times", symbolic), ("orders", orders), ("decimal", decimal), ("constant", constant), ("shapes", shapes),
            ("validity", validity), ("refused", refused), ("model", model), ("combinations", combinations)]
    for i in range(3):
        jobs.append((f"restricted {i}", lambda k, i=i: restricted(k, i)))
    k.parallel(jobs)


CODE = """
result = []
n = len(ts)
want = [interpolate(ts, g[i], t, order) for i in range(len(nm))]
c = Time(np.array(nm), np.array(g), np.array(ts), spline_order=order)
q, degree = c(t)
ok, q = pad(q, degree, 3)
result += [("size", ok, True), ("coefficients", q, array(nm, want, 3), 1e5)]
result.append(("degrees", [degree, c.degree, c.min_degree], [max(i for i, _ in nm), max(i for i, _ in nm), min(i for i, _ in nm)]))
lo, hi = c.validity
inside = not all([bool(t < x) for x in ts]) and not all([bool(t > x) for x in ts])
result.append(("valid", bool(c.is_valid(t)), inside))
"""


def symbolic(k):
    for n in (1, 2, 3):
        for order in (1, 2):
            if n == 1 and order == 2:
                continue
            for fixed in (True, False):
                for nm in ([(1, 0), (2, -1)],) if n == 3 else ([(1, 0), (2, -1)], [(3, 3), (1, -1), (2, 0)]):
                    def inputs(c):
                        ts = [c.real(f"s{i}", -2e4, 2e4) for i in range(n)]
                        for i in range(n):
                            for j in range(i):
                                c.assume(abs(ts[i] - ts[j]) > 1e-3)
                        if fixed:
                            # other times than those of the snapshots
                            t = c.real("t", -3e4, 3e4)
                            for x in ts:
                                c.assume(t != x)
                        else:
                            t = ts[n // 2]
                        return {"ts": ts, "t": t, "nm": nm, "order": order,
                                "g": [[c.real(f"g{i}_{j}", -6e4, 6e4) for j in range(n)] for i in range(len(nm))]}
                    program(k, f"{n} snapshots, order {order}{'' if fixed else ', at a snapshot'} {len(nm)}", CODE, inputs,
                            max_paths=6000, every=3, **OPTS)


def orders(k):
    grid = [-1000.5, 0.0, 365.25, 7000.75]
    perms = list(itertools.permutations(range(4)))
    for p in perms[::5] if k.quick else perms:
        for order in (1, 2):
            program(k, f"{p} order {order}", CODE + """
q, degree = c(np.array([t, 365.25, t]))
for i, x in enumerate((t, 365.25, t)):
    result.append((f"array {i}", pad(q[i], degree, 3)[1], array(nm, [interpolate(ts, g[j], x, order) for j in range(2)], 3), 1e5))
""", lambda c: {"ts": [grid[i] for i in p], "t": c.real("t", -3e3, 9e3), "nm": [(1, 0), (3, -2)], "order": order,
                "g": [[c.real(f"g{i}_{j}", -6e4, 6e4) for j in range(4)] for i in range(2)]}, **OPTS)


def decimal(k):
    for ys in ([2000.0, 2005.0], [2005.0, 2000.0], [2010.0, 2000.5, 2005.25], [2015.0, 2020.0, 2000.0]):
        for order in (1, 2):
            for m in (0, 2):
                program(k, f"{ys} {order} {m}", """
result = []
y = todec(t)
want = [interpolate(ys, g[i], y, order) for i in range(2)]
c = Dec(np.array(NM1), np.array(g), np.array(ys), spline_order=order)
q, degree = c(np.array([t, 2000.25]) if m else t)
if m:
    result.append(("coefficients", pad(q[1], degree, 2)[1],
                   array(NM1, [interpolate(ys, g[i], todec(2000.25), order) for i in range(2)], 2), 1e5))
    q = q[0]
result.append(("coefficients", pad(q, degree, 2)[1], array(NM1, want, 2), 1e5))
lo, hi = c.validity
result.append(("validity", [lo, hi], [fromdec(min(ys)), fromdec(max(ys))], 1e4))
result.append(("time scales", list(c.time_scales), ["decimal_year"]))
""", lambda c: {"ys": ys, "order": order, "m": m, "t": c.real("t", 3.0, 5400.0),
                "g": [[c.real(f"g{i}_{j}", -6e4, 6e4) for j in range(len(ys))] for i in range(2)]}, max_paths=4000, **OPTS)


def constant(k):
    for m in (0, 1, 2):
        program(k, f"constant {m}", """
result = []
c = Const(np.array(NM2), np.array(g), **opt)
q, degree = c(np.array([t, -t][:m]) if m else t)
for i in range(m or 1):
    result.append(("coefficients", pad(q[i] if m else q, degree, 3)[1], array(NM2, g, 3), 1e5))
result.append(("validity", list(c.validity), [-inf, inf]))
result.append(("valid", [bool(c.is_valid(t)), bool(c.is_valid(-t))], [True, True]))
result.append(("degrees", [degree, c.degree, c.min_degree], [3, 3, 1]))
result.append(("no time scale", list(c.time_scales), []))
""", lambda c: {"t": c.real("t", -1e6, 1e6), "m": m, "opt": {}, "g": [c.real(f"g{i}", -6e4, 6e4) for i in range(5)]}, **OPTS)


def shapes(k):
    for sh in ((0,), (1,), (2,), (2, 1), (2, 2), (0, 2), (1, 1, 2)):
        for cls in ("Time", "Dec", "Const"):
            def inputs(c):
                n = 1
                for i in sh:
                    n *= i
                t = [c.real(f"t{i}", 100.0, 900.0) for i in range(min(n, 2))] + [450.0, 500.0][:max(n - 2, 0)]
                for i in range(len(t)):
                    for j in range(i):
                        c.assume(abs(t[i] - t[j]) > 1e-3)
                return {"t": t, "sh": sh, "cls": cls, "g": [[c.real(f"g{i}_{j}", -6e4, 6e4) for j in range(2)] for i in range(2)]}
            program(k, f"{cls} {sh}", """
result = []
ts = np.array(t).reshape(sh) if len(t) else np.zeros(sh)
want = {}
for ix in np.ndindex(*sh):
    x = ts[ix]
    if cls == "Time":
        w = [g[i][0] + (g[i][1] - g[i][0]) * (x - 0.0) / 1000.0 for i in range(2)]
    elif cls == "Dec":
        w = [g[i][0] + (g[i][1] - g[i][0]) * (todec(x) - 2000.0) / 3.0 for i in range(2)]
    else:
        w = [g[i][0] for i in range(2)]
    want[ix] = w
c = {"Time": lambda: Time(np.array(NM1), np.array(g), np.array([1000.0, 0.0][::-1])),
     "Dec": lambda: Dec(np.array(NM1), np.array(g), np.array([2000.0, 2003.0])),
     "Const": lambda: Const(np.array(NM1), np.array([x[0] for x in g]))}[cls]()
q, degree = c(ts)
result.append(("shape", list(np.shape(q)), list(sh) + [6, 2]))
for ix in np.ndindex(*sh):
    result.append((f"coefficients {ix}", q[ix], array(NM1, want[ix], 2), 1e5))
""", inputs, max_paths=4000, **OPTS)


def validity(k):
    program(k, "given validity", """
result = []
for opt, lo, hi in (({}, 0.0, 1000.0), ({"validity_start": a}, a, 1000.0), ({"validity_end": b}, 0.0, b),
                    ({"validity_start": a, "validity_end": b}, a, b), ({"validity_start": None}, -inf, 1000.0),
                    ({"validity_end": None}, 0.0, inf)):
    c = Time(np.array(NM1), np.array(g), np.array([1000.0, 0.0]), **opt)
    result.append((f"validity {sorted(opt)}", list(c.validity), [lo, hi], 1e3))
    result.append((f"valid {sorted(opt)}", bool(c.is_valid(t)), bool(lo <= t) and bool(t <= hi)))
    d = Const(np.array(NM1), np.array([x[0] for x in g]), **opt)
    result.append((f"constant {sorted(opt)}", list(d.validity), [opt.get("validity_start", -inf) if opt.get("validity_start", 0) is not None else -inf,
                                                       opt.get("validity_end", inf) if opt.get("validity_end", 0) is not None else inf], 1e3))
# snapshots are not restricted by the validity
c = Time(np.array(NM1), np.array(g), np.array([1000.0, 0.0]), validity_start=a, validity_end=b)
q, degree = c(t)
result.append(("extended", q, array(NM1, [x[1] + (x[0] - x[1]) * t / 1000.0 for x in g], 2), 1e5))
d = Dec(np.array(NM1), np.array(g), np.array([2000.0, 2005.0]), validity_start=2001.0, validity_end=2004.0)
result.append(("decimal validity", list(d.validity), [fromdec(2001.0), fromdec(2004.0)], 1e3))
e = Time(np.array(NM1), np.array(g), np.array([2000.0, 2005.0]), to_mjd2000=fromdec)
result.append(("converted validity", list(e.validity), [fromdec(2000.0), fromdec(2005.0)], 1e3))
q, degree = e(t)
result.append(("converted times", q, array(NM1, [x[0] + (x[1] - x[0]) * (t - fromdec(2000.0)) / (fromdec(2005.0) - fromdec(2000.0)) for x in g], 2), 1e5))
for x, i in ((True, True), (False, False)):
    result.append(("source", Time(np.array(NM1), np.array(g), np.array([1000.0, 0.0]), is_internal=x).is_internal, i))
""", lambda c: {"t": c.real("t", -2e3, 3e3), "a": c.real("a", -1e3, -1.0), "b": c.real("b", 1001.0, 2000.0),
                "g": [[c.real(f"g{i}_{j}", -6e4, 6e4) for j in range(2)] for i in range(2)]}, max_paths=4000, **OPTS)


def refused(k):
    program(k, "inconsistent arguments", """
result = []
T2, C22, N2 = np.array([0.0, 1.0]), np.array([g, g]), np.array(NM1)
for name, call in (
    ("times rank", lambda: Time(N2, C22, np.array([[0.0, 1.0]]))), ("scalar time", lambda: Time(N2, C22, np.array(0.0))),
    ("coefficients rank", lambda: Time(N2, np.array(g), T2)), ("coefficients rank 3", lambda: Time(N2, np.array([C22]), T2)),
    ("number of times", lambda: Time(N2, C22, np.array([0.0, 1.0, 2.0]))),
    ("number of coefficients", lambda: Time(np.array(NM2), C22, T2)),
    ("spline order", lambda: Time(N2, C22, T2, spline_order=3)), ("spline order 0", lambda: Time(N2, C22, T2, spline_order=0)),
    ("constant rank", lambda: Const(N2, C22)), ("constant number", lambda: Const(np.array(NM2), np.array(g))),
    ("decimal", lambda: Dec(N2, C22, np.array([2000.0]))), ("indices rank", lambda: Time(np.array([1, 2]), C22, T2)),
    ("indices columns", lambda: Time(np.array([(1, 0, 0), (2, 1, 0)]), C22, T2)),
    ("constant indices", lambda: Const(np.array([(1, 0, 0), (2, 1, 0)]), np.array(g))),
    ("ok", lambda: Time(N2, C22, T2))):
    try:
        call()
        got = "accepted"
    except (ValueError, IndexError) as e:
        got = "refused"
    result.append((name, got, "accepted" if name == "ok" else "refused"))
""", lambda c: {"g": [c.real(f"g{i}", -6e4, 6e4) for i in range(2)]}, **OPTS)


LISTS = [
    [(1, 0), (1, 1), (1, -1), (2, 0), (2, 1), (2, -1), (2, 2), (2, -2), (4, 3)],
    [(3, -3), (2, 0), (4, 1), (2, -2)],
    [(4, 4), (4, -4), (1, 1), (3, 0), (1, 0)],
]


def restricted(k, i):
    nm = LISTS[i]
    for kind in ("time", "step", "const"):
        def inputs(c):
            return {"nm": nm, "kind": kind, "t": c.real("t", -2e3, 3e3),
                    "g": [[c.real(f"g{i}_{j}", -6e4, 6e4) for j in range(2)] for i in range(len(nm))]}
        program(k, f"{kind} {nm}", """
result = []
if kind == "const":
    want = [x[0] for x in g]
    c = Const(np.array(nm), np.array(want))
else:
    order = 2 if kind == "time" else 1
    want = [interpolate([500.0, 0.0], x, t, order) for x in g]
    c = Time(np.array(nm), np.array(g), np.array([500.0, 0.0]), spline_order=order)
for lo in range(-1, 6):
    for hi in range(-1, 6):
        for opt in ({"min_degree": lo, "max_degree": hi}, {"min_degree": lo}, {"max_degree": hi}):
            if len(opt) == 1 and (lo if "max_degree" in opt else hi) != -1:
                continue
            q, degree = c(t, **opt)
            ok, q = pad(q, degree, 4)
            result += [("size", ok, True),
                       (f"degrees {opt}", q, array(nm, want, 4, lo if opt.get("min_degree", -1) >= 0 else 0,
                                                  hi if opt.get("max_degree", -1) >= 0 else 99), 1e5)]
""", inputs, max_paths=4000, **OPTS)


RESTRICT = [{"min_degree": 2}, {"max_degree": 1}, {"min_degree": 2, "max_degree": 2}, {"max_degree": 0}, {"min_degree": 3},
            {"min_degree": 5}, {"min_degree": 2, "max_degree": 1}, {"max_degree": 2, "scale": -2.0}, {"max_degree": 9}, {}]


def model(k):
    """model evaluations with restricted degrees and every kind of coefficients"""
    for opt in RESTRICT:
        for kind in ("time", "step", "const", "dec", "combined", "combined steps", "mixed", "composed"):
            for nt in (0, 2) if kind != "mixed" or not k.quick else (0,):
                def inputs(c):
                    t = c.real("t", 10.0, 700.0)
                    for x in (350.0, 366.0, 500.0):
                        c.assume(abs(t - x) > 1e-3)
                    return {"kind": kind, "opt": opt, "nt": nt, "t": t, "x": X(c),
                            "g": [[c.real(f"g{i}_{j}", -6e4, 6e4) for j in range(2)] for i in range(4)]}
                program(k, f"{kind} {nt} {opt}", MODEL, inputs, max_paths=4000, **OPTS)


MODEL = """
result = []
NMA, NMB = [(2, 1), (1, 0)], [(1, -1), (3, 2)]
GA, GB = g[:2], g[2:]
ta = t if nt == 0 else np.array([t, 350.0])
first = lambda y: [x[0] for x in y]
make = {
    "time": lambda: (Time(np.array(NMA), np.array(GA), np.array([900.0, 0.0])),),
    "step": lambda: (Time(np.array(NMA), np.array(GA), np.array([500.0, 0.0]), spline_order=1, validity_end=900.0),),
    "const": lambda: (Const(np.array(NMA), np.array(first(GA))),),
    "dec": lambda: (Dec(np.array(NMA), np.array(GA), np.array([2003.0, 2000.0])),),
    "combined": lambda: (Combined(Time(np.array(NMA), np.array(GA), np.array([900.0, 0.0])),
                                  Const(np.array(NMB), np.array(first(GB)))),),
    "combined steps": lambda: (Combined(Time(np.array(NMA), np.array(GA), np.array([0.0, 500.0]), spline_order=1, validity_end=900.0),
                                        Time(np.array(NMB), np.array(GB), np.array([0.0, 900.0]))),),
    "mixed": lambda: (Combined(Dec(np.array(NMA), np.array(GA), np.array([2000.0, 2003.0])),
                               Time(np.array(NMB), np.array(GB), np.array([0.0, 900.0]))),),
    "composed": lambda: (Composed(Time(np.array(NMA), np.array(GA), np.array([366.0, 0.0])),
                                  Time(np.array(NMB), np.array(GB), np.array([366.0, 900.0]))),),
}[kind]
def coefficients(t):
    a = [interpolate([900.0, 0.0], x, t, 2) for x in GA]
    b = [interpolate([0.0, 900.0], x, t, 2) for x in GB]
    lo, hi = opt.get("min_degree", 0), opt.get("max_degree", 9)
    if kind in ("step", "combined steps"):
        a = [interpolate([500.0, 0.0] if kind == "step" else [0.0, 500.0], x, t, 1) for x in GA]
    elif kind == "const":
        a = first(GA)
    elif kind == "dec":
        a = [interpolate([2003.0, 2000.0], x, todec(t), 2) for x in GA]
    elif kind == "mixed":
        a = [interpolate([2000.0, 2003.0], x, todec(t), 2) for x in GA]
    elif kind == "combined":
        b = first(GB)
    if kind == "composed":
        if t <= 366.0:
            b, a = [0.0, 0.0], [interpolate([366.0, 0.0], x, t, 2) for x in GA]
        else:
            a, b = [0.0, 0.0], [interpolate([366.0, 900.0], x, t, 2) for x in GB]
    elif kind not in ("combined", "combined steps", "mixed"):
        b = [0.0, 0.0]
    return array(NMA + NMB, a + b, 3, lo, hi)
want = [coefficients(x) for x in ((t,) if nt == 0 else (t, 350.0))]
m = Model(make()[0])
got = m.eval(ta, np.array(x), **opt)
for i, w in enumerate(want):
    e = -sheval(np.array(x), np.array(w), SPH, SPH, mode=GRADIENT, degree=3) * opt.get("scale", 1.0)
    result.append((f"field {i}", got[i] if nt else got, e, 1e5))
"""


def combinations(k):
    """the same list of coefficients split among sets in every way gives the same combination"""
    for cut in (1, 2, 3, 4):
        program(k, f"split at {cut}", """
result = []
ts = [0.0, 100.0]
c = Combined(Time(np.array(NM2[:cut]), np.array(g[:cut]), np.array(ts)), Time(np.array(NM2[cut:]), np.array(g[cut:]), np.array(ts)))
d = Time(np.array(NM2), np.array(g), np.array(ts))
want = [interpolate(ts, y, t, 2) for y in g]
for o in (c, d):
    q, degree = o(t)
    result.append(("coefficients", pad(q, degree, 3)[1], array(NM2, want, 3), 1e5))
""", lambda c: {"cut": cut, "t": c.real("t", -2e3, 2e3),
                "g": [[c.real(f"g{i}_{j}", -6e4, 6e4) for j in range(2)] for i in range(5)]}, **OPTS)
