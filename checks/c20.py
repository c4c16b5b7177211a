"""C20 ionospheric (MIO) models"""
from sym.program import program
from checks.c09 import nest
from checks.c13 import prepare
from checks.c16 import DEF as DEF16, X

DEF = DEF16 + """
from numpy import inf
from eoxmagmod import (mjd2000_to_year_fraction as yearfraction, mjd2000_to_magnetic_universal_time as mut)
from eoxmagmod._pymm import fourier2d
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO as Mio
from eoxmagmod.magnetic_model.model_mio import DipoleMIOGeomagneticModel as Model, MIOPrimaryGeomagneticModel as Primary
from eoxmagmod.magnetic_model.loader_mio import convert_external_mio_coeff as toint
NM = [(2, 1), (1, 0), (1, -1)]
EXT = (-1, 1, 0, 1)      # pmin, pmax, smin, smax
PI = math.pi
NAN = float("nan")
def coeff(g, n=3, ext=EXT):
    # n coefficients of two symbols each (the other terms of the series: fixed multiples)
    ns, np_ = ext[3] - ext[2] + 1, ext[1] - ext[0] + 1
    return np.array([[[[g[(2 * i + 3 * a + b + c) % len(g)] * (1.0 + 0.25 * (a + 2 * b + c)) for c in range(2)]
                       for b in range(np_)] for a in range(ns)] for i in range(n)])
def series(cf, t, m, ext=EXT):
    return fourier2d(yearfraction(t), m, cf, ext[2], ext[0], 2 * PI, 2 * PI / 24.0)
def mio(g, pole, wolf, internal=True, nm=NM, ext=EXT, **k):
    # model and its reference
    cf = coeff(g, len(nm), ext)
    model = Model(Mio(np.array(nm), cf, ext, is_internal=internal, **k), pole, wolf_ratio=wolf)
    lo, hi = k.get("validity_start", -inf), k.get("validity_end", inf)
    def ref(t, x, cin=SPH, cout=SPH, f107=None, lat_sol=None, lon_sol=None, scale=1.0, min_degree=0, max_degree=9):
        if bool(np.isnan(t)) or not (bool(t >= lo) and bool(t <= hi)) or (f107 is not None and bool(np.isnan(f107))):
            return np.array([NAN] * 3)
        q = series(cf, t, mut(t, pole[0], pole[1], lat_sol, lon_sol), ext)
        n = max(a for a, _ in nm)
        f = np.zeros(((n + 1) * (n + 2) // 2, 2)).tolist()
        for i, (a, b) in enumerate(nm):
            if min_degree <= a <= max_degree:
                f[a * (a + 1) // 2 + abs(b)][1 if b < 0 else 0] = q[i]
        v = -sheval_dipole(np.array(x), np.array(f), pole[0], pole[1], cin, cout, mode=GRADIENT, is_internal=internal, degree=n)
        return v * scale * (1.0 if f107 is None else 1.0 + wolf * f107)
    return model, ref
def element(v, ix):
    # element of an optional array of any smaller rank
    if v is None:
        return None
    v = np.array(v)
    return v[ix[:v.ndim]] if v.ndim else v
def judge(result, label, model, ref, t, x, args=(), **opt):
    t, x = np.array(t), np.array(x)
    sh = t.shape if t.ndim >= x.ndim - 1 else x.shape[:-1]
    want = {}
    for ix in np.ndindex(*sh):
        own = {k: element(v, ix) if k in ("f107", "lat_sol", "lon_sol") else v for k, v in opt.items()}
        want[ix] = ref(t[ix[:t.ndim]], x[ix[:x.ndim - 1]], *args, **own)
    given = {k: np.array(v) if isinstance(v, list) else v for k, v in opt.items()}
    got = model.eval(t, x, *args, **given)
    result.append((label + " shape", list(np.shape(got)), list(sh) + [3]))
    for ix in np.ndindex(*sh):
        result.append((label + f" {ix}", got[ix], want[ix], 1e5))
def primary(below, above, height, radius=6371.2):
    model = Primary(below[0], above[0], height=height, earth_radius=radius)
    def ref(t, x, cin=SPH, cout=SPH, **opt):
        y = convert(np.array(x), cin, SPH)
        return (below if bool(y[2] <= radius + height) else above)[1](t, y, SPH, cout, **opt)
    return model, ref
"""
OPTS = dict(setup=DEF, rtol=1e-9)
POLE = (80.0, -72.0)


def run(k):
    k.bound("three coefficients of degrees 1-2, series of 2x3 and 3x2 terms, any coefficients, Wolf ratio, F10.7, scale; any time "
            "in 2018-11..2020-04 (all of a year and the turn of the years), NaN and out-of-validity times; given and default "
            "sub-solar points; scalars and arrays up to 2x2 of all combinations of ranks of time, position, F10.7 and the "
            "sub-solar point; any radius and ionospheric height; conversion of external coefficients of degrees 1-6")
    k.assume("exact real arithmetic, results up to 1e-9; the components (year fraction, magnetic universal time, Fourier series, "
             "dipole-frame expansion) are decided by C12, C15, C06, C14; distinct times and coordinates within one call (C03); "
             "without F10.7 the field is not scaled")
    jobs = [("times", times), ("shapes 0", lambda k: shapes(k, 0)), ("shapes 1", lambda k: shapes(k, 1)), ("missing data", missing),
            ("options", options), ("switch", switch), ("primary shapes 0", lambda k: pshapes(k, 0)),
            ("primary shapes 1", lambda k: pshapes(k, 1)), ("continuity", continuity), ("coefficients", coefficients),
            ("frames", frames)]
    k.parallel(jobs)


G = lambda c, n=4, p="g": [c.real(f"{p}{i}", -100.0, 100.0) for i in range(n)]
T = lambda c, n="t": c.real(n, 6880.0, 7390.0)
SUN = lambda c, n="": {"ls": c.real("ls" + n, -23.5, 23.5), "lo": c.real("lo" + n, -180.0, 180.0)}
P = (40.0, -100.0, 6900.0)


def times(k):
    for sun in (True, False):
        for lo, hi in ((6880.0, 6930.0), (6940.0, 7100.0), (7295.0, 7315.0), (7664.0, 7676.0)):
            if k.quick and not sun and lo not in (6940.0, 7295.0):
                continue

            def inputs(c):
                prepare(c)
                t = c.real("t", lo, hi)
                if lo <= 7000.25 <= hi:
                    c.assume(abs(t - 7000.25) > 1e-3)
                return {"t": t, "g": G(c), "w": c.real("w", -1.0, 1.0), "f": c.real("f", 0.0, 400.0),
                        "s": c.real("s", -10.0, 10.0), **(SUN(c) if sun else {"ls": None, "lo": None})}
            program(k, f"time {lo}-{hi} {'given' if sun else 'built-in'} Sun", """
result = []
x = (40.0, -100.0, 6900.0)
m, ref = mio(g, (80.0, -72.0), w)
o = {"lat_sol": ls, "lon_sol": lo} if ls is not None else {}
judge(result, "field", m, ref, t, x, f107=f, **o)
judge(result, "scaled", m, ref, t, x, f107=f, scale=s, **o)
judge(result, "no F10.7", m, ref, t, x, **o)
judge(result, "array", m, ref, [t, 7000.25], x, f107=[f, 100.0], **o)
""", inputs, max_paths=3000, **OPTS)


# ranks of time, position, F10.7, sub-solar point (None: not given)
COMBOS = [(t, x, f, s) for t in ((), (2,), (2, 2)) for x in ((3,), (2, 3), (2, 2, 3)) for f in (None, (), (2,), (2, 2))
          for s in (None, (), (2,), (2, 2))]


def usable(t, x, f, s):
    n = max(len(t), len(x) - 1)
    return all(v is None or len(v) <= n for v in (f, s))


def values(c, name, sh, lo, hi, own=None):
    """distinct values of an array: one of them symbolic (if own), the others fixed"""
    n = [0]

    def f(s):
        n[0] += 1
        if own and n[0] == 2:
            return c.real(name, lo, hi)
        return lo + (hi - lo) * (0.13 + 0.17 * n[0])
    return nest(sh, f) if sh else (c.real(name, lo, hi) if own else lo + 0.37 * (hi - lo))


def combination(c, t, x, f, s):
    n = [0]

    def place(_):
        n[0] += 1
        return [10.0 + 7.5 * n[0], -100.0 + 31.0 * n[0], 6300.0 + 90.0 * n[0]]
    d = {"t": values(c, "t", t, 6900.0, 7000.0), "x": nest(x[:-1], place) if len(x) > 1 else place(""),
         "g": G(c), "h": G(c, 4, "h"), "f": None if f is None else values(c, "f", f, 50.0, 250.0, own=True),
         "ls": None if s is None else values(c, "ls", s, -23.0, 23.0), "lo": None if s is None else values(c, "lo", s, -170.0, 160.0)}
    return d


def shapes(k, part):
    combos = [q for q in COMBOS if usable(*q)]
    for i, q in enumerate(combos):
        if i % 2 != part or (k.quick and i % 3 == 2 and len(q[0]) == 2):
            continue
        program(k, f"shapes {q}", """
result = []
m, ref = mio(g, (80.0, -72.0), 0.015)
o = {k: v for k, v in dict(f107=f, lat_sol=ls, lon_sol=lo).items() if v is not None}
judge(result, "field", m, ref, t, x, **o)
""", lambda c: combination(c, *q), max_paths=200, every=10, **OPTS)


def pshapes(k, part):
    combos = [q for q in COMBOS if usable(*q)]
    for i, q in enumerate(combos):
        if i % 2 != part or (k.quick and i % 3 == 1 and len(q[0]) == 2):
            continue
        program(k, f"primary shapes {q}", """
result = []
m, ref = primary(mio(g, (80.0, -72.0), 0.015, internal=False), mio(h, (80.0, -72.0), 0.015), 110.0)
o = {k: v for k, v in dict(f107=f, lat_sol=ls, lon_sol=lo).items() if v is not None}
judge(result, "field", m, ref, t, x, **o)
""", lambda c: combination(c, *q), max_paths=200, every=10, **OPTS)


def missing(k):
    for kind in ("model", "primary"):
        head = """
result = []
v = dict(validity_start=a, validity_end=b)
m, ref = mio(g, (80.0, -72.0), 0.015, **v)
if kind == "primary":
    m, ref = primary(mio(h, (80.0, -72.0), 0.015, internal=False, **v), (m, ref), 110.0)
x = (40.0, -100.0, 6400.0)
y = (-20.0, 30.0, 6900.0)
o = {"lat_sol": 12.5, "lon_sol": -30.25}
"""
        data = lambda c: {"a": 6910.25, "b": 6990.75, "g": G(c), "h": G(c, 4, "h"), "f": c.real("f", 50.0, 250.0), "kind": kind}
        for label, rows in (("scalar", "t, x, f107=f"), ("times", "[6950.0, NAN, t, 6952.0], [x, y, y, x], f107=[NAN, f, 70.0, f]"),
                            ("times, one position", "[6950.0, NAN, t], y, f107=[f, f, NAN]"),
                            ("grid", "[6950.0, t], [[x, y], [y, x]], f107=[[NAN, f], [f, NAN]]")):
            program(k, f"missing data {kind} {label}", head + f"""
judge(result, "{label}", m, ref, {rows}, **o)
""", lambda c: {"t": T2(c), **data(c)}, max_paths=2000, **OPTS)
        for ts in ([6910.25, 6990.75, 6930.0], [6910.2, 6990.8, 6990.7], [NAN_, 6910.3, -1e9]):
            program(k, f"missing data {kind} {ts}", head + """
for t in ts:
    judge(result, "scalar", m, ref, t, x, f107=f, **o)
t = ts[0]
judge(result, "locations", m, ref, t, [x, y, x], f107=[NAN, f, 100.0], **o)
judge(result, "NaN F10.7", m, ref, t, x, f107=NAN, **o)
judge(result, "none left", m, ref, t, [x, y], f107=[NAN, NAN], **o)
judge(result, "times", m, ref, ts + [6952.0], [x, y, y, x], f107=[f, f, 70.0, NAN], **o)
judge(result, "times, one F10.7", m, ref, ts + [6952.0], [x, y, y, x], f107=f, **o)
judge(result, "times, one position", m, ref, ts + [6952.0], y, f107=[f, 2.0 * f, f, NAN], **o)
judge(result, "times, no F10.7", m, ref, ts, x, **o)
judge(result, "times, Sun of each", m, ref, ts, [x, y, x], f107=f, lat_sol=[1.0, 2.0, 3.0], lon_sol=[4.0, 6.0, 5.0])
judge(result, "rows", m, ref, ts[:2], [[x, y], [y, x]], f107=[NAN, f], lat_sol=[1.0, 2.0], lon_sol=[3.0, 4.0])
judge(result, "grid", m, ref, ts[1:], [[x, y], [y, x]], f107=[[NAN, f], [f, NAN]], lat_sol=[[1.0, 2.0], [3.0, 5.0]], lon_sol=7.0)
lo, hi = m.validity
result.append(("validity", [lo, hi], [a, b], 1e4))
""", lambda c: {"ts": ts, **data(c)}, max_paths=2000, **OPTS)
    # missing data with the built-in Sun
    program(k, "missing data built-in Sun", head.replace('"primary"', '"-"') + """
judge(result, "times", m, ref, [6950.0, NAN, 6905.0, 6952.0], [x, y, y, x], f107=[NAN, f, 70.0, f])
judge(result, "locations", m, ref, 6950.0, [x, y, x], f107=[NAN, f, 100.0])
""", data, max_paths=2000, **OPTS)


NAN_ = float("nan")


def T2(c):
    t = c.real("t", 6900.0, 7000.0)
    for other in (6950.0, 6952.0):
        c.assume(abs(t - other) > 1e-3)
    return t


def options(k):
    for opt in ({}, {"min_degree": 2}, {"max_degree": 1}, {"max_degree": 0}, {"min_degree": 1, "max_degree": 1}, {"min_degree": 3}):
        for internal in (True, False):
            program(k, f"options {opt} {internal}", """
result = []
m, ref = mio(g, pole, w, internal=internal)
n, refn = mio(g, pole, w, internal=internal, ext=(0, 1, -1, 1))
for i, (q, r) in enumerate(((m, ref), (n, refn))):
    judge(result, f"{i}", q, r, 6950.25, (40.0, -100.0, 6900.0), f107=f, lat_sol=-10.5, lon_sol=50.25, scale=s, **opt)
    judge(result, f"array {i}", q, r, [6950.25, 6800.5], (40.0, -100.0, 6900.0), f107=f, lat_sol=-10.5, lon_sol=[50.25, 8.0], **opt)
result.append(("degrees", [m.degree, m.min_degree], [2, 1]))
""", lambda c: {"g": G(c), "w": c.real("w", -1.0, 1.0), "f": c.real("f", 0.0, 400.0), "s": c.real("s", -10.0, 10.0),
                "pole": POLE, "opt": opt, "internal": internal}, max_paths=500, **OPTS)
    program(k, "wrong coefficients", """
result = []
try:
    Model(Const(np.array([(1, 0)]), np.array(g[:1])), (80.0, -72.0))
    got = "accepted"
except TypeError:
    got = "refused"
result.append(("coefficients", got, "refused"))
""", lambda c: {"g": G(c)}, **OPTS)


def switch(k):
    """variant below and above the ionosphere"""
    program(k, "switch", """
result = []
m, ref = primary(mio(g, (80.0, -72.0), 0.015, internal=False), mio(h, (80.0, -72.0), 0.015), height, radius)
x = (40.0, -100.0, r)
judge(result, "radius", m, ref, 6950.0, x, f107=f)
judge(result, "array", m, ref, [6950.0, 6960.0], [x, (10.0, 20.0, 9500.0)], f107=[f, 80.0])
judge(result, "at the height", m, ref, 6950.0, (40.0, -100.0, radius + height), f107=f)
""", lambda c: {"r": c.real("r", 6000.0, 9000.0), "height": c.real("height", 50.0, 1000.0), "radius": c.real("radius", 6371.0, 6372.0),
                "g": G(c), "h": G(c, 4, "h"), "f": c.real("f", 0.0, 400.0)}, max_paths=500, **OPTS)
    program(k, "parameters of the parts", """
result = []
b = mio(g, (80.0, -72.0), 0.015, internal=False, nm=nb, validity_start=s[0], validity_end=s[1])
a = mio(h, (80.0, -72.0), 0.015, nm=na, validity_start=s[2], validity_end=s[3])
m = Primary(b[0], a[0])
result.append(("degrees", [m.degree, m.min_degree], [3, 1]))
m = Primary(a[0], b[0])
result.append(("degrees", [m.degree, m.min_degree], [3, 1]))
lo, hi = m.validity
result.append(("valid", bool(lo <= t) and bool(t <= hi), bool(max(s[0], s[2]) <= t) and bool(t <= min(s[1], s[3]))))
result.append(("height", [m.height, m.earth_radius], [110.0, 6371.2]))
""", lambda c: {"g": G(c), "h": G(c, 4, "h"), "nb": [(1, 0), (2, 1)], "na": [(3, 0), (2, -1)], "t": c.real("t", -10.0, 50.0),
                "s": [c.real(f"s{i}", 0.0, 40.0) for i in range(4)]}, max_paths=500, **OPTS)


def frames(k):
    for cin, cout in [(i, o) for i in range(3) for o in range(3)]:
        pos = {0: [(40.5, -100.25, 50.0), (-80.25, 170.5, 500.0)], 1: [(40.5, -100.25, 6400.0), (-80.25, 170.5, 6950.0)],
               2: [(3000.0, -2500.0, 5100.0), (-10.0, 300.0, -6900.0)]}[cin]
        for kind in ("model", "primary"):
            program(k, f"frames {cin}{cout} {kind}", """
result = []
m, ref = mio(g, (80.0, -72.0), 0.015)
if kind == "primary":
    m, ref = primary(mio(h, (80.0, -72.0), 0.015, internal=False), (m, ref), 110.0)
judge(result, "positions", m, ref, 6950.25, pos, (cin, cout), f107=[f, 2.0 * f], lat_sol=ls, lon_sol=50.25)
judge(result, "times", m, ref, [6950.25, 6960.5], pos, (cin, cout), f107=f, lat_sol=[ls, 12.0], lon_sol=50.25, scale=s)
""", lambda c: {"g": G(c), "h": G(c, 4, "h"), "f": c.real("f", 0.0, 400.0), "s": c.real("s", -10.0, 10.0), "pos": pos, "cin": cin,
                "cout": cout, "ls": -10.5, "kind": kind}, max_paths=500, **OPTS)


def continuity(k):
    """radial component of the external field below and of its internal counterpart above"""
    for nm in ([(1, 0), (1, 1), (1, -1)], [(2, 0), (1, -1), (2, 2), (2, -1)], [(3, 1), (1, 1), (3, -3)], [(6, 0), (4, -2), (5, 5)]):
        for h in ([0.0, 110.0, 250.0, 1000.0] + [None] * (nm[0][0] < 3)):
            program(k, f"continuity {nm} {h}", """
result = []
n = max(a for a, _ in nm)
q = np.array(g)
R = 6371.2 + h if R is None else R
p = toint(n, np.array(nm), q, R - 6371.2)
result.append(("shape", list(np.shape(p)), [len(nm), 2]))
for j in range(2):
    field = []
    for v, internal in ((q, False), (p, True)):
        f = np.zeros(((n + 1) * (n + 2) // 2, 2)).tolist()
        for i, (a, b) in enumerate(nm):
            f[a * (a + 1) // 2 + abs(b)][1 if b < 0 else 0] = v[i, j]
        field.append(sheval(np.array([lat, lon, R]), np.array(f), SPH, SPH, mode=GRADIENT, is_internal=internal, degree=n)[2])
    result.append((f"radial component {j}", field[1], field[0], 1e3))
""", lambda c: {"nm": nm, "h": h, "R": c.real("R", 6381.2, 7371.2) if h is None else None, "lat": c.real("lat", -89.0, 89.0),
                "lon": c.real("lon", -180.0, 180.0), "g": [[c.real(f"g{i}_{j}", -100.0, 100.0) for j in range(2)] for i in range(len(nm))]},
                    max_paths=200, setup=DEF, rtol=1e-8)


def coefficients(k):
    for ext in (EXT := (-1, 1, 0, 1), (0, 1, -1, 1), (0, 0, 0, 0), (-2, -1, 2, 2)):
        for sh in ((), (2,)):
            program(k, f"coefficients {ext} {sh}", """
result = []
cf = coeff(g, 3, ext)
c = Mio(np.array(NM), cf, ext)
tt, mm = (np.array([t, 7000.5]), np.array([m, 3.25])) if sh else (t, m)
for opt in ({}, {"max_degree": 1}, {"min_degree": 2}):
    q, degree = c(tt, mm, **opt)
    for i in range(2 if sh else 1):
        e = series(cf, tt[i] if sh else t, mm[i] if sh else m, ext)
        f = np.zeros((6, 2)).tolist()
        for j, (a, b) in enumerate(NM):
            if opt.get("min_degree", 0) <= a <= opt.get("max_degree", 9):
                f[a * (a + 1) // 2 + abs(b)][1 if b < 0 else 0] = e[j]
        size = (degree + 1) * (degree + 2) // 2
        result.append(("shape", list(np.shape(q)), list(sh) + [size, 2]))
        result.append((f"coefficients {opt}", q[i] if sh else q, f[:size], 1e3))
result.append(("validity", list(c.validity), [-inf, inf]))
for bad in ((1, 0, 0, 1), (0, 1, 1, 0)):
    try:
        Mio(np.array(NM), cf, bad)
        got = "accepted"
    except Exception:
        got = "refused"
    result.append(("extent", got, "refused"))
""", lambda c: {"ext": ext, "sh": sh, "g": G(c), "t": c.real("t", 6950.0, 7200.0), "m": c.real("m", 0.0, 24.0)},
                    max_paths=500, **OPTS)
