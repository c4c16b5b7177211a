"""C24 quasi-dipole coordinates and local times, element by element"""
from sym import harness
from sym.program import program

DEF = """
from eoxmagmod import eval_qdlatlon, eval_qdlatlon_with_base_vectors, eval_mlt, eval_subsol
from eoxmagmod.data import APEX_LATEST, APEX_2015, APEX_2020
DAY = 1.0 / 365.25 + 1e-5
NAMES = ["qdlat", "qdlon", "f11", "f12", "f21", "f22", "f"]
def near(ts, i, limit):
    # the main field may be that of an earlier element of the array not more than one day away
    return [ts[i]] + [ts[j] for j in range(i) if bool(abs(ts[j] - ts[i]) <= limit)]
def flat(x):
    return [x[i] for i in range(len(x))] if np.shape(x) else [x]
def check_qd(label, lat, lon, rad, year, base=False, file=None, shape=None, wrap=None):
    n = len(lat)
    cand = [near(year, i, DAY) for i in range(n)]
    want = [[ref_qd(lat[i], lon[i], rad[i], year[i], file or APEX_LATEST, base, e) for e in cand[i]] for i in range(n)]
    f = eval_qdlatlon_with_base_vectors if base else eval_qdlatlon
    args = [a[0] if shape == () else np.array(a, dtype=float) for a in (lat, lon, rad, year)]
    if wrap:
        args = wrap(args)
    r = f(*args, file) if file else f(*args)
    result.append((label + " outputs", len(r), 7 if base else 2))
    for k in range(len(r)):
        result.append((label + " shape of " + NAMES[k], list(np.shape(r[k])), [] if shape == () else [n]))
        v = flat(r[k])
        for i in range(n):
            result.append((label + f" {NAMES[k]} {i}", v[i], oneof(v[i], [w[k] for w in want[i]]), 1.0))
def check_mlt(label, lon, t, shape=None, wrap=None):
    n = len(t)
    cand = [near(t, i, 1.01) for i in range(n)]
    want = [[ref_mlt(lon[i], t[i], e) for e in cand[i]] for i in range(n)]
    args = [a[0] if shape == () else np.array(a, dtype=float) for a in (lon, t)]
    if wrap:
        args = wrap(args)
    r = eval_mlt(*args)
    result.append((label + " shape", list(np.shape(r)), [] if shape == () else [n]))
    v = flat(r)
    for i in range(n):
        result.append((label + f" mlt {i}", v[i], oneof(v[i], want[i]), 1.0))
def check_sun(label, t, shape=None, wrap=None):
    n = len(t)
    want = [ref_subsol(x) for x in t]
    args = [t[0] if shape == () else np.array(t, dtype=float)]
    if wrap:
        args = wrap(args)
    r = eval_subsol(*args)
    result.append((label + " outputs", len(r), 2))
    for k, name in enumerate(["latitude", "longitude"]):
        result.append((label + " shape of " + name, list(np.shape(r[k])), [] if shape == () else [n]))
        v = flat(r[k])
        for i in range(n):
            result.append((label + f" {name} {i}", v[i], want[i][k], 1.0))
def refused(f, *args):
    try:
        f(*args)
    except ValueError:
        return "ValueError"
    return "accepted"
result = []
"""
OPTS = dict(setup=DEF, rtol=2e-6, compare=False)
# days since 2000-01-01
DAYS = (5000, 5001, 0, 59, -1, -365, -366, 8826, 60, 366, 1461, -10000, 36000)
WRAPS = {
    "slice": "lambda a: [np.array([[x, 0.25] for x in flat(y)])[:, 0] for y in a]",
    "reversed": "lambda a: [np.array(flat(y)[::-1])[::-1] for y in a]",
    "list": "lambda a: [flat(y) for y in a]",
    "tuple": "lambda a: [tuple(flat(y)) for y in a]",
}


def run(k):
    harness.QD = True
    k.bound("arrays of 0..3 elements (thorough 5) and scalars; any positions, any epochs (decimal years 1981..2029), times of the day on "
            "13 listed days from 1972 to 2098 with any fraction; sequences of up to 4 calls with different epochs and coefficient files; "
            "contiguous, strided and reversed arrays, lists and tuples")
    k.assume("the apex routines (coefficient loading and interpolation to an epoch, apex expansion, geodetic conversion, "
             "dipole axis, sub-solar point, local-time formula) are uninterpreted functions of their arguments; seconds are not rounded, single "
             "precision is treated as exact; the main field of an element may be that of an earlier element within one day")
    k.parallel([("qd", qd), ("histories", histories), ("mlt", mlt), ("sun", sun), ("layouts", layouts), ("refused", refused)])


def position(c, n):
    return {"lat": [c.real(f"lat{i}", -89.0, 89.0) for i in range(n)], "lon": [c.real(f"lon{i}", -170.0, 170.0) for i in range(n)],
            "rad": [c.real(f"rad{i}", 6400.0, 8000.0) for i in range(n)]}


def years(c, n):
    return [c.real(f"year{i}", 1981.0, 2029.0) for i in range(n)]


def times(c, days):
    return [core_add(c.real(f"frac{i}", 0.001, 0.999), d) for i, d in enumerate(days)]


def core_add(x, d):
    return x + float(d)


def qd(k):
    for base in (False, True):
        for n in (0, 1, 2, 3) if k.quick else (0, 1, 2, 3, 4, 5):
            program(k, f"qd {n} {base}", """
check_qd("array", lat, lon, rad, year, base)
""", lambda c: {**position(c, n), "year": years(c, n), "base": base}, **OPTS)
        program(k, f"qd scalar {base}", """
check_qd("scalar", lat, lon, rad, year, base, None, ())
check_qd("file", lat, lon, rad, year, base, APEX_2020, ())
""", lambda c: {**position(c, 1), "year": years(c, 1), "base": base}, **OPTS)


def histories(k):
    for order in ((0, 1), (1, 0), (0, 0), (1, 1)):
        program(k, f"history {order}", """
check_qd("first", lat[:1], lon[:1], rad[:1], year[:1], bool(a))
check_qd("second", lat[1:], lon[1:], rad[1:], year[1:], bool(b), APEX_2015)
check_qd("third", lat[:1], lon[:1], rad[:1], year[:1], bool(a))
check_qd("fourth", lat[1:], lon[1:], rad[1:], year[1:], bool(b))
check_qd("fifth", lat[1:], lon[1:], rad[1:], year[:1], bool(b), APEX_2015)
""", lambda c: {**position(c, 2), "year": years(c, 2), "a": order[0], "b": order[1]}, **OPTS)
    program(k, "history mlt", """
check_mlt("first", lon[:1], t[:1])
check_mlt("second", lon[1:], t[1:])
check_sun("sun", t)
check_mlt("third", lon[:1], t[:1])
check_qd("qd", lat, lon, rad, year)
check_mlt("fourth", lon, t)
""", lambda c: {**position(c, 2), "year": years(c, 2), "t": times(c, (7000, -3000))}, **OPTS)


PATTERNS = ((0,), (0, 0), (0, 1), (0, 30), (0, 30, 0), (0, 0, 1), (0, 1, 2), (0, -400, -400), (0, 1, 0))


def mlt(k):
    for d in DAYS:
        for p in PATTERNS if d in (5000, -365) or not k.quick else PATTERNS[:1] + PATTERNS[3:4]:
            program(k, f"mlt {d} {p}", """
check_mlt("array", lon, t)
""", lambda c: {"lon": [c.real(f"lon{i}", -180.0, 180.0) for i in range(len(p))], "t": times(c, [d + x for x in p])}, **OPTS)
    for d in (5000, -1):
        program(k, f"mlt scalar {d}", """
check_mlt("scalar", [lon], t, ())
""", lambda c: {"lon": c.real("lon", -180.0, 180.0), "t": times(c, [d])}, **OPTS)
        program(k, f"mlt day {d}", """
check_mlt("start of the day", [lon], [float(d)])
check_mlt("start of the days", [lon, 10.0, lon], [float(d), d + 40.0, d + 80.5])
""", lambda c: {"lon": c.real("lon", -180.0, 180.0), "d": d}, **OPTS)
    program(k, "mlt empty", """
check_mlt("empty", [], [])
check_sun("empty", [])
""", lambda c: {"q": c.real("q", 0.0, 1.0)}, **OPTS)


def sun(k):
    for d in DAYS:
        for p in PATTERNS if d in (5000, -365) or not k.quick else PATTERNS[:1] + PATTERNS[3:4]:
            program(k, f"sun {d} {p}", """
check_sun("array", t)
""", lambda c: {"t": times(c, [d + x for x in p])}, **OPTS)
    for d in (5000, -1):
        program(k, f"sun scalar {d}", """
check_sun("scalar", t, ())
check_sun("start of the day", [float(d)], ())
check_sun("start of the days", [float(d), d + 400.0, float(d)])
""", lambda c: {"t": times(c, [d]), "d": d}, **OPTS)


def layouts(k):
    for name, w in WRAPS.items():
        for base in (False, True):
            program(k, f"layout {name} {base}", f"""
check_qd("{name}", lat, lon, rad, year, base, None, None, {w})
""", lambda c: {**position(c, 2), "year": [1999.5, 2011.25], "base": base}, **OPTS)
        program(k, f"layout {name} times", f"""
check_mlt("{name}", lon, t, None, {w})
check_sun("{name}", t, None, {w})
""", lambda c: {"lon": [c.real(f"lon{i}", -180.0, 180.0) for i in range(2)], "t": times(c, (7000, 3000))}, **OPTS)


def refused(k):
    program(k, "refused", """
import os
one, two, three = np.array([a]), np.array([a, 2.0]), np.array([a, 2.0, 3.0])
rad = {1: np.array([6500.0]), 2: np.array([6500.0, 6600.0]), 3: np.array([7000.0] * 3), 0: 6500.0}
def pick(n):
    return {0: a, 1: one, 2: two, 3: three}[n]
for f, m in ((eval_qdlatlon, 4), (eval_qdlatlon_with_base_vectors, 4), (eval_mlt, 2)):
    for i in range(m):
        for n in (0, 1, 2, 3):
            for q in (0, 1, 2, 3):
                if n != q:
                    sizes = [q if j == i else n for j in range(m)]
                    args = [pick(s) for s in sizes]
                    if m == 4:
                        args[2] = rad[sizes[2]]
                        args[3] = args[3] + 2000.0
                    result.append((f"{f.__name__} {sizes}", refused(f, *args), "ValueError"))
try:
    eval_qdlatlon(a, a, 6500.0, 2005.5, "/nonexistent/file")
    r = "accepted"
except IOError:
    r = "IOError"
result.append(("missing file", r, "IOError"))
""", lambda c: {"a": c.real("a", 1.0, 20.0)}, **OPTS)
