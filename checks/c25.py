"""C25 quasi-dipole coordinates, base vectors, local time and sub-solar point"""
import datetime
import os

from sym import build, core, harness, poly, qd
from sym.program import program

harness.QD = qd.FULL = True

DEF = """
from math import factorial
from eoxmagmod import eval_qdlatlon, eval_qdlatlon_with_base_vectors, eval_mlt, eval_subsol
REQ, FLAT = 6378.137, 1.0 / 298.257223563
RE, E2 = REQ * (1.0 - FLAT / 3.0), FLAT * (2.0 - FLAT)
NAMES = ["qdlat", "qdlon", "f11", "f12", "f21", "f22", "f"]
def terms(nmax, mmax):
    # order of the harmonics: zonal ones, then pairs of cosine and sine by order and degree
    return [(n, 0, 0) for n in range(nmax + 1)] + [(n, m, s) for m in range(1, mmax + 1) for n in range(m, nmax + 1) for s in (0, 1)]
def legendre(n, m, x, y):
    # fully normalised associated Legendre function, its derivative by the colatitude and m/sin(colatitude) multiple
    def poly(n, m):
        # m-th derivative of the Legendre polynomial: powers of x
        c = {}
        for k in range(n // 2 + 1):
            p = n - 2 * k
            a = (-1) ** k * factorial(2 * n - 2 * k) / (2 ** n * factorial(k) * factorial(n - k) * factorial(p))
            if p >= m:
                c[p - m] = a * factorial(p) / factorial(p - m)
        return c
    norm = ((2 * n + 1) / 2.0 * factorial(n - m) / factorial(n + m)) ** 0.5
    ev = lambda c: sum([a * x ** p for p, a in c.items()], 0.0)
    p, dp = ev(poly(n, m)), ev(poly(n, m + 1))
    value = norm * y ** m * p
    d = norm * ((m * y ** (m - 1) * x * p if m else 0.0) - y ** (m + 1) * dp)
    w = norm * m * y ** (m - 1) * p if m else 0.0
    return value, d, w
def harmonics(nmax, mmax, lat, lon):
    x, y = np.sin(np.radians(lat)), np.cos(np.radians(lat))
    value, north, east = [], [], []
    for n, m, s in terms(nmax, mmax):
        p, d, w = legendre(n, m, x, y)
        a = np.radians(lon) * m
        c, z = np.cos(a), np.sin(a)
        value.append(p * (z if s else c))
        north.append(-d * (z if s else c))
        east.append(w * (c if s else -z))
    return value, north, east
def interpolated(epochs, coef, t):
    # piecewise linear between the epochs of the file and constant outside of them
    if len(epochs) == 1 or bool(t <= epochs[0]):
        return coef[0]
    for i in range(len(epochs) - 1):
        if bool(t <= epochs[i + 1]):
            w = (t - epochs[i]) / (epochs[i + 1] - epochs[i])
            return [[a + w * (b - a) for a, b in zip(p, q)] for p, q in zip(coef[i], coef[i + 1])]
    return coef[-1]
def expansion(dims, epochs, coef, lat, lon, rad, t, base):
    nmax, mmax, lmax = dims
    c = interpolated(epochs, coef, t)
    glat, alt = ref_geodetic(lat, rad)
    rho = RE / (RE + alt)
    value, north, east = harmonics(nmax, mmax, glat, lon)
    nt = len(value)
    at = [[sum([c[k][l * nt + i] * rho ** l for l in range(lmax + 1)], 0.0) for i in range(nt)] for k in range(3)]
    dot = lambda f: [sum([a * b for a, b in zip(f, at[k])], 0.0) for k in range(3)]
    x, y, z = dot(value)
    e, n = dot(east), dot(north)
    named(x, y, z, e, n)
    h = np.sqrt(x * x + y * y)
    r = np.sqrt(x * x + y * y + z * z)
    o = [np.degrees(np.arctan2(z, h)), np.degrees(np.arctan2(y, x))]
    if not base:
        return o
    sl, cl, sn, cs = z / r, h / r, y / h, x / h
    s = np.sin(np.radians(glat))
    v = 1.0 - E2 * s * s
    n_ = REQ / np.sqrt(v)
    m_ = n_ * (1.0 - E2) / v
    e = [a * (RE + alt) / (n_ + alt) for a in e]
    n = [a * (RE + alt) / (m_ + alt) for a in n]
    up = lambda g: -sl * (cs * g[0] + sn * g[1]) + cl * g[2]
    along = lambda g: -sn * g[0] + cs * g[1]
    f = [up(n), -up(e), -along(n), along(e)]
    return o + f
def table(dims, epochs, coef):
    nmax, mmax, lmax = dims
    nt = len(terms(nmax, mmax)) * (lmax + 1)
    out = ["%d %d %d %d %d" % (len(epochs), nmax, mmax, lmax, nt), " ".join([lit(t) for t in epochs])]
    for k in range(6):
        for e in range(len(epochs)):
            out += [lit(coef[e][k][i]) for i in range(nt)]
    return save("\\n".join(out) + "\\n")
def flat(x):
    return [x[i] for i in range(len(x))] if np.shape(x) else [x]
def check_qd(label, dims, epochs, coef, pos, base):
    want = [expansion(dims, epochs, coef, *p, base) for p in pos]
    f = eval_qdlatlon_with_base_vectors if base else eval_qdlatlon
    r = f(*[np.array([p[j] for p in pos]) for j in range(4)], table(dims, epochs, coef))
    for k in range(7 if base else 2):
        for i in range(len(pos)):
            if k < 2:
                d = np.radians(r[k][i] - want[i][k])
                result.append((f"{label} {NAMES[k]} {i}", [np.sin(d), np.cos(d)], [0.0, 1.0], 1.0))
            else:
                # the last one is the size of the vector product of the two base vectors
                x = want[i][k] if k < 6 else r[2][i] * r[5][i] - r[3][i] * r[4][i]
                # undefined where the expansion vanishes
                if not (isinstance(x, float) and x != x):
                    result.append((f"{label} {NAMES[k]} {i}", r[k][i], x, 10.0))
def sun(t):
    # low precision position of the Sun of the Astronomical Almanac 1996: days from 2000-01-01T12;
    # its mean longitude (280.461) is 0.01 degree lower in the reference data of the repository
    n = t - 0.5
    L = 280.451 + 0.9856474 * n
    g = np.radians(357.528 + 0.9856003 * n)
    lam = np.radians(L + 1.915 * np.sin(g) + 0.020 * np.sin(2.0 * g))
    eps = np.radians(23.439 - 4e-7 * n)
    alpha = np.degrees(np.arctan2(np.cos(eps) * np.sin(lam), np.cos(lam)))
    # apparent time is the universal time corrected by the equation of time
    return np.degrees(np.arcsin(np.sin(eps) * np.sin(lam))), 180.0 - 360.0 * (t - day) - (L - alpha)
def check_sun(label, t):
    want = sun(t)
    r = eval_subsol(t)
    result.append((label + " latitude", r[0], want[0], 20.0))
    result.append((label + " longitude", turn(r[1] - want[1]), 0.0, 20.0))
def axis(t):
    # northern pole of the IGRF dipole: colatitude and longitude; leap years are neglected
    y = 2000.0 + t / 365.25
    for i in range(len(IGRF) - 1):
        if i == len(IGRF) - 2 or bool(y < IGRF[i + 1][0]):
            w = (y - IGRF[i][0]) / (IGRF[i + 1][0] - IGRF[i][0])
            g, x, z = [-(a + w * (b - a)) for a, b in zip(IGRF[i][1:], IGRF[i + 1][1:])]
            return np.arccos(g / np.sqrt(g * g + x * x + z * z)), np.arctan2(z, x)
def check_mlt(label, lon, t):
    colat, elon = axis(t)
    slat, slon = [np.radians(x) for x in eval_subsol(t)]
    a = slon - elon
    x = np.cos(slat) * np.cos(colat) * np.cos(a) - np.sin(slat) * np.sin(colat)
    y = np.cos(slat) * np.sin(a)
    want = lon - np.degrees(np.arctan2(y, x)) + 180.0
    r = eval_mlt(lon, t)
    result.append((label, turn(r * 15.0 - want), 0.0, 20.0))
    result.append((label + " range", bool(r >= 0.0) and bool(r < 24.001), True))
result = []
"""
OPTS = dict(setup=DEF, rtol=1e-5, compare=False)


def nterms(dims):
    nmax, mmax, lmax = dims
    return (mmax * (2 * nmax - mmax + 1) + nmax + 1) * (lmax + 1)


def coefs(c, dims, n, s="q"):
    """coefficients of n epochs: those of the forward conversion are symbols"""
    return [[[c.real(f"{s}{e}_{k}_{i}", -1.0, 1.0) if k < 3 else 0.25 * i for i in range(nterms(dims))] for k in range(6)]
            for e in range(n)]


def igrf():
    """epochs and coefficients of the dipole of the IGRF the package comes with"""
    with open(os.path.join(build.REPO, "eoxmagmod", "eoxmagmod", "data", "IGRF14.shc"), encoding="ascii") as f:
        rows = [x.split() for x in f if not x.startswith("#")][1:]
    dipole = {tuple(map(int, x[:2])): [float(v) for v in x[2:]] for x in rows[1:4]}
    return [list(x) for x in zip(map(float, rows[0]), dipole[1, 0], dipole[1, 1], dipole[1, -1])]


def run(k):
    k.bound("apex expansions of the sizes (degree, order, power of the altitude) listed in SIZES up to (6, 6, 3) (thorough (8, 8, 3)) with any "
            "coefficients of the forward conversion in -1..1, files with 1..3 (thorough 5) any epochs, any position (up to 89 degrees of latitude "
            "and 170 of longitude, radii 6400..8000 km) and epoch; sequences of up to 3 elements and 4 calls; sub-solar point: every day and time "
            "(0.001..0.999 of a day) of the years " + (f"{DENSE[0]}..{DENSE[-1]} and {SPARSE}" if k.quick else "1601..2100") +
            "; magnetic local time: any longitude and listed days from 1917 to 2029, every day and time of the years " +
            (str(MLT) if k.quick else "1902..2029"))
    k.assume("exact real arithmetic, results up to 1e-5 (single precision constants up to 1e-6); the geocentric to geodetic conversion of the library "
             "(CONVRT) is uninterpreted, as is the formatted reading of numbers; seconds are not rounded; the conversion of the coefficients "
             "to the other direction is not used; the mean longitude of the Sun is that of the reference data (280.451), epochs of the file "
             "are 0.001 year away from those of the elements or equal to them")
    ys = (DENSE + SPARSE) if k.quick else tuple(range(1601, 2101))
    ms = MLT if k.quick else tuple(range(1902, 2030))
    n = 24 if k.quick else len(ys)
    k.parallel([(f"local time {y}", lambda k, y=y: mltyear(k, y)) for y in ms] +
               [(f"year {y}", lambda k, y=y: year(k, y)) for y in ys if y in SPARSE] +
               [(f"years {i}", lambda k, i=i: [year(k, y) for y in ys[i::n] if y not in SPARSE]) for i in range(n)] +
               [("qd", expansion), ("epochs", epochs), ("sequences", sequences), ("sun", sun), ("mlt", mlt)])


def position(c, i=0):
    return [c.real(f"lat{i}", -89.0, 89.0), c.real(f"lon{i}", -170.0, 170.0), c.real(f"rad{i}", 6400.0, 8000.0)]


SIZES = ((1, 1, 0), (1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 2, 2), (3, 3, 1), (3, 2, 2), (4, 4, 3), (6, 6, 3))


def expansion(k):
    for dims in SIZES if k.quick else SIZES + ((5, 3, 2), (7, 7, 2), (8, 8, 3)):
        for base in (False, True):
            program(k, f"expansion {dims} {base}", """
check_qd("expansion", dims, epochs, coef, pos, base)
""", lambda c: {"dims": dims, "epochs": [2015.0], "coef": coefs(c, dims, 1), "pos": [position(c) + [2015.0]], "base": base}, **OPTS)


def epochs(k):
    """any epoch of the element, any epochs of the file"""
    for n in (1, 2, 3) if k.quick else (1, 2, 3, 4, 5):
        for dims in ((1, 1, 1), (2, 1, 1)):
            for base in (False, True):
                def inputs(c):
                    e = [c.real(f"epoch{i}", 1980.0 + 8 * i, 1987.0 + 8 * i) for i in range(n)]
                    return {"dims": dims, "epochs": e, "coef": coefs(c, dims, n), "pos": [position(c) + [c.real("t", 1970.0, 2040.0)]],
                            "base": base}
                program(k, f"epochs {n} {dims} {base}", """
assume(all([abs(pos[0][3] - x) > 1e-3 for x in epochs]))
check_qd("epochs", dims, epochs, coef, pos, base)
""", inputs, **OPTS)


def sequences(k):
    """several elements and calls: other altitudes, epochs, files"""
    dims = (1, 1, 1)
    for n in (1, 2, 3):
        e = [2000.0, 2005.0, 2010.0][:n]
        for t in (1999.5, 2000.0, 2005.0, 2007.5, 2010.0, 2010.25):
            program(k, f"node {n} {t}", """
check_qd("node", dims, epochs, coef, pos, True)
""", lambda c: {"dims": dims, "epochs": e, "coef": coefs(c, dims, n), "pos": [position(c) + [t]]}, **OPTS)
    for times in ((2001.0, 2001.0), (2001.0, 2007.0), (2007.0, 2001.0), (2001.0, 2007.0, 2001.0)):
        for same in (False, True):
            def inputs(c):
                pos = [position(c, i) + [t] for i, t in enumerate(times)]
                if same:
                    pos = [[pos[0][0], p[1], pos[0][2], p[3]] for p in pos]
                return {"dims": dims, "same": same, "epochs": [2000.0, 2005.0, 2010.0], "coef": coefs(c, dims, 3), "pos": pos}
            program(k, f"elements {times} {same}", """
alt = [ref_geodetic(p[0], p[2])[1] for p in pos[:1 if same else None]]
assume(all([abs(a - b) > 1e-3 for i, a in enumerate(alt) for b in alt[:i]]))
check_qd("elements", dims, epochs, coef, pos, True)
""", inputs, **OPTS)
    for a, b in (((1, 1, 1), (2, 2, 0)), ((2, 2, 0), (1, 1, 1)), ((1, 1, 1), (1, 1, 1)), ((2, 1, 1), (2, 2, 1))):
        def inputs(c):
            return {"a": a, "b": b, "epochs": [2000.0, 2005.0], "coef": coefs(c, a, 2), "other": coefs(c, b, 2, "z"),
                    "pos": [position(c) + [2001.0]], "next": [position(c, 1) + [2001.0]]}
        program(k, f"files {a} {b}", """
check_qd("first", a, epochs, coef, pos, False)
check_qd("second", b, epochs, other, pos, True)
check_qd("third", a, epochs, coef, next, True)
check_qd("fourth", b, epochs, other, next, False)
""", inputs, **OPTS)


# years of which every day is checked in the quick tier: of the sub-solar point and of the local time
DENSE, SPARSE, MLT = tuple(range(1950, 2100)), (1601, 1700, 1896, 1900, 1949, 2100), (1953, 1985, 2000, 2014, 2024)
# days since 2000-01-01
DAYS = (5000, 0, 59, 60, -1, -365, 366, 1461, 8826, 10800, -10000, -30000, 36000)


def moment(c, d):
    # single precision constants: values which differ by less than this are the same
    poly.EPS = poly.D("1e-6")
    c.low.ring.whole = 2e-6
    return c.real("frac", 0.001, 0.999) + float(d)


def sun(k):
    for d in DAYS:
        program(k, f"sun {d}", """
check_sun("sub-solar point", t)
""", lambda c: {"t": moment(c, d), "day": float(d)}, **OPTS, tol=1e-5)


def year(k, y):
    """any day and time of a year"""
    s, e = [(datetime.date(x, 1, 1) - datetime.date(2000, 1, 1)).days for x in (y, y + 1)]

    def inputs(c):
        f = moment(c, 0)
        d = core.fl(c.int("day", s, e - 1))
        return {"t": core.fadd(d, f), "day": d}
    program(k, f"year {y}", """
check_sun("sub-solar point", t)
""", inputs, **OPTS, tol=1e-5)


def mltyear(k, y):
    s, e = [(datetime.date(x, 1, 1) - datetime.date(2000, 1, 1)).days for x in (y, y + 1)]

    def inputs(c):
        f = moment(c, 0)
        d = core.fl(c.int("day", s, e - 1))
        return {"t": core.fadd(d, f), "lon": c.real("lon", -180.0, 180.0), "IGRF": igrf()}
    program(k, f"mlt year {y}", """
check_mlt("magnetic local time", lon, t)
""", inputs, **OPTS, tol=1e-5)


def mlt(k):
    for d in [x for x in DAYS if -36000 < x < 10900]:
        program(k, f"mlt {d}", """
check_mlt("magnetic local time", lon, t)
""", lambda c: {"t": moment(c, d), "lon": c.real("lon", -180.0, 180.0), "IGRF": igrf()}, **OPTS, tol=1e-5)
