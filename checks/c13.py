"""C13 Sun position"""
import datetime as dt

from sym import core
from sym.program import program
from checks.c09 import nest

DEF = """
from eoxmagmod import sunpos
from eoxmagmod.solar_position import sunpos_original
d = np.pi / 180.0
def gst(t):
    # Greenwich mean sidereal time [deg], IAU 1982 without the quadratic term
    return 280.46061837 + 360.98564736629 * (t - 0.5)
def in_range(x, lo, hi):
    return bool(x >= lo - 1e-9) and bool(x <= hi + 1e-9)
"""
AU = 149597871.0


def prepare(c):
    c.low.ring.whole = 4e-9


def run(k):
    ys = range(2000, 2151) if not k.quick else [2000, 2001, 2003, 2004, 2024, 2025, 2096, 2099, 2100, 2101, 2149]
    k.bound("times 1900..2199, latitudes -90..90, longitudes -360..360, radii 0..1e5 km, time offsets -1000..1000 s, one "
            "location (arrays: C03, C04); original implementation: every instant of the years "
            f"{'2000 (from March) to 2150' if not k.quick else list(ys)}, offsets to terrestrial time of -100..100 s")
    k.assume("exact real arithmetic, results up to 1e-5 degrees (sidereal angle 0.008 degrees); angles closer than 4e-9 rad "
             "are the same angle; the Sun is not exactly in the zenith or nadir")
    jobs = [("equatorial", equatorial), ("horizontal", horizontal), ("parallax", parallax)]
    for y in ys:
        jobs.append((f"original {y}", lambda k, y=y: original(k, y)))
    k.parallel(jobs)


def place(c, **kw):
    v = {"t": c.real("t", -36525.0, 73050.0), "lat": c.real("lat", -90.0, 90.0), "lon": c.real("lon", -360.0, 360.0),
         "rad": c.real("rad", 0.0, 1e5), "dtt": c.real("dtt", -1000.0, 1000.0)}
    v.update(kw)
    prepare(c)
    return v


OPTS = dict(setup=DEF, tol=1e-9, rtol=1e-6)


def equatorial(k):
    program(k, "equatorial", """
de, ra, ha, az, ze = sunpos(t, lat, lon, rad, dtt)
result = [("declination", in_range(de, -90, 90), True), ("right ascension", in_range(ra, 0, 360), True),
          ("hour angle", in_range(ha, -180, 180), True), ("azimuth", in_range(az, -180, 180), True),
          ("zenith", in_range(ze, 0, 180.04), True)]
""", place, **OPTS)
    program(k, "sidereal angle", """
de, ra, ha, az, ze = sunpos(t, lat, lon, rad, dtt)
result = [("sidereal angle", turn(ha + ra - lon - gst(t)) * 1e-3, 0.0, 8.0)]
""", place, setup=DEF, tol=1e-6, rtol=1e-6)


def horizontal(k):
    program(k, "horizontal", """
de, ra, ha, az, ze = sunpos(t, lat, lon, 0.0, dtt)
sd, cd, sp, cp, sh, ch = (f(x * d) for x in (de, lat, ha) for f in (np.sin, np.cos))
up, north, east = sp * sd + cp * cd * ch, cp * sd - sp * cd * ch, -cd * sh
s = np.sin(ze * d)
result = [("up", np.cos(ze * d), up, 1.0), ("north", s * np.cos(az * d), north, 1.0), ("east", s * np.sin(az * d), east, 1.0)]
""", place, **OPTS)


def parallax(k):
    program(k, "parallax", f"""
a = sunpos(t, lat, lon, 0.0, dtt)
b = sunpos(t, lat, lon, rad, dtt)
result = [("other", list(b[:4]), list(a[:4])), ("parallax", b[4] - a[4], np.sin(a[4] * d) * rad / {AU} / d, 1.0)]
""", place, **OPTS)
    program(k, "defaults", """
result = [("radius, offset", list(sunpos(t, lat, lon)), list(sunpos(t, lat, lon, 6371.2, 0.0)))]
result.append(("no offset", list(sunpos(t, lat, lon, rad)), list(sunpos(t, lat, lon, rad, 0.0))))
""", place, **OPTS)


def original(k, y):
    a = (dt.date(y, 3 if y == 2000 else 1, 1) - dt.date(2000, 1, 1)).days
    b = (dt.date(y + 1, 1, 1) - dt.date(2000, 1, 1)).days

    def inputs(c):
        return place(c, t=core.fadd(core.fl(c.int("day", a, b - 1)), c.real("f", 0.0, 1.0 - 1e-9)),
                     dtt=c.real("dtt", -100.0, 100.0))
    program(k, f"original {y}", """
a = sunpos(t, lat, lon, rad, dtt)
b = sunpos_original(t, lat, lon, rad, dtt, 0.0, temp)
result = [("declination", b[0], a[0], 100.0), ("right ascension", b[1], a[1], 100.0), ("hour angle", turn(b[2] - a[2]), 0.0, 100.0),
          ("azimuth", turn(b[3] - a[3]), 0.0, 100.0), ("zenith", b[4], a[4], 100.0)]
""", lambda c: dict(inputs(c), temp=c.real("temp", -50.0, 50.0)), setup=DEF, tol=1e-7, rtol=3e-8, witnesses=1, every=0)
