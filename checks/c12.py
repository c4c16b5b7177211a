"""C12 time conversions"""
import datetime as dt

from sym import core
from sym.program import program

SETUP = """
from eoxmagmod import (mjd2000_to_decimal_year as to_year, decimal_year_to_mjd2000 as to_mjd,
    mjd2000_to_year_fraction as fraction)
from eoxmagmod.time_util import (mjd2000_to_decimal_year_simple as to_year_s, decimal_year_to_mjd2000_simple as to_mjd_s,
    mjd2000_to_year_fraction_simple as fraction_s)
"""
LAST = 1.0 - 1e-9       # doubles do not resolve the last microseconds of a day


def jdn(y):
    """Julian day number of the noon of 1 January: Julian calendar up to 1582, Gregorian calendar from 1583"""
    if y <= 1582:
        # days since 1 January of the year 1 of the Julian calendar (JDN 1721424)
        return 1721424 + 365 * (y - 1) + (y - 1) // 4
    return dt.date(y, 1, 1).toordinal() + 1721425


def start(y):
    """days from 2000-01-01 to the start of the year"""
    return jdn(y) - jdn(2000)


def days(y):
    return 366 if y % 4 == 0 and (y <= 1582 or y % 100 != 0 or y % 400 == 0) else 365


def run(k):
    ys = list(range(1, 4001))
    text = "every year from 1 to 4000"
    if k.quick:
        ys = [y for y in ys if 1570 <= y <= 1610 or 1890 <= y <= 2110 or (y + 2) % 100 < 5 or (y - 1) % 7 == 0]
        text = "the years 1570..1610, 1890..2110, two years around every century and every seventh year of 1..4000"
    k.bound(f"every instant (up to the last 0.1 ms of a day and 30 ms of a year) of {text} (1582 excepted for the inverse conversions, whose 355 days are "
            "converted as part of a 365 day year), arrays of one element (others: C03); NaN and +-inf of the decimal year "
            "conversion; datetime_to_decimal_year: every microsecond of the years "
            "1, 4, 100, 400, 1582, 1583, 1900, 1999..2025, 2100, 2400, 9998 (quick: 6 days of each of the years after 2004)")
    k.assume("exact real arithmetic, results up to 4e-9 years or 1e-6 days")
    n = 128
    jobs = [(f"years {i}", lambda k, i=i: [year(k, y) for y in ys[i::n]]) for i in range(n)]
    jobs.append(("simple", simple))
    jobs.append(("datetime", datetimes))
    k.parallel(jobs)


def year(k, y):
    s, e, n = start(y), start(y + 1), days(y)
    special = y in (1, 4, 1582, 1583, 1600, 1900, 1999, 2000, 2001, 4000)
    opts = dict(mode="real", setup=SETUP, tol=1e-12, rtol=1e-12, every=0, witnesses=1 if special or y % 40 == 0 else 0)

    def inputs(c):
        return {"t": core.fadd(core.fl(c.int("day", s, e - 1)), c.real("f", 0.0, LAST)), "y": float(y), "s": float(s), "n": float(n)}
    code = """
f = (t - s) / n
result = [("decimal year", to_year(t), y + f, 4000.0), ("year fraction", fraction(t), f, 4000.0)]
"""
    if y != 1582:
        code += """
result.append(("inverse", to_mjd(to_year(t)), t, 1e6))
"""
    program(k, f"{y}", code, inputs, **opts)
    code = """
result = [("days since 2000", to_mjd(v), s + (v - y) * n, 1e6)]
"""
    if y != 1582:
        code += """
result.append(("inverse", to_year(to_mjd(v)), v, 4000.0))
"""
    program(k, f"{y} back", code, lambda c: {"v": core.fadd(float(y), c.real("f", 0.0, LAST)), "y": float(y), "s": float(s),
                                             "n": float(n)}, **opts)


def simple(k):
    opts = dict(mode="real", setup=SETUP, tol=1e-12, rtol=1e-12)
    for shape in ("", "[2]"):
        program(k, f"simple{shape}", """
if isinstance(t, list):
    t = np.array(t)
f = fraction_s(t)
y = to_year_s(t)
result = [("year", y, 2000 + t / 365.25, 1e3), ("inverse", to_mjd_s(y), t, 1e6),
          ("inverse", to_year_s(to_mjd_s(y)), y, 1e3),
          ("fraction", f, t / 365.25 - np.floor(t / 365.25), 1.0)]
""", lambda c: {"t": [c.real("t0", -8e5, 8e5), c.real("t1", -8e5, 8e5)] if shape else c.real("t", -8e5, 8e5)}, **opts)
    program(k, "special values", """
v = [np.nan, np.inf, -np.inf]
result = [("array", list(to_mjd(np.array(v))), v)] + [("scalar", float(to_mjd(x)), x) for x in v]
""", lambda c: {}, **opts)


DT = SETUP + """
import datetime as _dt
from eoxmagmod import time_util
year_of = time_util.datetime_to_decimal_year
class Span:
    def __init__(self, s): self.s = s
    def total_seconds(self): return self.s
    def __truediv__(self, o): return self.s / o.s if isinstance(o, Span) else Span(self.s / o)
class Date(_dt.datetime):
    def __new__(cls, year, month=1, day=1, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        self = _dt.datetime.__new__(cls, year, month, day, hour, minute, second, microsecond)
        self.rest = 0
        return self
    def __sub__(self, o):
        a = _dt.datetime(self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond)
        b = _dt.datetime(o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond)
        return Span((a - b).total_seconds() + (self.rest - o.rest))
def make(day, seconds):
    if type(seconds) in (int, float):
        return _dt.datetime(day[0], day[1], day[2]) + _dt.timedelta(seconds=seconds)
    x = Date(*day)
    x.rest = seconds
    time_util.datetime = Date
    return x
"""
CODE = """
saved = time_util.datetime
try:
    r = year_of(make(day, sec))
finally:
    time_util.datetime = saved
result = [("decimal year", r, day[0] + (doy * 86400 + sec) / (n * 86400.0), 4000.0)]
"""


def datetimes(k):
    opts = dict(mode="real", setup=DT, tol=1e-12, rtol=1e-12, every=0)
    for y in [1, 4, 100, 400, 1582, 1583, 1900, *range(1999, 2026), 2100, 2400, 9998]:
        s = dt.date(y, 1, 1).toordinal()
        n = dt.date(y + 1, 1, 1).toordinal() - s
        for doy in (0, 58, 59, 60, n // 2, n - 1) if k.quick and y > 2004 else range(n):
            d = dt.date.fromordinal(s + doy)
            program(k, f"datetime {y} {doy}", CODE, lambda c: {"day": [d.year, d.month, d.day], "doy": float(doy),
                                                               "n": float(n), "sec": c.real("sec", 0.0, 86399.999999)}, **opts)
    program(k, "other types", """
result = []
for x in (2000.0, "2000-01-01", None, _dt.date(2000, 1, 1)):
    try:
        year_of(x)
        result.append(("refused", False, True))
    except TypeError:
        pass
""", lambda c: {}, **opts)
