"""C21 coefficient files"""
from sym.program import program
from checks.c20 import DEF as DEF20

DEF = DEF20 + """
from eoxmagmod import (decimal_year_to_mjd2000 as tomjd, mjd2000_to_decimal_year as toyear)
from eoxmagmod import (load_model_shc, load_model_shc_combined, load_model_igrf, load_model_wmm, load_model_emm,
                       load_model_swarm_mio_internal, load_model_swarm_mio_external)
from eoxmagmod.magnetic_model.loader_shc import load_coeff_shc, load_coeff_shc_composed, load_coeff_shc_combined
from eoxmagmod.magnetic_model.loader_igrf import load_coeff_igrf
from eoxmagmod.magnetic_model.loader_wmm import load_coeff_wmm
from eoxmagmod.magnetic_model.loader_emm import load_coeff_emm
from eoxmagmod.magnetic_model.loader_mio import load_coeff_swarm_mio_internal, load_coeff_swarm_mio_external
from eoxmagmod.magnetic_model.parser_shc import parse_shc_file, parse_shc_header
from eoxmagmod.magnetic_model.parser_igrf import parse_igrf_file
from eoxmagmod.magnetic_model.parser_wmm import parse_wmm_file
from eoxmagmod.magnetic_model.parser_emm import parse_emm_file, combine_emm_coefficients
from eoxmagmod.magnetic_model.parser_mio import parse_swarm_mio_file
# text layouts: start of the file, indentation, separator, line end, last line end, remark on the header line
STYLES = [("", "", " ", "\\n", "\\n", ""), ("# comment 1 2 3\\n\\n   # 4 5\\n", "  ", "   ", "\\n", "", "  # remark 7"),
          ("\\n \\t\\n#\\n#x\\n", "\\t", "\\t ", "\\r\\n", "\\r\\n", "#"), ("#" * 80 + "\\n" * 5, "", "  ", "\\n", "\\n", " # a # b")]
def lines(rows, style):
    return style[4].join([style[3].join(style[1] + style[2].join(r) for r in rows), ""])
def parse(parser, text):
    with open(save(text), encoding="ascii") as f:
        return parser(f)
def shc(nm, gh, ts, order=2, step=1, validity=(), style=STYLES[0], degrees=None):
    a = [n for n, _ in nm]
    lo, hi = degrees or (min(a), max(a))
    head = [str(v) for v in (lo, hi, len(ts), order, step)] + [lit(v) for v in validity]
    head[-1] += style[5]
    rows = [head, [lit(t) for t in ts]] + [[str(n), str(m)] + [lit(v) for v in r] for (n, m), r in zip(nm, gh)]
    return style[0] + lines(rows, style)
def full(nm, values, degree):
    f = np.zeros(((degree + 1) * (degree + 2) // 2, 2)).tolist()
    for (n, m), v in zip(nm, values):
        f[n * (n + 1) // 2 + abs(m)][1 if m < 0 else 0] = v
    return f
def interpolated(ts, row, t, order):
    # the series of nodes at a time
    n = len(ts)
    if order == 1 or n == 1:
        for i in range(n - 1, 0, -1):
            if bool(t >= ts[i]):
                return row[i]
        return row[0]
    for i in range(n - 2, -1, -1):
        if i == 0 or bool(t >= ts[i]):
            return row[i] + (row[i + 1] - row[i]) * ((t - ts[i]) / (ts[i + 1] - ts[i]))
def coefficients(result, label, c, nm, gh, ts, t, order=2):
    # the loaded coefficients at the time (ts, t in the same time scale)
    n = max(a for a, _ in nm)
    def padded(q):
        q = np.array(q).tolist()
        return q + [[0.0, 0.0]] * ((n + 1) * (n + 2) // 2 - len(q))
    want = full(nm, [interpolated(ts, row, t[1], order) for row in gh], n)
    got, degree = c(np.array(t[0]))
    result.append((label, padded(got), want, 100.0))
"""
OPTS = dict(setup=DEF, rtol=1e-8)
NM = [[(1, 0), (1, 1), (1, -1)], [(2, -1), (1, 0), (3, 3), (2, 0)], [(4, 2)]]


def run(k):
    k.bound("files of 1-5 coefficients of degrees 1-6 in any order, 1-4 time nodes, SHC spline orders 1, 2 and 6, MIO series of up to "
            "3x3 terms, any coefficient values, times and epochs within the stated years (symbols in the place of the numbers of the "
            "text), with and without optional header fields, four text layouts; loaded models at any time of the stated years")
    k.assume("degrees, orders and counts are enumerated; exact real arithmetic, results up to 1e-8; the conversion of text to a single "
             "number is Python's; time nodes increase; the time conversions are decided by C12, the evaluation of the loaded "
             "coefficients by C16 and C20; the files are well formed (WMM and EMM: at least one non-zero coefficient)")
    k.parallel([("shc 0", lambda k: shc(k, 0)), ("shc 1", lambda k: shc(k, 1)), ("shc options", shc_options),
                ("shc several", several), ("igrf", igrf), ("wmm", wmm), ("emm", emm), ("mio", mio), ("models", models)])


def nodes(c, n, first=2001, step=1.0):
    """increasing decimal years: one symbol each (in the first half of successive years)"""
    return [c.real(f"y{i}", first + i * step + 0.05, first + i * step + 0.45) for i in range(n)]


def values(c, n, m, name="g"):
    return [[c.real(f"{name}{i}_{j}", -100.0, 100.0) for j in range(m)] for i in range(n)]


def shc(k, part):
    i = 0
    for nm in NM:
        for n in (1, 2, 3, 4):
            for validity in (0, 1):
                for style in range(4):
                    i += 1
                    if i % 2 != part or k.quick and i % 3 and n > 1 and style:
                        continue
                    order = (1, 2, 6)[i // 2 % 3]
                    program(k, f"SHC {nm} {n} {validity} {style} {order}", """
result = []
text = shc(nm, g, y, order, 3, v, STYLES[style], (1, 7))
d = parse(parse_shc_file, text)
result.append(("indices", [list(map(int, r)) for r in d["nm"]], [list(r) for r in nm]))
result.append(("coefficients", d["gh"], g))
result.append(("times", d["t"], y, 1e3))
for label, h in (("file", d), ("header", parse(parse_shc_header, text))):
    result.append((label, [h[q] for q in ("degree_min", "degree_max", "ntime", "spline_order", "nstep")], [1, 7, len(y), order, 3]))
    e = v or ((y[0], y[-1]) if len(y) > 1 else (-inf, inf))
    result.append((label + " validity", [h["validity_start"], h["validity_end"]], list(e), 1e3))
    result.append((label + " times", h["t"], y, 1e3))
c = load_coeff_shc(save(text))
if len(y) > 1 or v:
    result.append(("validity", list(c.validity), [tomjd(e[0]), tomjd(e[1])], 1e4))
else:
    result.append(("always valid", list(c.validity), [-inf, inf]))
result.append(("internal", c.is_internal, True))
result.append(("degrees", [int(c.degree), int(c.min_degree)], [max(a for a, _ in nm), min(a for a, _ in nm)]))
coefficients(result, "loaded", c, nm, g, [tomjd(q) for q in y], (t, t), 1 if order == 1 else 2)
""", lambda c: {"nm": nm, "y": nodes(c, n), "g": values(c, len(nm), n), "v": (c.real("v0", 2000.1, 2000.4), c.real("v1", 2010.1, 2010.4))
                if validity else (), "style": style, "order": order, "t": c.real("t", 300.0, 2400.0)}, max_paths=400, **OPTS)


def shc_options(k):
    for order in (1, 2, 6):
        for opt in ({}, {"spline_order": 1}, {"spline_order": 2}, {"validity_start": 2001.25}, {"validity_end": 2004.5, "is_internal": False},
                    {"validity_start": 1999.5, "validity_end": 2009.5}):
            program(k, f"options {order} {opt}", """
result = []
for years in (False, True):
    for v in ((), (2000.5, 2008.0)):
        c = load_coeff_shc(save(shc(nm, g, y, order, 1, v)), interpolate_in_decimal_years=years, **opt)
        e = v or (y[0], y[-1])
        e = (opt.get("validity_start", e[0]), opt.get("validity_end", e[1]))
        result.append(("validity", list(c.validity), [tomjd(e[0]), tomjd(e[1])], 1e4))
        result.append(("internal", c.is_internal, opt.get("is_internal", True)))
        o = opt.get("spline_order", min(order, 2))
        if years:
            coefficients(result, "in years", c, nm, g, y, (t, toyear(t)), o)
        else:
            coefficients(result, "in days", c, nm, g, [tomjd(q) for q in y], (t, t), o)
""", lambda c: {"nm": NM[0], "y": nodes(c, 3), "g": values(c, 3, 3), "order": order, "opt": opt, "t": c.real("t", 735.0, 1050.0)},
                    max_paths=400, **OPTS)
    program(k, "constant options", """
result = []
for opt in ({}, {"validity_start": 2001.25}, {"validity_end": 2004.5, "is_internal": False}):
    for v in ((), (2000.5, 2008.0)):
        for years in (False, True):
            c = load_coeff_shc(save(shc(nm, g, y, 1, 1, v)), interpolate_in_decimal_years=years, **opt)
            e = v or (-inf, inf)
            e = [opt.get("validity_start", e[0]), opt.get("validity_end", e[1])]
            result.append(("validity", list(c.validity), [q if np.isinf(q) else tomjd(q) for q in e], 1e4))
            result.append(("internal", c.is_internal, opt.get("is_internal", True)))
            coefficients(result, "constant", c, nm, g, [0.0], (t, t), 1)
""", lambda c: {"nm": NM[1], "y": nodes(c, 1), "g": values(c, 4, 1), "t": c.real("t", -1e5, 1e5)}, max_paths=400, **OPTS)
    program(k, "own time conversion", """
result = []
c = load_coeff_shc(save(shc(nm, g, y)), to_mjd2000=lambda q: 10.0 * (q - 2000.0))
result.append(("validity", list(c.validity), [10.0 * (y[0] - 2000.0), 10.0 * (y[-1] - 2000.0)], 1e2))
coefficients(result, "times", c, nm, g, [10.0 * (q - 2000.0) for q in y], (t, t))
""", lambda c: {"nm": NM[0], "y": nodes(c, 3), "g": values(c, 3, 3), "t": c.real("t", 0.0, 50.0)}, max_paths=400, **OPTS)


def several(k):
    """more than one file"""
    data = lambda c: {"na": NM[0], "nb": [(3, 1), (2, -2), (1, 0)], "g": values(c, 3, 2), "h": values(c, 3, 2, "h"), "s": values(c, 3, 1, "s"),
                      "t": c.real("t", 735.0, 1790.0)}
    program(k, "composed", """
result = []
ya, yb = [2001.0, 2003.0], [2003.0, 2005.0]
pa, pb, ps = save(shc(na, g, ya, style=STYLES[1])), save(shc(nb, h, yb)), save(shc(nb, s, [2000.0], 1))
def padded(q):
    return np.array(q).tolist() + [[0.0, 0.0]] * (10 - len(q))
def values(gh, nm, y):
    if len(y) == 1:
        return full(nm, [r[0] for r in gh], 3)
    y = [tomjd(q) for q in y]
    return full(nm, [interpolated(y, r, t, 2) for r in gh], 3)
first = bool(t <= tomjd(2003.0))
c = load_coeff_shc_composed(pa, pb)
result.append(("composed", padded(c(t)[0]), values(g, na, ya) if first else values(h, nb, yb), 100.0))
result.append(("validity", list(c.validity), [tomjd(2001.0), tomjd(2005.0)], 1e4))
c = load_coeff_shc_composed(load_coeff_shc(pa), pb)
result.append(("composed mixed", padded(c(t)[0]), values(g, na, ya) if first else values(h, nb, yb), 100.0))
c = load_coeff_shc_combined(pa, ps)
result.append(("combined", padded(c(t)[0]), np.array(values(g, na, ya)) + np.array(values(s, nb, [0])), 100.0))
result.append(("validity", list(c.validity), [tomjd(2001.0), tomjd(2003.0)], 1e4))
c = load_coeff_shc_combined(load_coeff_shc_composed(pa, pb), ps)
result.append(("combined composed", padded(c(t)[0]), np.array(values(g, na, ya) if first else values(h, nb, yb))
               + np.array(values(s, nb, [0])), 100.0))
c = load_coeff_shc_composed(pa)
result.append(("single", padded(c(t)[0]), values(g, na, ya), 100.0))
""", data, max_paths=400, **OPTS)
    program(k, "composed models", """
result = []
ya, yb = [2001.0, 2003.0], [2003.0, 2005.0]
pa, pb, ps = save(shc(na, g, ya, style=STYLES[1])), save(shc(nb, h, yb)), save(shc(nb, s, [2000.0], 1))
x = np.array([40.0, -100.0, 6500.0])
def field(gh, nm, y):
    q = [interpolated([tomjd(q) for q in y], r, t, 2) for r in gh] if len(y) > 1 else [r[0] for r in gh]
    return -sheval(x, np.array(full(nm, q, 3)), SPH, SPH, mode=GRADIENT, degree=3)
first = bool(t <= tomjd(2003.0))
result.append(("composed", load_model_shc(pa, pb).eval(t, x), field(g, na, ya) if first else field(h, nb, yb), 1e3))
result.append(("combined", load_model_shc_combined(load_coeff_shc_composed(pa, pb), ps).eval(t, x),
               (field(g, na, ya) if first else field(h, nb, yb)) + field(s, nb, [0]), 1e3))
""", data, max_paths=400, **OPTS)


def igrf(k):
    for nm in NM[:2]:
        for n in (2, 3, 4):
            for style in range(4):
                program(k, f"IGRF {nm} {n} {style}", """
result = []
s = STYLES[style]
rows = [["c/s", "deg", "ord"] + ["IGRF"] * (len(y) - 1) + ["DGRF", "SV"], ["g/h", "n", "m"] + [lit(q) for q in y] + ["2010-15"]]
rows[0][-1] += s[5]
rows += [["h" if m < 0 else "g", str(a), str(abs(m))] + [lit(q) for q in r] for (a, m), r in zip(nm, g)]
text = s[0] + lines(rows, s)
d = parse(parse_igrf_file, text)
gh = [r[:-1] + [r[-2] + 5.0 * r[-1]] for r in g]
ts = y + [y[-1] + 5.0]
result.append(("indices", [list(map(int, r)) for r in d["nm"]], [list(r) for r in nm]))
result.append(("coefficients", d["gh"], gh, 100.0))
result.append(("times", d["t"], ts, 1e3))
result.append(("degrees", [int(d["degree_min"]), int(d["degree_max"])], [min(a for a, _ in nm), max(a for a, _ in nm)]))
c = load_coeff_igrf(save(text))
result.append(("validity", list(c.validity), [tomjd(ts[0]), tomjd(ts[-1])], 1e4))
coefficients(result, "loaded", c, nm, gh, ts, (t, toyear(t)))
""", lambda c: {"nm": nm, "y": nodes(c, n), "g": values(c, len(nm), n + 1), "style": style, "t": c.real("t", 1470.0, 1820.0)},
                        max_paths=400, **OPTS)


def wmm(k):
    for nm in ([(1, 0), (1, 1)], [(2, 1), (1, 0), (3, 3)], [(5, 0), (2, 2)]):
        for style in range(4):
            for end in (["9" * 48] * 2, ["9" * 20], []):
                if k.quick and (style + len(end) + len(nm)) % 3:
                    continue
                program(k, f"WMM {nm} {style} {end}", """
result = []
s = STYLES[style]
rows = [[lit(y), "WMM-X", "09/18/2018"]] + [[str(a), str(b)] + [lit(v) for v in r] for (a, b), r in zip(nm, g)] + [[e] for e in end]
text = lines(rows, s)
full_ = [(a, b) for a, b in nm] + [(a, -b) for a, b in nm if b > 0]
gh = [[r[0], r[0] + 5.0 * r[2]] for r in g] + [[r[1], r[1] + 5.0 * r[3]] for (a, b), r in zip(nm, g) if b > 0]
d = parse(parse_wmm_file, text)
got = {tuple(map(int, q)): r for q, r in zip(d["nm"], d["gh"])}
result.append(("no repetitions", len(got), len(d["nm"])))
result.append(("known indices", all(q in full_ for q in got), True))
for q, r in zip(full_, gh):
    result.append((f"coefficients {q}", got.get(q, [0.0, 0.0]), r, 100.0))
result.append(("times", d["t"], [y, y + 5.0], 1e3))
c = load_coeff_wmm(save(text))
result.append(("validity", list(c.validity), [tomjd(y), tomjd(y + 5.0)], 1e4))
coefficients(result, "loaded", c, full_, gh, [y, y + 5.0], (t, toyear(t)))
""", lambda c: {"nm": nm, "y": c.real("y", 2001.05, 2001.45), "g": [[c.real(f"g{i}{j}", -100.0, 100.0) if (i + j) % 3 else float(i + 1)
                                                                    for j in range(4)] for i in range(len(nm))],
                "style": style, "end": end, "t": c.real("t", 1470.0, 1820.0)}, max_paths=400, **OPTS)


def emm(k):
    head = """
def cof(nm, gh, y, s):
    h = "EMM" + s[3] + s[3] + "Degrees 1-16:    POMME" + s[3] + "Epoch: " + lit(y) + s[3] + "Degree: 16" + s[3] + s[3] + " n m x y" + s[3] + "-" * 32 + s[3]
    return h + lines([[str(a), str(b)] + [lit(v) for v in r] for (a, b), r in zip(nm, gh)], s)
full_ = lambda nm: [q for a, b in nm for q in ([(a, b), (a, -b)] if b else [(a, b)])]
flat_ = lambda nm, gh: [v for (a, b), r in zip(nm, gh) for v in (r if b else r[:1])]
result = []
s = STYLES[style]
"""
    for style in range(4):
        for nv, nc in (([(1, 0), (1, 1)], [(2, 1)]), ([(1, 0)], [(1, 1), (2, 0), (2, 2)]), ([(2, 1), (1, 0), (3, 3)], [(4, 0), (4, 2)])):
            program(k, f"EMM {nv} {nc} {style}", head + """
ns = nv + nc
static, secvar = cof(ns, g, y, s), cof(nv, h, y, STYLES[0])
for text, nm, v in ((static, ns, g), (secvar, nv, h)):
    d = parse(parse_emm_file, text)
    result.append(("indices", [list(map(int, r)) for r in d["nm"]], [list(r) for r in full_(nm)]))
    result.append(("coefficients", d["gh"], [[q] for q in flat_(nm, v)], 100.0))
    result.append(("times", d["t"], [y], 1e3))
    result.append(("epoch", d["epoch"], y, 1e3))
    result.append(("degrees", [int(d["degree_min"]), int(d["degree_max"])], [min(a for a, _ in nm), max(a for a, _ in nm)]))
gh = [[q, q] for q in flat_(ns, g)]
for i, q in enumerate(flat_(nv, h)):
    gh[i] = [gh[i][0], gh[i][0] + 5.0 * q]
c = load_coeff_emm(save(static), save(secvar))
result.append(("validity", list(c.validity), [tomjd(y), tomjd(y + 5.0)], 1e4))
coefficients(result, "loaded", c, full_(ns), gh, [y, y + 5.0], (t, toyear(t)))
""", lambda c: {"nv": nv, "nc": nc, "style": style, "y": c.real("y", 2001.05, 2001.45), "h": values(c, len(nv), 2, "h"),
                "g": [[c.real(f"g{i}{j}", -100.0, 100.0) if i < len(nv) + len(nc) - 1 else 2.5 + j for j in range(2)]
                      for i in range(len(nv) + len(nc))], "t": c.real("t", 1470.0, 1820.0)}, max_paths=400, **OPTS)
        program(k, f"EMM mismatch {style}", head + """
nv, nc = [(1, 0), (1, 1), (2, 0)], [(3, 1)]
for label, v, ys in (("epoch", nv, z), ("order", [(1, 0), (2, 0), (1, 1)], y), ("degrees", [(1, 0), (1, 1), (2, 1)], y),
                     ("missing", [(1, 1), (2, 0)], y)):
    try:
        c = load_coeff_emm(save(cof(nv + nc, g, y, s)), save(cof(v, h[:len(v)], ys, s)))
        got = "accepted"
    except ValueError:
        got = "refused"
    result.append((label, got, "refused"))
""", lambda c: {"style": style, "y": c.real("y", 2001.05, 2001.45), "z": c.real("z", 2001.5, 2006.0), "h": values(c, 3, 2, "h"), "g": values(c, 4, 2)},
                max_paths=400, **OPTS)


MIO = """
def mfile(nm, q, g, ext, pole, height, wolf, s):
    rows = [[str(v) for v in (6, 5, *ext)] + [lit(v) for v in (*pole, height, wolf)]]
    rows[0][-1] += s[5]
    for part in (q, g):
        rows += [[str(a), str(b)] + [lit(v) for v in r] for (a, b), r in zip(nm, part)]
    return s[0] + lines(rows, s)
def block(row, ext):
    # row of numbers: seasonal, diurnal, cosine and sine
    it = iter(row)
    return [[[next(it) for _ in range(2)] for _ in range(ext[1] - ext[0] + 1)] for _ in range(ext[3] - ext[2] + 1)]
result = []
s = STYLES[style]
text = mfile(nm, q, g, ext, pole, height, wolf, s)
"""


def mio_data(c, nm, ext, style):
    n = (ext[1] - ext[0] + 1) * (ext[3] - ext[2] + 1) * 2
    return {"nm": nm, "ext": ext, "style": style, "q": values(c, len(nm), n, "q"), "g": values(c, len(nm), n)}


EXTENTS = ((0, 0, 0, 0), (-1, 1, 0, 1), (0, 1, -1, 1), (-2, -1, 1, 1), (-1, 1, -1, 1))


def mio(k):
    for i, nm in enumerate(NM):
        for j, ext in enumerate(EXTENTS):
            style = (i + j) % 4
            program(k, f"MIO {nm} {ext} {style}", MIO + """
d = parse(parse_swarm_mio_file, text)
result.append(("indices", [list(map(int, r)) for r in d["nm"]], [list(r) for r in nm]))
result.append(("qs", d["qs"], [block(r, ext) for r in q], 100.0))
result.append(("gh", d["gh"], [block(r, ext) for r in g], 100.0))
result.append(("header", [d[p] for p in ("nmax", "mmax", "pmin", "pmax", "smin", "smax")], [6, 5, *ext]))
result.append(("degrees", [int(d["degree_min"]), int(d["degree_max"])], [min(a for a, _ in nm), max(a for a, _ in nm)]))
result.append(("numbers", [d["height"], d["wolf_ratio"]], [height, wolf], 1e3))
result.append(("pole latitude", d["lat_NGP"], 90.0 - pole[0], 1e2))
result.append(("pole longitude", turn(d["lon_NGP"] - pole[1]), 0.0, 1e2))
n = max(a for a, _ in nm)
def judge(label, c, expected, internal):
    got, degree = c(t, m)
    series = [fourier2d(yearfraction(t), m, np.array(block(r, ext)), ext[2], ext[0], 2 * PI, 2 * PI / 24.0) for r in expected]
    result.append((label, got, full(nm, series, n), 1e3))
    result.append((label + " type", c.is_internal, internal))
    result.append((label + " degree", int(degree), n))
judge("internal", load_coeff_swarm_mio_internal(save(text))[0], g, True)
judge("external", load_coeff_swarm_mio_external(save(text), above_ionosphere=False)[0], q, False)
above = [[v * (-(a / (a + 1.0)) * (1.0 + height / 6371.2) ** (2 * a + 1)) for v in r] for (a, _), r in zip(nm, q)]
judge("above the ionosphere", load_coeff_swarm_mio_external(save(text), above_ionosphere=True)[0], above, True)
""", lambda c: {**mio_data(c, nm, ext, style), "pole": [c.real("theta", 0.5, 20.0), phi + c.real("phi", -40.0, 40.0)],
                "wolf": c.real("w", 0.0, 1.0),
                "height": 110.0 + 40.0 * i, "t": c.real("t", 6940.0, 7100.0), "m": c.real("m", 0.0, 24.0)}
                    if (phi := (290.0, 60.0, -72.0)[j % 3]) else None, max_paths=400, **OPTS)
    program(k, "MIO mismatch", MIO + """
for other in ([(1, 0), (1, -1), (1, 1)], [(1, 0), (1, 1), (2, 1)]):
    text = mfile(nm, q, [], ext, pole, height, wolf, s) + mfile(other, g, [], ext, pole, height, wolf, s).partition("\\n")[2]
    try:
        parse(parse_swarm_mio_file, text)
        got = "accepted"
    except ValueError:
        got = "refused"
    result.append(("mismatch", got, "refused"))
""", lambda c: {**mio_data(c, NM[0], (0, 1, 0, 0), 0), "pole": [8.0, 290.0], "height": 110.0, "wolf": 0.015}, max_paths=400, **OPTS)
    for ext in EXTENTS[:3]:
        for x in ((40.0, -100.0, 6400.0), (-20.0, 30.0, 6900.0)):
            program(k, f"MIO models {ext} {x}", MIO + """
def field(rows, internal, t, f):
    c = Mio(np.array(nm), np.array([block(r, ext) for r in rows]), ext, is_internal=internal)
    return Model(c, (90.0 - pole[0], pole[1] - 360.0), wolf_ratio=wolf).eval(t, np.array(x), f107=f)
above = [[v * (-(a / (a + 1.0)) * (1.0 + height / 6371.2) ** (2 * a + 1)) for v in r] for (a, _), r in zip(nm, q)]
path = save(text)
t = 6950.25
result.append(("internal", load_model_swarm_mio_internal(path).eval(t, np.array(x), f107=f), field(g, True, t, f), 1e3))
e, i = field(q, False, t, f), field(above, True, t, f)
result.append(("below", load_model_swarm_mio_external(path, above_ionosphere=False).eval(t, np.array(x), f107=f), e, 1e3))
result.append(("above", load_model_swarm_mio_external(path, above_ionosphere=True).eval(t, np.array(x), f107=f), i, 1e3))
result.append(("both", load_model_swarm_mio_external(path).eval(t, np.array(x), f107=f), e if x[2] < 6371.2 + height else i, 1e3))
""", lambda c: {**mio_data(c, NM[1], ext, 1), "pole": [9.5, 287.5], "height": 110.0, "wolf": c.real("w", 0.0, 1.0), "x": x,
                "f": c.real("f", 0.0, 400.0)}, max_paths=400, **OPTS)


def models(k):
    """loaded models evaluate the loaded coefficients"""
    program(k, "models", """
result = []
x = np.array([40.0, -100.0, 6500.0])
nm = [(1, 0), (1, 1), (1, -1)]
def field(gh, ts, t, order=2):
    q = [interpolated(ts, r, t, order) for r in gh]
    return -sheval(x, np.array(full(nm, q, 1)), SPH, SPH, mode=GRADIENT, degree=1)
ts = [2001.0, 2006.0]
result.append(("SHC", load_model_shc(save(shc(nm, g, ts))).eval(t, x), field(g, [tomjd(q) for q in ts], t), 1e3))
result.append(("SHC order 1", load_model_shc(save(shc(nm, g, ts, 1))).eval(t, x), field(g, [tomjd(q) for q in ts], t, 1), 1e3))
result.append(("SHC in years", load_model_shc(save(shc(nm, g, ts)), interpolate_in_decimal_years=True).eval(t, x), field(g, ts, toyear(t)), 1e3))
gh = [[a, a + 5.0 * b] for a, b in g]
text = "x\\ng/h n m " + lit(2001.0) + " 2001-06\\n" + lines([["h" if m < 0 else "g", str(a), str(abs(m)), lit(r[0]), lit(r[1])] for (a, m), r in zip(nm, g)], STYLES[0])
result.append(("IGRF", load_model_igrf(save(text)).eval(t, x), field(gh, ts, toyear(t)), 1e3))
text = "2001.0 WMM 1/1/1\\n1 0 " + " ".join([lit(g[0][0]), "0.0", lit(g[0][1]), "0.0"]) + "\\n1 1 " + " ".join(
    lit(v) for v in (g[1][0], g[2][0], g[1][1], g[2][1])) + "\\n" + "9" * 48 + "\\n"
result.append(("WMM", load_model_wmm(save(text)).eval(t, x), field(gh, ts, toyear(t)), 1e3))
head = "EMM\\nEpoch: 2001.0\\n----\\n"
static = head + "1 0 " + lit(g[0][0]) + " 0\\n1 1 " + lit(g[1][0]) + " " + lit(g[2][0]) + "\\n2 0 0.0 0.0\\n2 1 0.0 1.5\\n"
secvar = head + "1 0 " + lit(g[0][1]) + " 0\\n1 1 " + lit(g[1][1]) + " " + lit(g[2][1]) + "\\n"
extra = -sheval(x, np.array(full([(2, -1)], [1.5], 2)), SPH, SPH, mode=GRADIENT, degree=2)
result.append(("EMM", load_model_emm(save(static), save(secvar)).eval(t, x), field(gh, ts, toyear(t)) + extra, 1e3))
""", lambda c: {"g": nonzero(c, values(c, 3, 2)), "t": c.real("t", 735.0, 1050.0)}, max_paths=400, **OPTS)


def nonzero(c, g):
    c.assume(g[0][0] > 1e-3)
    return g
