"""C22 magnetospheric (MMA) products"""
from sym.program import program
from checks.c16 import DEF as DEF16

DEF = DEF16 + """
from numpy import inf
from spacepy import pycdf
from eoxmagmod import (load_model_swarm_mma_2c_internal, load_model_swarm_mma_2c_external, load_model_swarm_mma_2f_geo_internal,
                       load_model_swarm_mma_2f_geo_external, load_model_swarm_mma_2f_sm_internal, load_model_swarm_mma_2f_sm_external)
from eoxmagmod.magnetic_model.loader_mma import (
    load_coeff_swarm_mma_2c_internal, load_coeff_swarm_mma_2c_external, load_coeff_swarm_mma_2f_geo_internal,
    load_coeff_swarm_mma_2f_geo_external, load_coeff_swarm_mma_2f_sm_internal, load_coeff_swarm_mma_2f_sm_external)
from eoxmagmod.magnetic_model import parser_mma
LOAD = {("2c", "gh"): load_coeff_swarm_mma_2c_internal, ("2c", "qs"): load_coeff_swarm_mma_2c_external,
        ("geo", "gh"): load_coeff_swarm_mma_2f_geo_internal, ("geo", "qs"): load_coeff_swarm_mma_2f_geo_external,
        ("sm", "gh"): load_coeff_swarm_mma_2f_sm_internal, ("sm", "qs"): load_coeff_swarm_mma_2f_sm_external}
MODELS = {("2c", "gh"): load_model_swarm_mma_2c_internal, ("2c", "qs"): load_model_swarm_mma_2c_external,
          ("geo", "gh"): load_model_swarm_mma_2f_geo_internal, ("geo", "qs"): load_model_swarm_mma_2f_geo_external,
          ("sm", "gh"): load_model_swarm_mma_2f_sm_internal, ("sm", "qs"): load_model_swarm_mma_2f_sm_external}
def parts(kind, v):
    # sets of coefficients of a reader: times, indices and values
    return [("t_" + v + s, "nm_" + v + s, v + s) for s in ("_1", "_2")] if kind == "2c" else [("t_" + v, "nm_" + v, v + "_" + kind)]
def epoch(ts):
    return [63113904000000.0 + 86400000.0 * t for t in ts]
def save_set(d, names, ts, nm, gh, flat):
    # gh[i][j]: coefficient i at time j
    d[names[0]] = ([epoch(ts)], "epoch")
    d[names[1]] = ([list(q) for q in nm] if flat else [[list(q) for q in nm]], "int")
    d[names[2]] = ([[[r[j] for r in gh] for j in range(len(ts))]], "double")
def full(nm, values, degree):
    f = np.zeros(((degree + 1) * (degree + 2) // 2, 2)).tolist()
    for (n, m), v in zip(nm, values):
        f[n * (n + 1) // 2 + abs(m)][1 if m < 0 else 0] = v
    return f
def interpolated(ts, row, t):
    n = len(ts)
    for i in range(n - 2, -1, -1):
        if i == 0 or bool(t >= ts[i]):
            return row[i] + (row[i + 1] - row[i]) * ((t - ts[i]) / (ts[i + 1] - ts[i]))
def merged(sets, t):
    # values of [(ts, gh)] at time t: sorted samples of all sets
    samples = [(ts[j], [r[j] for r in gh]) for ts, gh in sets for j in range(len(ts))]
    ts = [q for q, _ in samples]
    return [interpolated(ts, [v[i] for _, v in samples], t) for i in range(len(samples[0][1]))]
def outcome(f):
    try:
        f()
    except ValueError:
        return "refused"
    return "accepted"
"""
OPTS = dict(setup=DEF, rtol=1e-7)
# coefficient lists of the subsets
LISTS = {"a": [(1, 0), (1, 1), (1, -1)], "b": [(2, -1), (1, 0), (3, 3), (2, 0)], "c": [(1, 0)]}
KINDS = [(kind, v) for kind in ("2c", "geo", "sm") for v in ("gh", "qs")]


def run(k):
    k.bound("1-3 (thorough 4) product files of 2-4 samples each, 1-4 coefficients of degrees 1-3, any sample times and values "
            "(symbols), all six readers and loaders; products in memory: every variable of a product has its own symbols")
    k.assume("the CDF library returns the variables as stored (counterexamples and witnesses are replayed with CDF files written and "
             "read by it); samples of a file are in time order where more than one file is merged; exact real arithmetic, results up "
             "to 1e-7; times within one call are distinct, except for the shared boundary sample of two files")
    jobs = [("readers", readers), ("refused", refused), ("order", order), ("models", models), ("unsorted", unsorted)]
    jobs += [(f"merge {kind} {v}", lambda k, kind=kind, v=v: merge(k, kind, v)) for kind, v in KINDS]
    k.parallel(jobs)


def series(c, name, n, lo, step=10.0):
    return [c.real(f"{name}{j}", lo + step * j + 1.0, lo + step * (j + 1) - 1.0) for j in range(n)]


def table(c, name, n, m):
    return [[c.real(f"{name}{i}_{j}", -100.0, 100.0) for j in range(m)] for i in range(n)]


def readers(k):
    for flat in (False, True):
        for variant in range(3):
            sets = []
            for i, names in enumerate([("t_gh_1", "nm_gh_1", "gh_1"), ("t_gh_2", "nm_gh_2", "gh_2"), ("t_qs_1", "nm_qs_1", "qs_1"),
                                       ("t_qs_2", "nm_qs_2", "qs_2"), ("t_gh", "nm_gh", "gh_geo"), ("t_gh", "nm_gh", "gh_sm"),
                                       ("t_qs", "nm_qs", "qs_geo"), ("t_qs", "nm_qs", "qs_sm")]):
                j = i if i < 4 else 4 + (i - 4) // 2
                sets.append((i, names, LISTS["abc"[(j + variant) % 3]], 1 + (j + variant) % 3))

            def inputs(c):
                return {"sets": [(names, series(c, f"t{names[0]}", n, 0.0), nm, table(c, f"v{i}", len(nm), n))
                                 for i, names, nm, n in sets], "flat": flat}
            program(k, f"readers {flat} {variant}", """
result = []
d = {}
content = {}
for names, ts, nm, gh in sets:
    save_set(d, names, ts, nm, gh, flat)
    content[names[2]] = ts, nm, gh
path = product(**d)
READ = {("2c", "gh"): parser_mma.read_swarm_mma_2c_internal, ("2c", "qs"): parser_mma.read_swarm_mma_2c_external,
        ("geo", "gh"): parser_mma.read_swarm_mma_2f_geo_internal, ("geo", "qs"): parser_mma.read_swarm_mma_2f_geo_external,
        ("sm", "gh"): parser_mma.read_swarm_mma_2f_sm_internal, ("sm", "qs"): parser_mma.read_swarm_mma_2f_sm_external}
for (kind, v), reader in READ.items():
    with pycdf.CDF(path) as cdf:
        got = reader(cdf)
    got = got if kind == "2c" else [got]
    result.append((f"{kind} {v} sets", len(got), len(parts(kind, v))))
    for g, names in zip(got, parts(kind, v)):
        ts, nm, gh = content[names[2]]
        result.append((f"{names[2]} indices", [list(map(int, q)) for q in g["nm"]], [list(q) for q in nm]))
        result.append((f"{names[2]} times", g["t"], ts, 100.0))
        result.append((f"{names[2]} values", g[v], gh, 100.0))
        result.append((f"{names[2]} degrees", [int(g["degree_min"]), int(g["degree_max"])], [min(a for a, _ in nm), max(a for a, _ in nm)]))
""", inputs, max_paths=50, **OPTS)


def merge(k, kind, v):
    for n in (1, 2, 3) if k.quick else (1, 2, 3, 4):
        for variant in range(3):
            lists = [LISTS["abc"[(variant + i) % 3]] for i in range(2 if kind == "2c" else 1)]
            sizes = [[2 + (i + j + variant) % 2 + (n == 1) for j in range(n)] for i in range(len(lists))]

            def inputs(c):
                return away(c, {"n": n, "kind": kind, "v": v, "lists": lists, "t": c.real("t", -5.0, 5.0 + 45.0 * n),
                        "ts": [[series(c, f"t{i}{j}_", s[j], 45.0 * j) for j in range(n)] for i, s in enumerate(sizes)],
                        "gh": [[table(c, f"g{i}{j}_", len(lists[i]), s[j]) for j in range(n)] for i, s in enumerate(sizes)]})
            program(k, f"merge {kind} {v} {n} {variant}", """
result = []
names = parts(kind, v)
e = []
for i in range(len(names)):
    e.append(merged([(ts[i][j], gh[i][j]) for j in range(n)], t))
paths = []
for j in range(n):
    d = {}
    for i, q in enumerate(names):
        save_set(d, q, ts[i][j], lists[i], gh[i][j], i == j)
    paths.append(product(**d))
c = LOAD[kind, v](*paths)
degree = max(a for nm in lists for a, _ in nm)
want = np.zeros(((degree + 1) * (degree + 2) // 2, 2))
for nm, q in zip(lists, e):
    want = want + np.array(full(nm, q, degree))
got, size = c(np.array(t))
result.append(("coefficients", got, want, 100.0))
result.append(("degree", [int(size), int(c.degree), int(c.min_degree)], [degree, degree, min(a for nm in lists for a, _ in nm)]))
result.append(("internal", c.is_internal, v == "gh"))
lo, hi = ts[0][0][0], ts[0][-1][-1]
if kind == "2c":
    lo, hi = max(lo, ts[1][0][0]), min(hi, ts[1][-1][-1])
result.append(("validity", list(c.validity), [lo, hi], 100.0))
""", inputs, max_paths=600, **OPTS)


def unsorted(k):
    """a single file with samples in any order"""
    for kind, v in KINDS:
        for perm in ([1, 0], [2, 0, 1], [1, 2, 0], [2, 1, 0], [0, 2, 1], [3, 1, 0, 2]):
            program(k, f"unsorted {kind} {v} {perm}", """
result = []
e = merged([(ts, gh)], t)
d = {}
for q in parts(kind, v):
    save_set(d, q, [ts[i] for i in perm], nm, [[r[i] for i in perm] for r in gh], False)
c = LOAD[kind, v](product(**d))
want = np.array(full(nm, e, 1)) * (2.0 if kind == "2c" else 1.0)
result.append(("coefficients", c(np.array(t))[0], want, 100.0))
result.append(("validity", list(c.validity), [ts[0], ts[-1]], 100.0))
""", lambda c: away(c, {"kind": kind, "v": v, "perm": perm, "nm": LISTS["a"], "ts": series(c, "t", len(perm), 0.0),
                "gh": table(c, "g", 3, len(perm)), "t": c.real("t", -5.0, 45.0)}), max_paths=300, **OPTS)


def refused(k):
    base = [(1, 0), (1, 1), (2, -1)]
    others = {"order": [(1, 1), (1, 0), (2, -1)], "sign": [(1, 0), (1, 1), (2, 1)], "degree": [(1, 0), (1, 1), (3, -1)],
              "lower": [(2, 0), (2, 1), (2, -1)], "fewer": [(1, 0), (2, -1)], "more": [(1, 0), (1, 1), (2, -1), (2, 0)], "same": base}
    for kind, v in KINDS:
        for label, nm in others.items():
            program(k, f"refused {kind} {v} {label}", """
result = []
names = parts(kind, v)
def file(j, lists):
    d = {}
    for i, q in enumerate(names):
        save_set(d, q, ts[j], lists[i], gh[:len(lists[i])], False)
    return product(**d)
n = len(names)
want = "accepted" if label == "same" else "refused"
load = LOAD[kind, v]
for i in range(n):
    other = [nm if q == i else base for q in range(n)]
    result.append(("second", outcome(lambda: load(file(0, [base] * n), file(1, other))), want))
    result.append(("first", outcome(lambda: load(file(0, other), file(1, [base] * n))), want))
    result.append(("third", outcome(lambda: load(file(0, [base] * n), file(1, [base] * n), file(2, other))), want))
    result.append(("middle", outcome(lambda: load(file(0, [base] * n), file(1, other), file(2, [base] * n))), want))
""", lambda c: {"kind": kind, "v": v, "label": label, "base": base, "nm": nm, "ts": [series(c, f"t{j}_", 2, 20.0 * j) for j in range(3)],
                "gh": table(c, "g", 4, 2)}, max_paths=100, **OPTS)


def order(k):
    for kind, v in KINDS:
        for part in range(2 if kind == "2c" else 1):
            for n in (2, 3):
                program(k, f"order {kind} {v} {part} {n}", """
result = []
names = parts(kind, v)
ok = all(bool(s[q][1] <= s[q + 1][0]) for q in range(n - 1))
paths = []
for j in range(n):
    d = {}
    for i, q in enumerate(names):
        save_set(d, q, s[j] if i == part else ts[j], nm, gh, False)
    paths.append(product(**d))
result.append(("order", outcome(lambda: LOAD[kind, v](*paths)), "accepted" if ok else "refused"))
""", lambda c: ordered(c, {"kind": kind, "v": v, "part": part, "n": n, "nm": LISTS["a"], "ts": [[10.0 * j, 10.0 * j + 5.0] for j in range(3)],
                           "s": [[c.real(f"s{j}{i}", 0.0, 40.0) for i in range(2)] for j in range(n)], "gh": [[1.0, 2.0]] * 3}),
                        max_paths=300, **OPTS)
        program(k, f"boundary {kind} {v}", """
result = []
names = parts(kind, v)
ts = [[1.0, s], [s, 20.0]]
gh = [[[1.0, 2.0], [3.0, 5.0]], [[4.0, 7.0], [6.0, 1.0]]]
e = np.array(full([(1, 0), (2, 1)], [gh[0][i][0] + (gh[0][i][1] - gh[0][i][0]) * ((t - 1.0) / (s - 1.0)) if bool(t < s) else
                                    gh[1][i][0] + (gh[1][i][1] - gh[1][i][0]) * ((t - s) / (20.0 - s)) for i in range(2)], 2))
paths = []
for j in range(2):
    d = {}
    for q in names:
        save_set(d, q, ts[j], [(1, 0), (2, 1)], gh[j], False)
    paths.append(product(**d))
c = LOAD[kind, v](*paths)
result.append(("boundary", c(np.array(t))[0], e * (2.0 if kind == "2c" else 1.0), 100.0))
""", lambda c: apart(c, {"kind": kind, "v": v, "s": c.real("s", 5.0, 15.0), "t": c.real("t", -5.0, 30.0)}), max_paths=100, **OPTS)


def ordered(c, d):
    for a, b in d["s"]:
        c.assume(b - a > 1e-3)
    for q in range(d["n"] - 1):
        # clear of the resolution of the stored times (equal times: 'boundary')
        c.assume(abs(d["s"][q][1] - d["s"][q + 1][0]) > 1e-3)
    return d


def apart(c, d):
    c.assume(abs(d["s"] - d["t"]) > 1e-3)
    return d


def away(c, d):
    """the time is clear of the resolution of the stored sample times"""
    def nodes(x):
        return [y for z in x for y in nodes(z)] if isinstance(x, list) else [x]
    for q in nodes(d["ts"]):
        c.assume(abs(q - d["t"]) > 1e-3)
    if d["kind"] == "2c" and "n" in d:
        c.assume(abs(d["ts"][0][0][0] - d["ts"][1][0][0]) > 1e-3)
        c.assume(abs(d["ts"][0][-1][-1] - d["ts"][1][-1][-1]) > 1e-3)
    return d


def models(k):
    for kind, v in KINDS:
        for pole in ((), (78.5, -60.25)) if kind == "2c" else ((),):
            program(k, f"models {kind} {v} {pole}", """
result = []
names = parts(kind, v)
x = np.array([40.0, -100.0, 6500.0])
paths = []
for j in range(2):
    d = {}
    for i, q in enumerate(names):
        save_set(d, q, ts[j], lists[i], gh[j][i], False)
    paths.append(product(**d))
sets = [SparseTime(np.array(lists[i]), np.array([gh[0][i][r] + gh[1][i][r] for r in range(len(lists[i]))]), np.array(ts[0] + ts[1]),
                   is_internal=v == "gh") for i in range(len(names))]
model = MODELS[kind, v](*paths, **({"lat_ngp": pole[0], "lon_ngp": pole[1]} if pole else {}))
if kind == "2c":
    ref = Dipole(CombinedSets(*sets), pole or (90 - 9.92, 287.78 - 360.0))
else:
    ref = Model(sets[0])
result.append(("field", model.eval(t, x), ref.eval(t, x), 1e3))
result.append(("validity", list(model.validity), list(ref.validity), 100.0))
""", lambda c: {"kind": kind, "v": v, "pole": pole, "lists": [LISTS["a"], LISTS["c"] + [(2, 2)]],
                "ts": [[1.0, 7.0], [13.0, 29.0]], "gh": [[table(c, f"g{j}{i}", 3 - i, 2) for i in range(2)] for j in range(2)],
                "t": c.real("t", 2.0, 28.0)}, max_paths=100, **{**OPTS, "setup": DEF + """
from eoxmagmod.magnetic_model.coefficients import (SparseSHCoefficientsTimeDependent as SparseTime, CombinedSHCoefficients as CombinedSets)
"""})
