"""C17 composed and combined coefficients"""
from sym.program import program
from checks.c16 import PATTERNS, times, DEF as DEF16

DEF = DEF16 + """
from numpy import inf
SETS = {1: [(1, 0), (1, 1), (1, -1)], 2: [(2, 0), (2, -1), (1, 1)], 3: [(3, 3), (2, -2)]}
def const2(n, g, v, **k):
    nm = SETS[n]
    return Const(np.array(nm), np.array(g[:len(nm)]), validity_start=v[0], validity_end=v[1], **k)
def linear2(n, g, h, t0, t1, v, **k):
    nm = SETS[n]
    return Time(np.array(nm), np.array([[x, y] for x, y in zip(g[:len(nm)], h)]), np.array([t0, t1]),
                validity_start=v[0], validity_end=v[1], **k)
def table(n, g, degree=3):
    a = np.zeros(((degree + 1) * (degree + 2) // 2, 2)).tolist()
    for (i, j), x in zip(SETS[n], g):
        a[i * (i + 1) // 2 + abs(j)][int(j < 0)] = x
    return a
def lin(g, h, t0, t1, t):
    return [x + (y - x) * (t - t0) / (t1 - t0) for x, y in zip(g, h)]
def pad(coeff, degree, upto=3):
    # full array up to degree 3 of the returned coefficients
    coeff = np.array(coeff)
    n = (upto + 1) * (upto + 2) // 2
    ok = list(coeff.shape[-2:]) == [(degree + 1) * (degree + 2) // 2, 2]
    out = np.zeros((n, 2)).tolist()
    for i in range(min(n, coeff.shape[0])):
        for j in range(2):
            out[i][j] = coeff[i, j]
    return ok, out
def inside(v, t):
    return bool(v[0] <= t) and bool(t <= v[1])
def first(vs, t):
    for i, v in enumerate(vs):
        if inside(v, t):
            return i
    return None
"""
OPTS = dict(setup=DEF, rtol=1e-9)
G = lambda c, n: [c.real(f"g{n}_{i}", -6e4, 6e4) for i in range(3)]


def intervals(c, n):
    v = []
    for i in range(n):
        a, b = c.real(f"a{i}", -1e4, 1e4), c.real(f"b{i}", -1e4, 1e4)
        c.assume(a < b)
        v.append([a, b])
    return v


def run(k):
    k.bound(f"compositions of 1-3 sets with any symbolic validity intervals (thorough: any 3) and {len(PATTERNS)} interval "
            "patterns, combinations of up to 3 sets and of compositions, sets of degrees 1-3, constant and linear; one to three "
            "times, scalar and arrays")
    k.assume("exact real arithmetic, results up to 1e-9; validity intervals of non-zero length; a time outside of the validity "
             "of all composed sets is outside of the claim")
    jobs = [("symbolic", symbolic), ("gaps", gaps), ("combined", combined), ("errors", errors), ("infinite", infinite)]
    for i in range(3):
        jobs.append((f"patterns {i}", lambda k, i=i: patterns(k, PATTERNS[i::3])))
    k.parallel(jobs)


CODE = """
result = []
n = len(v)
sets = [const2(1 + i, g[i], v[i]) for i in range(n)]
c = Composed(*sets)
s = first(v, t)
w = first(v, u) if u is not None else None
if s is not None and u is None:
    q, degree = c(t)
    ok, q = pad(q, degree)
    result += [("size", ok, True), ("coefficients", q, table(1 + s, g[s]), 1e5)]
parts = c.decompose()
if u is None:
    index = [[i for i in range(n) if sets[i] is p] for _, p in parts]
    hits = [i for (iv, p), i in zip(parts, index) if inside(iv, t)]
    result.append(("first part", hits[0] if hits else None, None if s is None else [s]))
    inner = [i for (iv, p), i in zip(parts, index) if bool(iv[0] < t) and bool(t < iv[1])]
    if inner:
        result.append(("parts", inner, [[s]]))
    lo, hi = c.validity
    result.append(("valid", bool(c.is_valid(t)), s is not None))
    result.append(("validity", [inside((lo, hi), x) for y in v for x in y], [True] * (2 * n)))
    result.append(("validity bounds", [any([bool(lo == y[0]) for y in v]), any([bool(hi == y[1]) for y in v])], [True, True]))
    result.append(("degrees", [c.degree, c.min_degree], [max([1, 2, 3][:n]), 1]))
elif s is not None and w is not None:
    q, degree = c(np.array([t, u]))
    result.append(("array shape", list(np.shape(q)), [2, (degree + 1) * (degree + 2) // 2, 2]))
    for i, e in enumerate((s, w)):
        result.append((f"array {i}", pad(q[i], degree)[1], table(1 + e, g[e]), 1e5))
"""


def symbolic(k):
    for n in (1, 2) if k.quick else (1, 2, 3):
        for two in (False, True):
            def inputs(c):
                v = intervals(c, n)
                for i in range(n):
                    # no gaps
                    if n == 2:
                        c.assume(v[0][0] <= v[1][1])
                        c.assume(v[1][0] <= v[0][1])
                if n == 3:
                    for i in range(3):
                        for j in range(i):
                            c.assume(v[i][0] <= v[j][1])
                            c.assume(v[j][0] <= v[i][1])
                return {"v": v, "t": c.real("t", -2e4, 2e4), "u": c.real("u", -2e4, 2e4) if two else None,
                        "g": [G(c, i) for i in range(n)]}
            program(k, f"{n} sets{' array' if two else ''}", CODE, inputs, max_paths=20000, witnesses=1, every=20, **OPTS)


def patterns(k, pats):
    for p in pats:
        for two in (False, True):
            def inputs(c):
                t = times(c, 2, -10.0, 50.0)
                return {"v": p, "t": t[0], "u": t[1] if two else None, "g": [G(c, i) for i in range(len(p))]}
            program(k, f"{p}{' array' if two else ''}", CODE, inputs, max_paths=4000, **OPTS)
        # combinations with other sets, decomposed
        program(k, f"combined {p}", """
result = []
n = len(v)
sets = [const2(1 + i, g[i], v[i]) for i in range(n)]
other = linear2(2, g[n], g[n + 1], 0.0, 16.0, (2.0, 18.0))
c = Combined(Composed(*sets), other) if order else Combined(other, Composed(*sets))
s = first(v, t)
valid = s is not None and inside((2.0, 18.0), t)
result.append(("valid", bool(c.is_valid(t)), valid))
parts = c.decompose()
hits = [p for iv, p in parts if inside(iv, t)]
result.append(("covered", bool(hits), valid))
if valid:
    e = np.array(table(1 + s, g[s])) + np.array(table(2, lin(g[n], g[n + 1], 0.0, 16.0, t)))
    q, degree = c(t)
    result.append(("coefficients", pad(q, degree)[1], e, 1e5))
    q, degree = hits[0](t)
    result.append(("part", pad(q, degree)[1], e, 1e5))
    result.append(("part validity", bool(hits[0].is_valid(t)), True))
""", lambda c: {"v": p, "t": c.real("t", -10.0, 50.0), "g": [G(c, i) for i in range(len(p) + 2)], "order": len(p) % 2}, **OPTS)


def gaps(k):
    for n in (2, 3):
        if n == 3 and k.quick:
            # the third interval starts between the ends of the others
            shapes = [(0.0, 10.0)]
        else:
            shapes = [None]
        for fixed in shapes:
            def inputs(c):
                v = intervals(c, n if fixed is None else n - 1)
                if fixed:
                    v.append(list(fixed))
                return {"v": v, "g": [G(c, i) for i in range(n)]}
            program(k, f"gaps {n}", """
gap = False
for a, b in v:
    earlier = [y for x, y in v if bool(x < a)]
    if earlier and not any([bool(y >= a) for y in earlier]):
        gap = True
try:
    c = Composed(*[const2(1 + i, g[i], v[i]) for i in range(len(v))])
    got = False
except ValueError:
    got = True
result = [("gap refused", got, gap)]
""", inputs, max_paths=20000, every=20, **OPTS)


def combined(k):
    for n in (1, 2, 3):
        for nt in (0, 1, 2) if n < 3 else (0,) if k.quick else (0, 1):
            def inputs(c):
                return {"v": intervals(c, n), "t": times(c, nt, -2e4, 2e4), "g": [G(c, i) for i in range(n + 1)], "nt": nt}
            program(k, f"combination of {n}, {nt} times", """
result = []
n = len(v)
sets = [const2(1, g[0], v[0])] + [linear2(1 + i, g[i], g[i + 1], -1e4, 1e4, v[i]) for i in range(1, n)]
c = Combined(*sets)
if n > 1:
    lo, hi = c.validity
    result.append(("validity", [all([bool(lo >= a) for a, _ in v]), all([bool(hi <= b) for _, b in v]),
                                any([bool(lo == a) for a, _ in v]), any([bool(hi == b) for _, b in v])], [True] * 4))
ts = t if nt else [t]
for x in ts:
    result.append(("valid", bool(c.is_valid(x)), all([inside(y, x) for y in v])))
q, degree = c(np.array(t) if nt else t)
q = np.array(q)
result.append(("shape", list(q.shape), ([nt] if nt else []) + [(n + 1) * (n + 2) // 2, 2]))
result.append(("degrees", [degree, c.degree, c.min_degree], [n, n, 1]))
for i, x in enumerate(ts):
    e = np.array(table(1, g[0]))
    for j in range(1, n):
        e = e + np.array(table(1 + j, lin(g[j], g[j + 1], -1e4, 1e4, x)))
    result.append(("coefficients", pad(q[i] if nt else q, degree)[1], e, 1e5))
""", inputs, max_paths=6000, every=5, **OPTS)
    # degree restrictions are applied to every member
    for opt in ({"max_degree": 1}, {"min_degree": 2}, {"min_degree": 2, "max_degree": 2}, {"max_degree": 0}, {"min_degree": 3}):
        program(k, f"restricted {opt}", """
result = []
lo, hi = opt.get("min_degree", 0), opt.get("max_degree", 9)
for name, c in (("combined", Combined(*[const2(i, g[i], (-1e4, 1e4)) for i in (1, 2, 3)])),
                ("composed", Composed(const2(3, g[3], (-1e4, 0.0)), const2(2, g[2], (0.0, 1e4))))):
    for x in (t, np.array([t, t])):
        q, degree = c(x, **opt)
        q = np.array(q)
        use = (1, 2, 3) if name == "combined" else (3,) if t <= 0.0 else (2,)
        e = np.zeros((10, 2))
        for j in use:
            e = e + np.array(table(j, [y if lo <= d <= hi else 0.0 for (d, _), y in zip(SETS[j], g[j])]))
        for z in ([q] if q.ndim == 2 else [q[0], q[1]]):
            ok, z = pad(z, degree)
            result += [(name + " size", ok, True), (name, z, e, 1e5)]
""", lambda c: {"t": c.real("t", -1e3, 1e3), "g": [G(c, i) for i in range(4)], "opt": opt}, **OPTS)


def infinite(k):
    program(k, "unlimited validity", """
result = []
a = Const(np.array(SETS[1]), np.array(g[0]))
b = const2(2, g[1], (0.0, 10.0))
c = Composed(b, a)
s = 0 if inside((0.0, 10.0), t) else 1
result.append(("validity", list(c.validity), [-inf, inf]))
q, degree = c(t)
result.append(("coefficients", pad(q, degree)[1], table(2, g[1]) if s == 0 else table(1, g[0]), 1e5))
hits = [p for iv, p in c.decompose() if inside(iv, t)]
result.append(("part", hits[0] is (b, a)[s], True))
m = Combined(a, b)
result.append(("combined validity", list(m.validity), [0.0, 10.0]))
result.append(("always valid", bool(a.is_valid(t)), True))
d = Combined(a, Const(np.array(SETS[2]), np.array(g[1])))
result.append(("parts", [[list(iv), i] for i, (iv, _) in enumerate(d.decompose())], [[[-inf, inf], 0]]))
""", lambda c: {"t": c.real("t", -1e6, 1e6), "g": [G(c, i) for i in range(2)]}, **OPTS)


def errors(k):
    for i, j in ((True, False), (False, True), (True, True), (False, False)):
        program(k, f"internal {i} {j}", """
result = []
for name, cls in (("Composed", Composed), ("Combined", Combined)):
    try:
        c = cls(const2(1, g[0], (0.0, 10.0), is_internal=i), const2(2, g[1], (0.0, 10.0), is_internal=j))
        got = bool(c.is_internal)
    except ValueError:
        got = "refused"
    result.append((name, got, i if i == j else "refused"))
    try:
        cls()
        got = "accepted"
    except ValueError:
        got = "refused"
    result.append((name + " empty", got, "refused"))
    a = const2(1, g[0], (0.0, 10.0), is_internal=i)
    result.append((name + " single", cls(a) is a, True))
""", lambda c: {"g": [G(c, n) for n in range(2)], "i": i, "j": j}, **OPTS)
    for sets in ([True, True, False], [False, True, True], [True, False, True]):
        program(k, f"internal {sets}", """
result = []
for name, cls in (("Composed", Composed), ("Combined", Combined)):
    try:
        c = cls(*[const2(1 + n, g[n], (0.0, 10.0 + n), is_internal=s) for n, s in enumerate(sets)])
        got = "accepted"
    except ValueError:
        got = "refused"
    result.append((name, got, "refused"))
""", lambda c: {"g": [G(c, n) for n in range(3)], "sets": sets}, **OPTS)
