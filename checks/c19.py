"""C19 composed models: weighted sums of their members in any frame"""
from sym.program import program
from checks.c09 import nest
from checks.c16 import DEF as DEF16, G, X

DEF = DEF16 + """
from numpy import inf
from eoxmagmod import ComposedGeomagneticModel as Sum, vrotate
from eoxmagmod.magnetic_model.model import GeomagneticModel
class Stub(GeomagneticModel):
    # any model: a field depending on the time, the position and two options
    def __init__(self, k, validity=(-inf, inf), parameters=("time", "location")):
        self.k, self.validity_, self.parameters = k, validity, parameters
    validity = property(lambda self: self.validity_)
    def eval(self, time, location, input_coordinate_system=SPH, output_coordinate_system=SPH, scale=1.0, p=1.0, q=0.0):
        x = convert(np.asarray(location), input_coordinate_system, SPH)
        k = self.k
        t = np.asarray(time)
        v = np.stack([(k[0] + k[1] * x[..., 0]) * p * scale, (k[1] * x[..., 1] + k[2] * t) * scale,
                      (k[2] + k[0] * x[..., 2] + q) * scale], axis=-1)
        return vrotate(v, x, convert(np.asarray(location), input_coordinate_system, output_coordinate_system),
                       SPH, output_coordinate_system)
"""
OPTS = dict(setup=DEF, rtol=1e-9)
FRAMES = [(i, o) for i in range(3) for o in range(3)]
PLACES = {0: [(40.5, -100.25, 430.0), (-89.25, 179.5, -5.0), (0.0, 0.0, 35000.0), (-23.0, 200.0, 0.0)],
          1: [(40.5, -100.25, 6900.0), (-89.25, 179.5, 6350.0), (0.0, 0.0, 42000.0), (-23.0, 200.0, 6371.2)],
          2: [(3000.0, -2500.0, 5100.0), (-10.0, 3.0, -6600.0), (7000.0, 0.0, 0.0), (-4000.0, 5000.0, 30.0)]}


def run(k):
    k.bound("compositions of 0-4 members (constant, linear, composed, nested and arbitrary stub models) with any symbolic "
            "coefficients, scales and options, any symbolic time; all 9 frame pairs at 4 positions each and at any symbolic "
            "position where the output is not geodetic from another input; time/location shapes up to 2x2, NaN times; "
            "1-3 symbolic validity intervals")
    k.assume("exact real arithmetic, results up to 1e-9; the members' own evaluations are decided by C16, C09 and C10")
    k.parallel([("frames", frames), ("symbolic frames", symbolic), ("options", options), ("shapes", shapes), ("validity", validity),
                ("empty", empty), ("nested", nested)])


CODE = """
result = []
cin, cout = args
members = [Model(const(g[0], (-1e4, 1e4))[0]), Model(linear(g[1], g[2], 0.0, 100.0)[0]),
           Model(const(g[2], (-1e4, 1e4), is_internal=False)[0])][:n]
m = Sum()
want = np.zeros(3)
for i, x in enumerate(members):
    m.push(x, scale=w[i])
    want = want + np.array(x.eval(t, np.array(pos), cin, cout)) * w[i]
got = m.eval(t, np.array(pos), cin, cout)
result.append(("sum", got, want, 1e5))
got = m.eval(t, np.array(pos), cin, cout, scale=w[-1])
result.append(("scaled", got, want * w[-1], 1e5))
if n == 2:
    got = Sum(*members).eval(np.array([t, 50.0]), np.array([pos, pos]), cin, cout)
    result.append(("array", got, [sum([np.array(x.eval(y, np.array(pos), cin, cout)) for x in members]) for y in (t, 50.0)], 1e5))
"""


def coefficients(c, t):
    return {"t": t, "g": [G(c, i) for i in range(3)], "w": [c.real(f"w{i}", -10.0, 10.0) for i in range(4)]}


def apart(c, t):
    """a time other than that of the second element (coincidences: C03)"""
    c.assume(abs(t - 50.0) > 1e-3)
    return t


def frames(k):
    for cin, cout in FRAMES:
        for j, pos in enumerate(PLACES[cin]):
            for n in (1, 2, 3) if j == 0 else (2,):
                program(k, f"{n} members {cin}{cout} {pos}", CODE, lambda c: {
                    **coefficients(c, apart(c, c.real("t", -50.0, 150.0))), "pos": pos, "args": (cin, cout), "n": n}, **OPTS)


def symbolic(k):
    for cin, cout in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (2, 2)):
        def inputs(c):
            pos = X(c) if cin == 1 else [c.real("x", -89.0, 89.0), c.real("y", -180.0, 180.0), c.real("z", -10.0, 900.0)] \
                if cin == 0 else [c.real(n, 3000.0, 7000.0) for n in "xyz"]
            return {**coefficients(c, c.real("t", 0.0, 100.0)), "pos": pos, "args": (cin, cout), "n": 3}
        program(k, f"symbolic {cin}{cout}", CODE, inputs, **OPTS)


def options(k):
    for cin, cout in ((1, 1), (0, 2), (2, 0)):
        pos = PLACES[cin][0]
        program(k, f"options {cin}{cout}", """
result = []
a, b = Stub(g[0], parameters=("time", "location", "p")), Stub(g[1])
m = Sum()
m.push(a, scale=w[0], p=o[0])
m.push(b, w[1], q=o[1])
m.push(a)
m.push(b, scale=w[2], p=o[2], q=o[0])
y = np.array(pos)
cs = dict(input_coordinate_system=cin, output_coordinate_system=cout)
def e(model, **kw):
    return np.array(model.eval(t, y, cin, cout, **kw))
for opt in ({}, {"p": o[3]}, {"q": o[3]}, {"p": o[3], "q": o[1]}):
    f = lambda **kw: {**opt, **kw}
    want = e(a, **f(p=o[0])) * w[0] + e(b, **f(q=o[1])) * w[1] + e(a, **opt) + e(b, **f(p=o[2], q=o[0])) * w[2]
    given = dict(opt)
    result.append((f"options {sorted(opt)}", m.eval(t, y, **cs, **given), want, 1e5))
    result.append((f"scaled {sorted(opt)}", m.eval(t, y, cin, cout, scale=w[3], **given), want * w[3], 1e5))
    result.append((f"no scale {sorted(opt)}", m.eval(t, y, cin, cout, scale=None, **given), want, 1e5))
result.append(("parameters", sorted(m.parameters), ["location", "p", "time"]))
result.append(("parameters of none", sorted(Sum().parameters), ["location", "time"]))
h = Sum(a, b)
result.append(("constructor", h.eval(t, y, cin, cout), e(a) + e(b), 1e5))
# the same composition again, extended
h.push(a, scale=w[0])
result.append(("extended", h.eval(t, y, cin, cout), e(a) + e(b) + e(a) * w[0], 1e5))
# degree restrictions of single members
c2 = Const(np.array([(1, 0), (2, 1)]), np.array(g[0][:2]))
d = Sum()
d.push(Model(c2), max_degree=1)
d.push(Model(c2), scale=w[1], min_degree=2)
d.push(Model(c2), scale=w[2])
M = Model(c2)
result.append(("degrees", d.eval(t, y, cin, cout), e(M, max_degree=1) + e(M, min_degree=2) * w[1] + e(M) * w[2], 1e5))
result.append(("degrees overridden", d.eval(t, y, cin, cout, max_degree=0),
               e(M, max_degree=1) + e(M, min_degree=2, max_degree=0) * w[1] + e(M, max_degree=0) * w[2], 1e5))
""", lambda c: {"t": c.real("t", -1e4, 1e4), "pos": pos, "cin": cin, "cout": cout, "g": [G(c, i) for i in range(2)],
                "w": [c.real(f"w{i}", -10.0, 10.0) for i in range(4)], "o": [c.real(f"o{i}", -10.0, 10.0) for i in range(4)]}, **OPTS)


SHAPES = [((), (3,)), ((), (2, 3)), ((), (2, 2, 3)), ((2,), (3,)), ((2,), (2, 3)), ((2,), (2, 2, 3)), ((2, 2), (3,)),
          ((2, 2), (2, 3)), ((2, 2), (2, 2, 3)), ((1,), (1, 3)), ((0,), (0, 3)), ((), (0, 3)), ((3,), (3,))]


def shapes(k):
    for ts, xs in SHAPES:
        for cin, cout in FRAMES if len(ts) + len(xs) < 4 else ((0, 2), (2, 0), (1, 1)):
            places = iter(PLACES[cin] * 2)
            pos = nest(xs[:-1], lambda s: list(next(places))) if len(xs) > 1 else list(next(places))
            times = iter((2.5, 99.0, 100.5, 40.0))

            def inputs(c):
                t = nest(ts, lambda s: next(times)) if ts else 2.5
                return {"t": t, "pos": pos, "ts": ts, "xs": xs, "g": [G(c, i) for i in range(3)], "cin": cin, "cout": cout,
                        "w": [c.real(f"w{i}", -10.0, 10.0) for i in range(3)]}
            program(k, f"shapes {ts} {xs} {cin}{cout}", """
result = []
a, b = Model(linear(g[0], g[1], 0.0, 100.0)[0]), Model(const(g[2], (-1e4, 1e4))[0])
m = Sum()
m.push(a, scale=w[0])
m.push(b, scale=w[1])
t, x = np.array(t, dtype="f8").reshape(ts), np.array(pos, dtype="f8").reshape(xs)
sh = ts if len(ts) >= len(xs) - 1 else xs[:-1]
got = m.eval(t, x, cin, cout, scale=w[2])
none = Sum().eval(t, x, cin, cout)
result.append(("shape", list(np.shape(got)), list(sh) + [3]))
result.append(("empty composition", none, np.zeros((*sh, 3))))
for ix in np.ndindex(*sh):
    tx, xx = t[ix[:len(ts)]], x[ix[:len(xs) - 1]]
    e = (np.array(a.eval(tx, xx, cin, cout)) * w[0] + np.array(b.eval(tx, xx, cin, cout)) * w[1]) * w[2]
    result.append((f"field {ix}", got[ix], e, 1e5))
""", inputs, **OPTS)


def validity(k):
    for n in (1, 2, 3):
        def inputs(c):
            v = []
            for i in range(n):
                a, b = c.real(f"a{i}", -1e4, 1e4), c.real(f"b{i}", -1e4, 1e4)
                c.assume(a <= b)
                v.append([a, b])
            return {"v": v, "t": c.real("t", -2e4, 2e4)}
        program(k, f"validity of {n}", """
result = []
models = [Stub((1.0, 2.0, 3.0), validity=tuple(x)) for x in v]
want = all([bool(a <= t) and bool(t <= b) for a, b in v])
for name, m in (("constructor", Sum(*models)), ("reverse", Sum(*models[::-1]))):
    lo, hi = m.validity
    result.append((name, bool(lo <= t) and bool(t <= hi), want))
m = Sum()
result.append(("unlimited", list(m.validity), [-inf, inf]))
for x in models:
    m.push(x, scale=0.5)
lo, hi = m.validity
result.append(("pushed", bool(lo <= t) and bool(t <= hi), want))
# any common instant of the members bounds the validity exactly
if want:
    result.append(("bounds", [any([bool(lo == a) for a, _ in v]), any([bool(hi == b) for _, b in v])], [True, True]))
""", inputs, max_paths=8000, every=20, **OPTS)


def empty(k):
    for cin, cout in FRAMES:
        program(k, f"empty {cin}{cout}", """
result = []
N = float("nan")
m = Sum()
for name, ts, xs in (("scalar", t, pos), ("locations", t, [pos, pos]), ("times", [t, N, t], pos), ("both", [t, N], [pos, pos]),
                     ("NaN", N, pos), ("NaN locations", N, [pos, pos]), ("grid", [t, N], [[pos, pos], [pos, pos]]),
                     ("times of locations", [[t, N], [N, t]], [pos, pos])):
    a, b = np.array(ts), np.array(xs)
    sh = a.shape if a.ndim >= b.ndim - 1 else b.shape[:-1]
    want = np.zeros((*sh, 3)).tolist()
    for opt in ({}, {"scale": w}):
        got = m.eval(a, b, cin, cout, **opt)
        result.append((name + " shape", list(np.shape(got)), list(sh) + [3]))
        for ix in np.ndindex(*sh):
            y = a[ix[:a.ndim]]
            result.append((f"{name} {ix}", got[ix], np.array([N] * 3 if bool(np.isnan(y)) else [0.0] * 3)))
""", lambda c: {"t": c.real("t", -1e4, 1e4), "w": c.real("w", -10.0, 10.0), "pos": list(PLACES[cin][0]),
                "cin": cin, "cout": cout}, **OPTS)


def nested(k):
    for cin, cout in FRAMES:
        program(k, f"nested {cin}{cout}", """
result = []
v = (0.0, 100.0)
a = Model(linear(g[0], g[1], 0.0, 100.0)[0])
b = Dipole(const(g[2], (-1e4, 50.0))[0], (80.0, -72.0))
c = Stub(g[1])
x = np.array(pos)
inner = Sum()
inner.push(a, scale=w[0])
inner.push(b, scale=w[1])
m = Sum()
m.push(inner, scale=w[2])
m.push(c, q=w[0])
m.push(Sum())
e = lambda model, **o: np.array(model.eval(t, x, cin, cout, **o))
want = (e(a) * w[0] + e(b) * w[1]) * w[2] + e(c, q=w[0])
lo, hi = m.validity
result.append(("validity", [lo, hi], [0.0, 50.0]))
got = m.eval(t, x, cin, cout)
result.append(("field", got, want, 1e5))
result.append(("scaled", m.eval(t, x, cin, cout, scale=w[1]), want * w[1], 1e5))
result.append(("position", x, pos))
""", lambda c: {"t": c.real("t", -20.0, 120.0), "pos": list(PLACES[cin][0]), "cin": cin, "cout": cout,
                "g": [G(c, i) for i in range(3)], "w": [c.real(f"w{i}", -10.0, 10.0) for i in range(3)]}, **OPTS)
