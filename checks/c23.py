"""C23 field lines"""
from sym.program import program
from checks.c08 import position, NAME

DEF = """
from eoxmagmod import (trace_field_line, convert, vrotate, GEODETIC_ABOVE_WGS84 as GEOD, GEOCENTRIC_SPHERICAL as SPH,
                       GEOCENTRIC_CARTESIAN as CART)
def norm(v):
    return np.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
class Stub:
    # any model: a field linear in the position and in time
    def __init__(self, matrix, const):
        self.a, self.b = np.array(matrix), np.array(const)
        self.calls = []
    def field(self, t, p, options):
        f = [self.b[i] * options.get("factor", 1.0) + sum(self.a[i][j] * p[j] for j in range(3)) + options.get("rate", 0.0) * t
             for i in range(3)]
        return np.array(f)
    def eval(self, time, location, input_coordinate_system=SPH, output_coordinate_system=SPH, **options):
        x = np.array(location)
        if x.ndim > 1:
            return np.array([self.eval(time, y, input_coordinate_system, output_coordinate_system, **options) for y in x])
        p = convert(x, input_coordinate_system, CART)
        f = self.field(time, p, options)
        if output_coordinate_system == CART:
            return f
        return vrotate(f, None, convert(p, CART, output_coordinate_system), CART, output_coordinate_system)
def line(model, t, p, sign, step, n, lo, hi, options):
    points = [p]
    for _ in range(n):
        p = points[-1]
        f = model.field(t, p, options)
        q = p + (sign * step * norm(p) / (6371.2 * norm(f))) * f
        points.append(q)
        r = norm(q)
        # clear of the rounding of the radius
        assume(abs(r - lo) > 1e-6)
        assume(abs(r - hi) > 1e-6)
        if bool(r <= lo) or bool(r >= hi):
            break
    return points
def judge(result, label, model, t, x, cin, cout, trace, options=None):
    p = convert(np.array(x), cin, CART)
    a = (trace.get("step", 100.0), trace["max_steps"], trace.get("min_radius", 0.9977 * 6371.2),
         trace.get("max_radius", 1e6 * 6371.2), options or {})
    up = line(model, t, p, -1.0, *a)
    down = line(model, t, p, 1.0, *a)
    want = up[:0:-1] + down
    start = np.array(x)
    args, kw = (model, t, start, cin, cout), {"trace_options": trace}
    if options:
        kw["model_options"] = options
    before = dict(trace), dict(options or {})
    points, vectors = trace_field_line(*args, **kw)
    result.append((label + " shape", [list(np.shape(points)), list(np.shape(vectors))], [[len(want), 3]] * 2))
    result.append((label + " start", start, x, 1e4))
    result.append((label + " options", [sorted(trace), sorted(options or {})], [sorted(before[0]), sorted(before[1])]))
    for i, q in enumerate(want):
        y = q if cout == CART else convert(q, CART, cout)
        f = model.field(t, q, options or {})
        g = f if cout == CART else vrotate(f, None, y, CART, cout)
        result.append((label + f" point {i}", points[i], y, 1e4))
        result.append((label + f" field {i}", vectors[i], g, 1e3))
"""
OPTS = dict(setup=DEF, rtol=1e-8)
MATRIX = [[0.001, 0.0002, 0.0], [0.0, -0.0015, 0.0007], [0.0004, 0.0, 0.001]]


def run(k):
    k.bound("up to 2 (thorough 3) steps in both directions from any starting point, any step size and radius limits; models: any field "
            "which is linear in the position (constant part any vector, gradient fixed) and depends on time and options; longer lines "
            "(up to 12 steps) for enumerated fields and starting points")
    k.assume("exact real arithmetic, results up to 1e-8; the field does not vanish; coordinate conversions and vector rotations are "
             "decided by C08-C10; the model is a pure function of its arguments")
    k.parallel([("steps", steps), ("limits", limits), ("options", options), ("frames", frames), ("long", long_), ("inputs", inputs_)])


def start(c, n=3):
    names = ("x", "y", "z")
    at = (3000.0, -4000.0, 4500.0)
    return [c.real(names[i], at[i] - 500.0, at[i] + 500.0) if i < n else at[i] for i in range(3)]


def steps(k):
    for n in (0, 1, 2) if k.quick else (0, 1, 2, 3):
        for flat in (True, False)[:1 + (n < 3)]:
            program(k, f"steps {n} {flat}", """
result = []
m = Stub(a, b)
judge(result, "line", m, 0.0, x, CART, CART, {"max_steps": n, "step": s})
""", lambda c: {"x": start(c, 3 if n < 2 else flat), "b": [c.real(f"b{i}", 20.0, 90.0) for i in range(3 if n < 2 else 1 + flat)] + [25.0, 30.0][-2 + flat:] * (n >= 2),
                "a": [[0.0] * 3] * 3 if flat else MATRIX, "n": n, "s": c.real("s", 1.0, 400.0)}, max_paths=100, **OPTS)


def limits(k):
    for b in ([10.0, 20.0, 30.0], [-10.0, 5.0, -30.0], [20.0, -26.0, 30.0]):
        for n in (1, 2, 3):
            program(k, f"limits {b} {n}", """
result = []
m = Stub([[0.0] * 3] * 3, b)
judge(result, "line", m, 0.0, x, CART, CART, {"max_steps": n, "step": s, "min_radius": lo, "max_radius": hi})
""", lambda c: {"x": [3000.0, -4000.0, 4500.0], "b": b, "n": n, "s": c.real("s", 1.0, 400.0) if n < 3 else 120.5,
                "lo": c.real("lo", 5500.0, 7000.0), "hi": c.real("hi", 6000.0, 8000.0)}, max_paths=400, **OPTS)
    program(k, "default limits", """
result = []
for sign in (1.0, -1.0):
    for x in ([0.0, 0.0, 6500.0], [0.0, 6440.0, 0.0], [-6400.0, 0.0, 0.0]):
        m = Stub((np.eye(3) * 0.01 * sign).tolist(), [0.0] * 3)
        judge(result, f"down {sign} {x}", m, 0.0, x, CART, CART, {"max_steps": 6, "step": 50.0})
        judge(result, f"default step {sign} {x}", m, 0.0, x, CART, CART, {"max_steps": 3})
""", lambda c: {"q": c.real("q", 0.0, 1.0)}, **OPTS)


def options(k):
    program(k, "model options", """
result = []
m = Stub([[0.0] * 3] * 3, b)
judge(result, "options", m, t, x, CART, CART, {"max_steps": 1, "step": 50.0}, {"factor": f})
judge(result, "time", m, t, x, CART, CART, {"max_steps": 1, "step": 50.0}, {"factor": f, "rate": 0.25})
judge(result, "no options", m, t, x, CART, CART, {"max_steps": 1})
""", lambda c: {"x": start(c, 1), "b": [c.real("b0", 20.0, 90.0), 25.0, 30.0], "t": c.real("t", 0.0, 100.0), "f": c.real("f", 0.5, 4.0)},
            max_paths=100, **OPTS)


def frames(k):
    """output frames"""
    for cout in range(3):
        for cin in range(3):
            for x in ([40.5, -100.25, 450.0], [-70.25, 170.5, 50.0], [5.0, 10.0, 7000.0]):
                program(k, f"frames {NAME[cin]} {NAME[cout]} {x}", """
result = []
x = convert(np.array(x), GEOD, CART) if x[2] < 6000.0 else convert(np.array(x), SPH, CART)
x = (x if cin == CART else convert(x, CART, cin)).tolist()
m = Stub(a, [10.0, 20.0, -30.0])
judge(result, "line", m, 3.5, x, cin, cout, {"max_steps": 2, "step": 90.5, "min_radius": lo}, {"factor": 2.0, "rate": 0.5})
judge(result, "short", m, 3.5, x, cin, cout, {"max_steps": 0}, {"factor": 2.0, "rate": f})
""", lambda c: {"x": x, "cin": cin, "cout": cout, "a": MATRIX, "lo": c.real("lo", 6000.0, 6600.0), "f": c.real("f", -10.0, 10.0)}, max_paths=100, **OPTS)
    program(k, "spherical output", """
result = []
m = Stub([[0.0] * 3] * 3, b)
judge(result, "line", m, 0.0, x, CART, SPH, {"max_steps": n, "step": 80.0})
""", lambda c: {"x": start(c, 1), "b": [c.real("b0", 20.0, 90.0), 25.0, 30.0], "n": 1}, max_paths=100, **OPTS)


def inputs_(k):
    """coordinate system of the starting point"""
    for cin in range(3):
        program(k, f"start {NAME[cin]}", """
result = []
m = Stub([[0.0] * 3] * 3, [b, 20.0, 30.0])
judge(result, "line", m, 0.0, x, cin, CART, {"max_steps": 1, "step": 70.0})
""", lambda c: {"x": position(c, cin)[0], "cin": cin, "b": c.real("b", 10.0, 20.0)}, max_paths=200, **OPTS)


def long_(k):
    for b in ([10.0, 20.0, 30.0], [-10.0, 5.0, -30.0]):
        for x in ([3000.0, -4000.0, 4500.0], [-100.0, 200.0, -6700.0]):
            for n in (5, 12):
                program(k, f"long {b} {x} {n}", """
result = []
m = Stub(a, b)
judge(result, "line", m, 1.5, x, CART, CART, {"max_steps": n, "step": 150.0, "max_radius": hi})
""", lambda c: {"x": x, "b": b, "a": MATRIX, "n": n, "hi": c.real("hi", 6800.0, 9000.0)}, max_paths=200, **OPTS)
