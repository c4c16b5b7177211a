"""C09 vector rotations between local frames are proper rotations"""
from sym.program import program
from sym.catalog import GEOD, SPH, CART

DEF = """
import eoxmagmod
from eoxmagmod import vrot_sph2cart, vrot_cart2sph, vrot_sph2geod, vrotate, vnorm, vincdecnorm
d = np.pi / 180
def frame(lat, lon):
    cf, sf, cl, sl = np.cos(lat * d), np.sin(lat * d), np.cos(lon * d), np.sin(lon * d)
    return (-sf * cl, -sf * sl, cf), (-sl, cl, 0.0), (cf * cl, cf * sl, sf)
def tocart(v, lat, lon):
    n, e, u = frame(lat, lon)
    return [v[0] * n[i] + v[1] * e[i] + v[2] * u[i] for i in range(3)]
def tolocal(v, lat, lon):
    return [sum(v[i] * b[i] for i in range(3)) for b in frame(lat, lon)]
def sq(v):
    return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
"""
SHAPES = [(), (1,), (2,), (3,), (0,), (2, 2), (1, 2), (2, 1, 2)]


def nest(shape, f, ix=()):
    if len(ix) == len(shape):
        return f("_".join(map(str, ix)))
    return [nest(shape, f, ix + (i,)) for i in range(shape[len(ix)])]


def vec(c, s, m=100.0):
    return [c.real(f"v{i}_{s}", -m, m) for i in range(3)]


def lat(c, s, n="lat"):
    return c.real(f"{n}_{s}", -90.0, 90.0)


def lon(c, s):
    return c.real(f"lon_{s}", -360.0, 720.0)


def run(k):
    k.bound("any vector (components up to 100), latitudes -90..90 (both poles included), longitudes -360..720; for "
            "every shape of 0..3 leading dimensions listed in SHAPES; all nine pairs of coordinate types of vrotate; "
            "vincdecnorm for vectors of length 1e-3..1e6 in all directions, the axes also as exact cases")
    k.assume("exact real arithmetic, results up to 1e-9 of the magnitude of the terms")
    k.parallel([("rotations", rotations), ("vrotate", lambda k: vrot(k, 0)), ("vrotate", lambda k: vrot(k, 1)),
                ("vrotate", lambda k: vrot(k, 2)), ("norms", norms), ("inclination", incdec), ("errors", errors)])


def rotations(k):
    shapes = SHAPES if not k.quick else SHAPES[:6]
    for sh in shapes:
        def inputs(c):
            return {"shape": sh, "v": nest(sh, lambda s: vec(c, s)), "lat": nest(sh, lambda s: lat(c, s)),
                    "lon": nest(sh, lambda s: lon(c, s))}
        base = """
vv, la, lo = np.array(v).reshape(tuple(shape) + (3,)), np.array(lat).reshape(shape), np.array(lon).reshape(shape)
result = []
def every(label, out, want):
    for ix in np.ndindex(*shape):
        result.append((label, out[ix], want(vv[ix], la[ix], lo[ix])))
    result.append((label + " shape", list(out.shape), list(shape) + [3]))
"""
        program(k, f"sph2cart{sh}", base + """
o = vrot_sph2cart(vv, la, lo)
every("definition", o, tocart)
b = vrot_cart2sph(o, la, lo)
every("inverse", b, lambda v, a, o: v)
for ix in np.ndindex(*shape):
    result.append(("length", sq(o[ix]), sq(vv[ix])))
""", inputs, setup=DEF)
        program(k, f"cart2sph{sh}", base + """
o = vrot_cart2sph(vv, la, lo)
every("definition", o, tolocal)
b = vrot_sph2cart(o, la, lo)
every("inverse", b, lambda v, a, o: v)
for ix in np.ndindex(*shape):
    result.append(("length", sq(o[ix]), sq(vv[ix])))
""", inputs, setup=DEF)
        program(k, f"sph2geod{sh}", base + """
o = vrot_sph2geod(vv, la)
every("definition", o, lambda v, a, _: [v[0] * np.cos(a * d) - v[2] * np.sin(a * d), v[1],
                                       v[0] * np.sin(a * d) + v[2] * np.cos(a * d)])
b = vrot_sph2geod(o, -la)
every("inverse", b, lambda v, a, o: v)
for ix in np.ndindex(*shape):
    result.append(("length", sq(o[ix]), sq(vv[ix])))
""", inputs, setup=DEF)

    # linearity
    def inputs(c):
        return {"v": vec(c, "a"), "w": vec(c, "b"), "s": c.real("s", -10.0, 10.0), "lat": lat(c, ""), "lon": lon(c, "")}
    for fn, a in (("vrot_sph2cart", "lat, lon"), ("vrot_cart2sph", "lat, lon"), ("vrot_sph2geod", "lat")):
        program(k, f"{fn} linear", f"""
v, w = np.array(v), np.array(w)
result = [("linear", {fn}(v + s * w, {a}), {fn}(v, {a}) + s * {fn}(w, {a}))]
""", inputs, setup=DEF)
    # the geodetic and the spherical local frames of a position hold the same vector
    program(k, "sph2geod frames", """
o = vrot_sph2geod(np.array(v), g - s)
result = [("same vector", tocart(o, g, l), tocart(v, s, l))]
""", lambda c: {"v": vec(c, ""), "g": lat(c, "", "glat"), "s": lat(c, "", "slat"), "l": lon(c, "")}, setup=DEF)


def vrot(k, src):
    for dst in (GEOD, SPH, CART):
        for sh in [(), (2,), (2, 1)] + ([] if k.quick else [(3,), (0,), (1, 2, 2)]):
            for none in (False, True):
                for aslist in (False, True):
                    if aslist and (none or sh == ()):
                        continue

                    def inputs(c):
                        def pos(s):
                            g, p, l, r = lat(c, s, "glat"), lat(c, s, "slat"), lon(c, s), c.real("r_" + s, 1.0, 1e4)
                            return [[g, l, r], [p, l, r], [c.real(f"x{i}_{s}", -1e4, 1e4) for i in range(3)]]
                        return {"shape": sh, "v": nest(sh, lambda s: vec(c, s)),
                                "x": nest(sh, pos), "src": src, "dst": dst, "none": none, "aslist": aslist}
                    program(k, f"vrotate {src}->{dst} {sh}{' None' if none else ''}{' lists' if aslist else ''}", """
vv = np.array(v).reshape(tuple(shape) + (3,))
xx = np.array(x).reshape(tuple(shape) + (3, 3))
ci, co = xx[..., src, :], xx[..., dst, :]
if none and dst == 2:
    co = None
if none and src == 2:
    ci = None
if none and src == dst:
    ci = co = None
arr = vv
if aslist:
    arr = v
    if len(shape) == 1:
        ci, co = [x[i][src] for i in range(shape[0])], [x[i][dst] for i in range(shape[0])]
o = vrotate(arr, ci, co, src, dst)
o = np.asarray(o)
result = [("shape", list(o.shape), list(shape) + [3])]
def cart(v, x, t):
    return list(v) if t == 2 else tocart(v, x[t][0], x[t][1])
for ix in np.ndindex(*shape):
    if src == dst:
        result.append(("unchanged", o[ix], vv[ix]))
    elif dst == 2:
        result.append(("same vector", o[ix], cart(vv[ix], xx[ix], src)))
    else:
        result.append(("same vector", cart(o[ix], xx[ix], dst), cart(vv[ix], xx[ix], src)))
    result.append(("length", sq(o[ix]), sq(vv[ix])))
""", inputs, setup=DEF)


def norms(k):
    for sh in SHAPES:
        program(k, f"vnorm{sh}", """
vv = np.array(v).reshape(tuple(shape) + (3,))
n = np.asarray(vnorm(vv))
result = [("shape", list(n.shape), list(shape))]
for ix in np.ndindex(*shape):
    result.append(("square", n[ix] * n[ix], sq(vv[ix])))
    result.append(("not negative", bool(n[ix] >= 0), True))
""", lambda c: {"shape": sh, "v": nest(sh, lambda s: vec(c, s))}, setup=DEF)
    program(k, "vnorm list", "n = vnorm(v)\nresult = [('square', n * n, sq(v))]", lambda c: {"v": vec(c, "")}, setup=DEF)


def incdec(k):
    code = """
i, D, f = vincdecnorm(np.array(v))
result = [("norm", f, f0), ("inclination", np.array([np.cos(i * d), np.sin(i * d)]), np.array([np.cos(b * d), -np.sin(b * d)])),
          ("range", bool(abs(i) <= 90 + 1e-9) and bool(abs(D) <= 180 + 1e-9), True)]
if decl:
    result.append(("declination", np.array([np.cos(D * d), np.sin(D * d)]), np.array([np.cos(l * d), np.sin(l * d)])))
"""

    def inputs(c):
        b, l, f = c.real("b", -90.0, 90.0), c.real("l", -180.0, 180.0, lo_open=True), c.real("f", 1e-3, 1e6)
        from checks.c08 import fmul, fcall, RAD, DEG
        import math
        R = c.low.ring
        R.angle("b", DEG, -math.pi / 2, math.pi / 2)
        R.angle("l", DEG, -math.pi, math.pi)
        p = fmul(f, fcall("cos", fmul(b, RAD)))
        v = [fmul(p, fcall("cos", fmul(l, RAD))), fmul(p, fcall("sin", fmul(l, RAD))), fmul(f, fcall("sin", fmul(b, RAD)))]
        return {"v": v, "b": b, "l": l, "f0": f, "decl": True}
    program(k, "vincdecnorm", code, inputs, setup=DEF, witnesses=6)
    for name, v, b, l in (("up", (0, 0, 1), 90.0, None), ("down", (0, 0, -1), -90.0, None), ("north", (1, 0, 0), 0.0, 0.0),
                          ("east", (0, 1, 0), 0.0, 90.0), ("south", (-1, 0, 0), 0.0, 180.0), ("west", (0, -1, 0), 0.0, -90.0)):
        def inputs(c):
            f = c.real("f", 1e-3, 1e6)
            return {"v": [f * float(x) if x else 0.0 for x in v], "b": b, "l": l or 0.0, "f0": f, "decl": l is not None}
        program(k, f"vincdecnorm {name}", code, inputs, setup=DEF)
    # several vectors at once
    program(k, "vincdecnorm arrays", """
vv = np.array(v)
i, D, f = vincdecnorm(vv)
result = []
for n in range(2):
    for m in range(2):
        a = vincdecnorm(vv[n, m])
        result.append(("element", [i[n, m], D[n, m], f[n, m]], list(a)))
""", lambda c: {"v": nest((2, 2), lambda s: [c.real(f"v{s}_{i}", *r) for i, r in
                                              enumerate(((1.0, 9.0), (-9.0, 9.0), (1.0, 9.0)))])}, setup=DEF)


def errors(k):
    for src, dst in ((0, 5), (5, 0), (1, -1), (2, 7), (7, 1)):
        program(k, f"vrotate types {src},{dst}", """
try:
    vrotate(np.array(v), np.array(x), np.array(x), src, dst)
    out = "accepted"
except ValueError:
    out = "ValueError"
result = [("unsupported type", out, "ValueError")]
""", lambda c: {"v": vec(c, ""), "x": vec(c, "x"), "src": src, "dst": dst}, setup=DEF)
