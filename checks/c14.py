"""C14 dipole frame: a rigid rotation that puts the given pole at the north"""
import math

from sym import core
from sym.core import fmul, fcall
from sym.program import program
from sym.catalog import GEOD, SPH, CART
from sym.poly import D, const, add
from checks.c08 import NAME, A, B
from checks.c09 import DEF as DEF9, nest, vec

DEF = DEF9 + """
from eoxmagmod import convert, sheval, get_dipole_rotation_matrix, convert_to_dipole, vrot_from_dipole, sheval_dipole
from eoxmagmod.dipole import rotate_vectors_from_dipole
from eoxmagmod.magnetic_model.model import DipoleSphericalHarmomicGeomagneticModel
from eoxmagmod.magnetic_model.coefficients import SparseSHCoefficientsConstant
def axes(plat, plon):
    cf, sf, cl, sl = np.cos(plat * d), np.sin(plat * d), np.cos(plon * d), np.sin(plon * d)
    return (sf * cl, sf * sl, -cf), (-sl, cl, 0.0), (cf * cl, cf * sl, sf)
def todipole(x, plat, plon):
    return [sum(x[i] * a[i] for i in range(3)) for a in axes(plat, plon)]
def fromdipole(x, plat, plon):
    a = axes(plat, plon)
    return [sum(x[j] * a[j][i] for j in range(3)) for i in range(3)]
def xyz(x, lat, lon):
    return todir(lat, lon, x)
def todir(lat, lon, r):
    return [r * b for b in frame(lat, lon)[2]]
def dot3(a, b):
    return sum(a[i] * b[i] for i in range(3))
"""
SH = [(), (2,), (2, 1)]


def run(k):
    k.bound("any pole (latitude -90..90, longitude -360..360, the geographic poles also as exact cases); positions of radius "
            "957..127000 km in all three coordinate types; any vectors; all output types; sheval_dipole and the dipole "
            "model for degree 1 (spherical input 3 with and without a degree limit, thorough 2 for all), internal and external, all modes, scalar and per-component scale; one "
            "position or arrays of up to 2x1")
    k.assume("exact real arithmetic, results up to 1e-9 of the magnitude of the terms; positions in the arrays are distinct")
    jobs = [("matrix", matrix)]
    for src in (GEOD, SPH, CART):
        for sh in SH:
            jobs.append((f"convert {NAME[src]} {sh}", lambda k, src=src, sh=sh: conversion(k, src, sh)))
    for src in (GEOD, SPH, CART):
        for dst in (GEOD, SPH, CART):
            jobs.append((f"vectors {NAME[src]} {NAME[dst]}", lambda k, src=src, dst=dst: vectors(k, src, dst)))
            for internal in (True, False):
                jobs.append((f"field {NAME[src]} {NAME[dst]}",
                             lambda k, src=src, dst=dst, i=internal: field(k, src, dst, i)))
    k.parallel(jobs)


def pole(c):
    return c.real("plat", -90.0, 90.0), c.real("plon", -360.0, 360.0)


POLES = {"any": None, "north": (90.0, 0.0), "south": (-90.0, 0.0), "north 30": (90.0, 30.0), "equator": (0.0, 90.0)}


def poles(c, which):
    return pole(c) if POLES[which] is None else POLES[which]


def matrix(k):
    for which in POLES:
        program(k, f"rotation matrix, {which}", """
M = np.asarray(get_dipole_rotation_matrix(pl, po))
result = [("shape", list(M.shape), [3, 3])]
I = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
for i in range(3):
    for j in range(3):
        result.append(("orthogonal", sum(M[k, i] * M[k, j] for k in range(3)), I[i][j], 1.0))
        result.append(("orthogonal", sum(M[i, k] * M[j, k] for k in range(3)), I[i][j], 1.0))
det = sum(M[0, i] * (M[1, (i + 1) % 3] * M[2, (i + 2) % 3] - M[1, (i + 2) % 3] * M[2, (i + 1) % 3]) for i in range(3))
result.append(("determinant", det, 1.0))
a = axes(pl, po)
for i in range(3):
    result.append(("pole", sum(a[2][k] * M[k, i] for k in range(3)), I[2][i], 1.0))
    result.append(("north", M[2, i], [-np.cos(pl * d), 0.0, np.sin(pl * d)][i], 1.0))
""", lambda c: dict(zip(("pl", "po"), poles(c, which))), setup=DEF)


def pos(c, src, s):
    """one position of a batch"""
    R = c.low.ring
    la = c.real(f"lat_{s}", -90.0, 90.0)
    lo = c.real(f"lon_{s}", -180.0, 180.0, lo_open=True)
    from checks.c08 import DEG, RAD
    R.angle(f"lat_{s}", DEG, -math.pi / 2, math.pi / 2)
    R.angle(f"lon_{s}", DEG, -math.pi, math.pi)
    if src == SPH:
        return [la, lo, c.real(f"r_{s}", 957.0, 127000.0)]
    if src == GEOD:
        h = c.real(f"h_{s}", -3000.0, 120000.0)
        e2 = 1 - D(B) * D(B) / (D(A) * D(A))
        a = R.angle(f"lat_{s}", DEG, -math.pi / 2, math.pi / 2)
        n = R.mul(const(D(A)), R.inv(R.sqrt(add(const(1), R.mul(a.sin, a.sin), -e2))))
        R.known_root(R.mul(add(n, R.v(f"h_{s}")), a.cos))
        return [la, lo, h]
    r = c.real(f"r_{s}", 957.0, 127000.0)
    p = fmul(r, fcall("cos", fmul(la, RAD)))
    l = fmul(lo, RAD)
    return [fmul(p, fcall("cos", l)), fmul(p, fcall("sin", l)), fmul(r, fcall("sin", fmul(la, RAD)))]


def conversion(k, src, sh):
    for which in POLES:
        if which != "any" and sh != ():
            continue
        code = """
xx = np.array(x).reshape(tuple(shape) + (3,))
o = convert_to_dipole(xx, pl, po, src)
result = [("shape", list(o.shape), list(shape) + [3])]
for ix in np.ndindex(*shape):
    c = convert(xx[ix], src, 2)
    rr = np.sqrt(dot3(c, c))
    y = todir(o[ix][0], o[ix][1], o[ix][2])
    result.append(("radius", o[ix][2] * o[ix][2], dot3(c, c)))
    result.append(("position", y, todipole(c, pl, po)))
    result.append(("range", bool(abs(o[ix][0]) <= 90 + 1e-9) and bool(abs(o[ix][1]) <= 180 + 1e-9), True))
"""

        def inputs(c):
            p = poles(c, which)
            return {"x": nest(sh, lambda s: pos(c, src, s)), "shape": sh, "src": src, "pl": p[0], "po": p[1]}
        program(k, f"convert_to_dipole {NAME[src]} {sh} {which}", code, inputs, setup=DEF, max_paths=400)
    if src == SPH and sh == ():
        program(k, "the default input type is geocentric spherical",
                "result = [('default', convert_to_dipole(x, pl, po), convert_to_dipole(x, pl, po, 1))]",
                lambda c: {"x": pos(c, SPH, ""), "pl": 80.0, "po": -72.0}, setup=DEF)
        # two points keep their angle
        program(k, "angles", """
a, b = convert_to_dipole(np.array(x), pl, po, 1)
result = [("angle", dot3(todir(*a), todir(*b)), dot3(todir(*x[0]), todir(*x[1])))]
""", lambda c: {"x": [pos(c, SPH, "a"), pos(c, SPH, "b")], "pl": pole(c)[0], "po": pole(c)[1]}, setup=DEF, max_paths=400)
    if sh == () and src == SPH:
        for which in ("any", "equator"):
            program(k, f"the pole itself, {which}", """
o = convert_to_dipole([pl, po, 7000.0], pl, po)
n = convert_to_dipole([90.0, 0.0, 7000.0], pl, po)
result = [("latitude of the pole", [np.sin(o[0] * d), np.cos(o[0] * d), o[2]], [1.0, 0.0, 7000.0]),
          ("north pole", todir(n[0], n[1], n[2]), [-7000.0 * np.cos(pl * d), 0.0, 7000.0 * np.sin(pl * d)], 7000.0)]
""", lambda c: dict(zip(("pl", "po"), poles(c, which))), setup=DEF, tol=1e-7, rtol=1e-7, max_paths=400)


def vectors(k, src, dst):
    for sh in SH:
        def inputs(c):
            p = pole(c)
            return {"x": nest(sh, lambda s: pos(c, src, s)), "v": nest(sh, lambda s: vec(c, s)),
                    "xd": nest(sh, lambda s: [c.real(f"dlat_{s}", -90.0, 90.0), c.real(f"dlon_{s}", -180.0, 180.0),
                                              c.real(f"dr_{s}", 900.0, 1e5)]),
                    "shape": sh, "src": src, "dst": dst, "pl": p[0], "po": p[1]}
        code = """
xx, vv, dd = (np.array(a).reshape(tuple(shape) + (3,)) for a in (x, v, xd))
if dst != 2:
    xo = convert(xx, src, dst)
    opaque(xo[..., 0], xo[..., 1])
o = rotate_vectors_from_dipole(vv, pl, po, dd, xx, src, dst)
result = [("shape", list(o.shape), list(shape) + [3])]
for ix in np.ndindex(*shape):
    w = o[ix] if dst == 2 else tocart(o[ix], xo[ix][0], xo[ix][1])
    result.append(("same vector", list(w), fromdipole(tocart(vv[ix], dd[ix][0], dd[ix][1]), pl, po)))
    result.append(("length", sq(o[ix]), sq(vv[ix])))
if dst == 2:
    a = vrot_from_dipole(vv, pl, po, dd[..., 0], dd[..., 1])
else:
    a = vrot_from_dipole(vv, pl, po, dd[..., 0], dd[..., 1], xo[..., 0], xo[..., 1], dst)
result.append(("vrot_from_dipole", a, o))
"""
        program(k, f"vectors {NAME[src]} {NAME[dst]} {sh}", code, inputs, setup=DEF)


def field(k, src, dst, internal):
    degs = [(1, -1)] if k.quick else [(1, -1), (2, -1)]
    if src == SPH and dst != GEOD:
        degs = [(1, -1), (2, -1), (3, -1), (2, 1)]
    for deg, limit in degs:
        field1(k, src, dst, internal, deg, limit)


def field1(k, src, dst, internal, deg, limit):
    nt = (deg + 1) * (deg + 2) // 2
    for sh in [(), (2,)]:
        for sc in (None, "scalar", "vector"):
            for mode in (1, 2, 3, "model"):
                if deg > 1 and (sh or sc == "scalar"):
                    continue
                if sh and (mode != 2 and mode != "model" or sc == "scalar"):
                    continue
                def inputs(c):
                    p = pole(c)
                    s = c.real("s0", -5.0, 5.0) if sc == "scalar" else [c.real(f"s{i}", -5.0, 5.0) for i in range(3)]
                    return {"x": nest(sh, lambda s: pos(c, src, s)), "shape": sh, "src": src, "dst": dst, "pl": p[0],
                            "po": p[1], "cf": [[c.real(f"g{i}_{j}", -10.0, 10.0) for j in range(2)] for i in range(nt)],
                            "internal": internal, "mode": mode, "sc": s if sc else None, "sp": c.real("sp", -5.0, 5.0),
                            "deg": deg, "limit": limit}
                code = """
xx = np.array(x).reshape(tuple(shape) + (3,))
cf = np.array(cf)
xd = convert_to_dipole(xx, pl, po, src)
opaque(xd[..., 0], xd[..., 1])
if dst != 2:
    xo = convert(xx, src, dst)
    opaque(xo[..., 0], xo[..., 1])
V, g = sheval(xd, cf, 1, 1, mode=3, is_internal=internal, degree=limit)
kw = {} if limit < 0 or mode == 'model' else {'degree': limit}
mk = {} if limit < 0 else {'max_degree': limit}
one = [1.0, 1.0, 1.0]
if sc is not None:
    kw.update(scale_gradient=sc, scale_potential=sp)
    one = list(sc) if isinstance(sc, list) else [sc, sc, sc]
if mode == "model":
    nm = [(n, m) for n in range(deg + 1) for m in range(-n, n + 1)]
    co = SparseSHCoefficientsConstant(np.array(nm), np.array([cf[n * (n + 1) // 2 + abs(m), int(m < 0)] for n, m in nm]),
                                      is_internal=internal)
    model = DipoleSphericalHarmomicGeomagneticModel(co, (pl, po))
    V = None
    one = [-s for s in one]
    kw = {} if sc is None else {"scale": sc if not isinstance(sc, list) else np.array(sc)}
    o = model.eval(0.0, xx, src, dst, **kw, **mk)
    out = (o,)
else:
    out = sheval_dipole(xx, cf, pl, po, src, dst, mode=mode, is_internal=internal, **kw)
    out = out if mode == 3 else (out,)
result = []
if mode in (1, 3):
    result.append(("potential", out[0], V * sp if sc is not None else V))
if mode != 1:
    o = out[-1]
    result.append(("shape", list(o.shape), list(shape) + [3]))
    for ix in np.ndindex(*shape):
        w = fromdipole(tocart(g[ix], xd[ix][0], xd[ix][1]), pl, po)
        if dst != 2:
            w = tolocal(w, xo[ix][0], xo[ix][1])
        result.append(("gradient", o[ix], [w[i] * one[i] for i in range(3)]))
"""
                program(k, f"{'model' if mode == 'model' else 'sheval_dipole'}[{NAME[src]} to {NAME[dst]},"
                           f"{'int' if internal else 'ext'},mode {mode},scale {sc},{sh},degree {deg} {limit}]", code, inputs, setup=DEF,
                        max_paths=400)
