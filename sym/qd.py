"""Quasi-dipole library: its C wrapper (IR) and Fortran drivers (GIMPLE) are executed, the underlying apex routines
(coefficient loading, apex coordinates, geodetic conversion, dipole, sub-solar point, local time) are uninterpreted
functions of their arguments; real counterparts for the replay."""
import datetime

from . import build, core, gimple, ir
from .core import T, UNDEF, Unsupported
from .ir import load, store
from .poly import eqp

# the same functions of the real library
REAL = '''
import ctypes as _ct
_private = []
def _lib():
    # a private instance: the state of the tested one is not touched
    import eoxmagmod._pyqd, shutil, tempfile, os
    if not _private:
        for ln in open("/proc/self/maps"):
            if "libqdipole" in ln:
                with tempfile.TemporaryDirectory() as d:
                    _private.append(_ct.CDLL(shutil.copy(ln.split()[-1], os.path.join(d, "libreference.so"))))
                break
    return _private[0]
def _f(x):
    return _ct.byref(_ct.c_float(np.float32(float(x))))
def _i(x):
    return _ct.byref(_ct.c_int(int(x)))
def _dated(t):
    import datetime
    day = int(np.floor(t))
    d = datetime.date(2000, 1, 1) + datetime.timedelta(day)
    s = (float(t) - day) * 86400.0
    return d.year, (d - datetime.date(d.year, 1, 1)).days + 1, int(s // 3600), int(s % 3600 // 60), s % 60
def ref_subsol(t):
    lat, lon = _ct.c_float(), _ct.c_float()
    y, n, h, m, s = _dated(t)
    _lib().subsol_(_i(y), _i(n), _i(h), _i(m), _f(s), _ct.byref(lat), _ct.byref(lon))
    return [lat.value, lon.value]
def ref_mlt(lon, t, epoch=None):
    L = _lib()
    c, e, v, r = _ct.c_float(), _ct.c_float(), _ct.c_float(), _ct.c_float()
    L.cofrm_(_f(float(t if epoch is None else epoch) / 365.25 + 2000.0))
    L.dypol_(_ct.byref(c), _ct.byref(e), _ct.byref(v))
    a, b = ref_subsol(t)
    L.magloctm_(_f(lon), _f(a), _f(b), _ct.byref(c), _ct.byref(e), _ct.byref(r))
    return r.value
def ref_qd(lat, lon, rad, year, file, base, epoch=None):
    L = _lib()
    f = _ct.create_string_buffer(file.encode(), 1024)
    L.loadapxsh_(f, _f(year if epoch is None else epoch), _ct.c_size_t(1023))
    o = [_ct.c_float() for _ in range(2)]
    r = [(_ct.c_float * n)() for n in (1, 1, 2, 2, 1)]
    L.convrt_(_i(4), _ct.byref(o[0]), _ct.byref(o[1]), _f(lat), _f(rad))
    L.apxg2q_(_ct.byref(o[0]), _f(lon), _ct.byref(o[1]), _i(1 if base else 0), *(_ct.byref(x) for x in r))
    x = [y for z in r for y in z]
    return x if base else x[:2]
def ref_geodetic(lat, rad):
    o = [_ct.c_float() for _ in range(2)]
    _lib().convrt_(_i(4), _ct.byref(o[0]), _ct.byref(o[1]), _f(lat), _f(rad))
    return [x.value for x in o]
def oneof(value, candidates):
    return min(candidates, key=lambda c: abs(float(value) - float(c)))
'''


class State:
    def __init__(self):
        self.uf = []
        self.cofrm = self.load = None


def uf(name, args, n):
    """outputs of an uninterpreted function: equal for equal arguments"""
    c = core.CTX
    tab = c.__dict__.setdefault("apex_uf", [])
    R = c.low.ring if c.mode == "poly" else None

    def norm(a):
        if isinstance(a, (str, int)) or R is None:
            return a
        return R(a) if isinstance(a, T) else {(): core and __import__("decimal").Decimal(a)} if a else {}
    key = [norm(a) for a in args]
    for m, k, out in tab:
        if m == name and len(k) == len(key) and all(
                (eqp(x, y) if isinstance(x, dict) and isinstance(y, dict) else x == y) for x, y in zip(k, key)):
            return out
    out = [c.real(f"{name}{len(tab)}.{i}", -400.0, 400.0) for i in range(n)]
    tab.append((name, key, out))
    return out


def state(W):
    s = W.__dict__.get("apex")
    if s is None:
        s = W.apex = State()
    return s


def rd(p, size=4, kind="f"):
    v = load(p, size, kind, "Fortran argument")
    if v is UNDEF:
        ir.bad("uninitialised", "an unset value is passed to a Fortran routine")
    return v


def wr(p, v, size=4, kind="f"):
    store(p, size, kind, v, "Fortran result")


def _int(p):
    return core.CTX.concretize(rd(p, 4, "i"))


def days(y, m, d):
    return (datetime.date(y, m, d) - datetime.date(2000, 1, 1)).days


def dbl(W, d, i):
    """rounding to decimals (1e-4 s)"""
    return rd(d, 8)


def subsol(W, y, n, h, m, s, lat, lon):
    day = days(_int(y), 1, 1) + _int(n) - 1
    t = core.fadd(core.fdiv(core.fadd(core.fadd(core.fmul(ir.i2f(rd(h, 4, "i")), 3600.0),
                                                core.fmul(ir.i2f(rd(m, 4, "i")), 60.0)), rd(s)), 86400.0), float(day))
    a = ref_subsol(t)
    wr(lat, a[0])
    wr(lon, a[1])


def ref_subsol(t):
    return uf("subsol", [t], 2)


def cofrm(W, epoch):
    state(W).cofrm = rd(epoch)


def dypol(W, colat, elon, vp):
    st = state(W)
    if st.cofrm is None:
        ir.bad("order", "dipole axis requested before the main field was loaded")
    for p, v in zip((colat, elon, vp), uf("dypol", [st.cofrm], 3)):
        wr(p, v)


def magloctm(W, lon, lat_s, lon_s, colat, elon, mlt):
    wr(mlt, uf("magloctm", [rd(lon), rd(lat_s), rd(lon_s), rd(colat), rd(elon)], 1)[0])


def epoch_of(t):
    return core.fadd(core.fdiv(t, 365.25), 2000.0)


def ref_mlt(lon, t, epoch=None):
    c, e, _ = uf("dypol", [epoch_of(t if epoch is None else epoch)], 3)
    a, b = ref_subsol(t)
    return uf("magloctm", [lon, a, b, c, e], 1)[0]


def loadapxsh(W, file, epoch, n=None):
    from .capi import cstring
    state(W).load = cstring(file), rd(epoch)


def convrt(W, i, gdlat, alt, x1, x2):
    n = _int(i)
    if n not in (3, 4):
        raise Unsupported("geodetic to geocentric conversion of the quasi-dipole library")
    a, b = uf(f"convrt{n}", [rd(x1), rd(x2)], 2)
    wr(gdlat, a)
    wr(alt, b)


def apxg2q(W, glat, glon, alt, flag, qlat, qlon, f1, f2, f):
    st = state(W)
    if st.load is None:
        ir.bad("order", "apex coordinates requested before the coefficients were loaded")
    o = uf("apxg2q", [st.load[0], st.load[1], rd(glat), rd(glon), rd(alt)], 7)
    if _int(flag) == 0:
        o = o[:2] + [-9999.0] * 5
    for p, v in zip((qlat, qlon, f1, (f1[0], f1[1] + 4), f2, (f2[0], f2[1] + 4), f), o):
        wr(p, v)


def ref_qd(lat, lon, rad, year, file, base, epoch=None):
    a, b = uf("convrt4", [lat, rad], 2)
    o = uf("apxg2q", [file, year if epoch is None else epoch, a, lon, b], 7)
    return o if base else o[:2]


FULL = False        # execute the apex expansion, sub-solar point and local time too


def install(W):
    m = build.module("cqdipole")
    for n in m.funcs:
        W.hooks[n] = lambda W, *a, n=n: m.fn(n)(W, *a)
    for n in ("eval_mlt_", "eval_subsol_", "eval_qdlatlon_", "eval_qdlatlonvb_"):
        W.hooks[n] = lambda W, *a, n=n: gimple.program(gimple.ALL).run(W, n, a)
    for f in (dbl, convrt) if FULL else (dbl, subsol, cofrm, dypol, magloctm, loadapxsh, convrt, apxg2q):
        W.hooks[f.__name__ + "_"] = f


def helpers():
    from .pyload import unbox

    def scalars(f):
        return lambda *a, **k: f(*(unbox(x) for x in a), **{n: unbox(x) for n, x in k.items()})

    def oneof(value, candidates):
        v = unbox(value)
        return next((c for c in candidates if c is v), candidates[0])
    def ref_geodetic(lat, rad):
        return uf("convrt4", [lat, rad], 2)

    return {"ref_geodetic": scalars(ref_geodetic), "ref_subsol": scalars(ref_subsol), "ref_mlt": scalars(ref_mlt), "ref_qd": scalars(ref_qd), "oneof": oneof}
