"""The vectorised compiled functions: per-element and shared arguments, output shapes.

An entry describes how to build a call for a batch of elements; the values are symbolic.
"""
import numpy as np

from . import core
from .core import fcmp
from .harness import Arr, Call, INT, DOUBLE

GEOD, SPH, CART = 0, 1, 2
POT, GRD, BOTH = 1, 2, 3
C0, C1, C1D1 = 0, 1, 0x11

LAT, LON = (-90.0, 90.0), (-200.0, 400.0)
RNG_GEOD = (LAT, LON, (-50.0, 9000.0))
RNG_SPH = (LAT, LON, (6300.0, 20000.0))
RNG_CART = ((1000.0, 9000.0), (-9000.0, 9000.0), (3000.0, 9000.0))
XR = {GEOD: RNG_GEOD, SPH: RNG_SPH, CART: RNG_CART}


class P:
    """a per-element parameter: trailing dimensions, ranges of the components"""

    def __init__(self, name, tail=(), ranges=((-10.0, 10.0),)):
        self.name, self.tail, self.ranges = name, tail, ranges

    def rng(self, t):
        return self.ranges[t[-1] if t and len(self.ranges) > 1 else 0]


class Entry:
    def __init__(self, name, mod, fn, params, build, outs, shared=None, nested=True, full=False, maxdim=None,
                 heavy=False, sets=None, minlead=0):
        self.name, self.mod, self.fn, self.params = name, mod, fn, params
        self._build, self._outs, self._shared = build, outs, shared
        self.nested = nested      # a parameter may have fewer leading dimensions than the result
        self.full = full          # ... but then only none at all
        self.heavy = heavy
        self.minlead = minlead

    def shared(self, c):
        return self._shared(c) if self._shared else {}

    def outs(self, sh):
        return self._outs(sh) if callable(self._outs) else self._outs

    def values(self, c, name):
        """symbolic values of a parameter: (index, tail index) -> symbol"""
        p = next(p for p in self.params if p.name == name)

        def get(ix, t):
            lo, hi = p.rng(t)
            return c.real(f"{name}_{'_'.join(map(str, ix))}{'.' + '_'.join(map(str, t)) if t else ''}", lo, hi)
        return get

    def batch(self, c, shape, sh, lead=None, layouts=None, vals=None):
        """call for a batch; lead: parameter -> number of leading dimensions; layouts: parameter -> layout"""
        args = {}
        for p in self.params:
            n = len(shape) if lead is None else lead.get(p.name, len(shape))
            get = (vals or {}).get(p.name) or self.values(c, p.name)
            dims = shape[:n] + p.tail
            lo = (layouts or {}).get(p.name, "C")
            args[p.name] = Arr(dims, lambda ix, n=n, get=get: get(ix[:n], ix[n:]), DOUBLE, lo)
        return self._build(args, sh)

    def single(self, c, ix, sh, lead=None, vals=None, pad=()):
        """call for one element; pad: leading dimensions of size one"""
        args = {}
        for p in self.params:
            n = len(ix) if lead is None else lead.get(p.name, len(ix))
            get = (vals or {}).get(p.name) or self.values(c, p.name)
            pd = pad if pad else (1,) * self.minlead
            args[p.name] = Arr(pd + p.tail, lambda t, n=n, get=get, k=len(pd): get(ix[:n], t[k:]))
        return self._build(args, sh)


def coef(c, dims, name="g"):
    return Arr(dims, lambda ix: c.real(name + "_".join(map(str, ix)), -10.0, 10.0))


def nodes(c, n, name="v"):
    v = [c.real(f"{name}{i}", -20.0, 20.0) for i in range(n)]
    for i in range(n - 1):
        c.assume(fcmp("olt", v[i], v[i + 1]))
    return v


def _x(ct):
    return P("x", (3,), XR[ct])


def _sheval(ct_in, ct_out, mode, internal=True, degree=2, percoef=False):
    nt = (degree + 1) * (degree + 2) // 2

    def build(a, s):
        cf = a.get("coef") or s["coef"]
        return Call("pymm", "sheval", a["x"], cf, ct_in, ct_out, mode, internal,
                    scale_potential=1.5, scale_gradient=(1.0, -2.0, 0.5))
    return Entry(f"sheval[{ct_in}->{ct_out},mode{mode},{'int' if internal else 'ext'}{',coef' if percoef else ''}]",
                 "pymm", "sheval",
                 [_x(ct_in)] + ([P("coef", (nt, 2))] if percoef else []), build,
                 {POT: [()], GRD: [(3,)], BOTH: [(), (3,)]}[mode],
                 None if percoef else (lambda c: {"coef": coef(c, (nt, 2))}), heavy=True)


def nm_array(nm):
    return Arr((len(nm), 2), lambda ix: nm[ix[0]][ix[1]], INT)


def _shevaltemp(ct_in, ct_out, mode, orders=(2,), nt=3, internal=True, sets=None):
    nms = sets or ([(1, 0), (1, -1), (2, 1)], [(0, 0), (2, -2)])

    def shared(c):
        lst = []
        for k, o in enumerate(orders):
            nm = nms[k]
            v = nodes(c, nt, f"v{k}_")
            lst.append((Arr((nt,), lambda ix: v[ix[0]]), coef(c, (len(nm), nt), f"g{k}_"), nm_array(nm), o))
        return {"sets": lst}

    def build(a, s):
        return Call("pymm", "shevaltemp", a["t"], a["x"], s["sets"], ct_in, ct_out, mode, internal,
                    scale_potential=1.5, scale_gradient=(1.0, -2.0, 0.5))
    return Entry(f"shevaltemp[{ct_in}->{ct_out},mode{mode},orders{orders}]", "pymm", "shevaltemp",
                 [P("t", (), ((-25.0, 25.0),)), _x(ct_in)], build,
                 {POT: [()], GRD: [(3,)], BOTH: [(), (3,)]}[mode], shared, heavy=True)


def _sheval2dfs(ct_in, ct_out, mode, internal=True):
    nm = [(1, 0), (1, -1), (2, 1)]

    def shared(c):
        # min. terms and scales as used by the MIO model
        return {"set": (coef(c, (3, 2, 3, 2)), nm_array(nm), 0, -1, 0.5, 0.25)}

    def build(a, s):
        return Call("pymm", "sheval2dfs", a["t1"], a["t2"], a["x"], s["set"], ct_in, ct_out, mode, internal,
                    scale_potential=1.5, scale_gradient=(1.0, -2.0, 0.5))
    return Entry(f"sheval2dfs[{ct_in}->{ct_out},mode{mode}]", "pymm", "sheval2dfs",
                 [P("t1"), P("t2"), _x(ct_in)], build,
                 {POT: [()], GRD: [(3,)], BOTH: [(), (3,)]}[mode], shared, heavy=True)


def entries():
    E = []
    A = E.append
    for side in (0, 1):
        A(Entry(f"bisect[{side}]", "pymm", "bisect", [P("x", (), ((-25.0, 25.0),))],
                lambda a, s, side=side: Call("pymm", "bisect", s["v"], a["x"], side), [()],
                lambda c: {"v": (lambda v: Arr((len(v),), lambda ix: v[ix[0]]))(nodes(c, 3))}))
    for kind in (C0, C1, C1D1):
        for ext in (False, True):
            def shared(c):
                v = nodes(c, 3)
                return {"v": Arr((3,), lambda ix: v[ix[0]]), "c": coef(c, (2, 3))}
            A(Entry(f"interp[{kind},{ext}]", "pymm", "interp", [P("x", (), ((-25.0, 25.0),))],
                    lambda a, s, kind=kind, ext=ext: Call("pymm", "interp", a["x"], s["v"], s["c"], kind, ext),
                    [(2,)], shared))
    for ci in (GEOD, SPH, CART):
        for co in (GEOD, SPH, CART):
            A(Entry(f"convert[{ci}->{co}]", "pymm", "convert", [_x(ci)],
                    lambda a, s, ci=ci, co=co: Call("pymm", "convert", a["x"], ci, co), [(3,)]))
    for m1, m2 in ((0, 0), (-1, -1), (1, -2)):
        A(Entry(f"fourier2d[{m1},{m2}]", "pymm", "fourier2d", [P("t1"), P("t2")],
                lambda a, s, m1=m1, m2=m2: Call("pymm", "fourier2d", a["t1"], a["t2"], s["c"], m1, m2, 0.5, 0.25),
                [(2,)], lambda c: {"c": coef(c, (2, 2, 3, 2))}, nested=False))
    A(Entry("legendre", "pymm", "legendre", [P("lat", (), (LAT,))],
            lambda a, s: Call("pymm", "legendre", a["lat"], 3), [(10,), (10,)]))
    for f in (0, 1):
        A(Entry(f"loncossin[{f}]", "pymm", "loncossin", [P("lon", (), (LON,))],
                lambda a, s, f=f: Call("pymm", "loncossin", a["lon"], 4, f), [(5, 2)]))
    for i in (False, True):
        A(Entry(f"relradpow[{'int' if i else 'ext'}]", "pymm", "relradpow", [P("radius", (), ((1.0, 9000.0),))],
                lambda a, s, i=i: Call("pymm", "relradpow", a["radius"], 4, 6371.2, i), [(5,)]))
    for ci, co, mode, internal in ((SPH, SPH, BOTH, True), (SPH, CART, GRD, False), (GEOD, GEOD, GRD, True),
                                   (CART, SPH, POT, True), (CART, GEOD, GRD, True), (GEOD, SPH, BOTH, False),
                                   (SPH, GEOD, BOTH, True), (SPH, SPH, POT, False)):
        A(_sheval(ci, co, mode, internal))
    A(_sheval(SPH, SPH, BOTH, True, percoef=True))
    A(_sheval(GEOD, GEOD, POT, False, degree=1, percoef=True))
    A(_sheval(CART, CART, GRD, True, degree=1, percoef=True))
    A(_shevaltemp(SPH, SPH, BOTH, (2,)))
    A(_shevaltemp(SPH, SPH, GRD, (1, 2)))
    A(_shevaltemp(GEOD, CART, POT, (2, 1)))
    A(_shevaltemp(SPH, SPH, GRD, (1, 1), sets=([(1, 0), (1, -1)], [(1, 0), (2, -2)])))
    A(_sheval2dfs(SPH, SPH, BOTH))
    A(_sheval2dfs(GEOD, SPH, GRD, False))
    A(_sheval2dfs(CART, GEOD, POT))
    for i in (True, False):
        A(Entry(f"sphargrd[{'int' if i else 'ext'}]", "pymm", "sphargrd",
                [P("lat", (), (LAT,)), P("coef", (6, 2)), P("lp", (6,)), P("ldp", (6,)), P("rrp", (3,)), P("lcs", (3, 2))],
                lambda a, s, i=i: Call("pymm", "sphargrd", a["lat"], a["coef"], a["lp"], a["ldp"], a["rrp"],
                                       a["lcs"], i), [(3,)], heavy=True))
    A(Entry("spharpot", "pymm", "spharpot",
            [P("radius", (), ((1.0, 9000.0),)), P("coef", (6, 2)), P("lp", (6,)), P("rrp", (3,)), P("lcs", (3, 2))],
            lambda a, s: Call("pymm", "spharpot", a["radius"], a["coef"], a["lp"], a["rrp"], a["lcs"]), [()],
            heavy=True))
    for n in ("vrot_sph2cart", "vrot_cart2sph"):
        A(Entry(n, "pymm", n, [P("arr", (3,)), P("lat", (), (LAT,)), P("lon", (), (LON,))],
                lambda a, s, n=n: Call("pymm", n, a["arr"], a["lat"], a["lon"]), [(3,)], nested=False))
    A(Entry("vrot_sph2geod", "pymm", "vrot_sph2geod", [P("arr", (3,)), P("dlat", (), (LAT,))],
            lambda a, s: Call("pymm", "vrot_sph2geod", a["arr"], a["dlat"]), [(3,)], nested=False))
    T_ = P("time", (), ((-10000.0, 20000.0),))
    A(Entry("mjd2000_to_decimal_year", "pytimeconv", "mjd2000_to_decimal_year", [T_],
            lambda a, s: Call("pytimeconv", "mjd2000_to_decimal_year", a["time"]), [()]))
    A(Entry("mjd2000_to_year_fraction", "pytimeconv", "mjd2000_to_year_fraction", [T_],
            lambda a, s: Call("pytimeconv", "mjd2000_to_year_fraction", a["time"]), [()]))
    A(Entry("decimal_year_to_mjd2000", "pytimeconv", "decimal_year_to_mjd2000",
            [P("time", (), ((1900.0, 2100.0),))],
            lambda a, s: Call("pytimeconv", "decimal_year_to_mjd2000", a["time"]), [()]))
    sp = [P("mjd", (), ((-10000.0, 20000.0),)), P("lat", (), (LAT,)), P("lon", (), (LON,)),
          P("rad", (), ((0.0, 9000.0),)), P("dtt", (), ((-100.0, 100.0),))]
    A(Entry("sunpos", "pysunpos", "sunpos", sp,
            lambda a, s: Call("pysunpos", "sunpos", *(a[p.name] for p in sp)), [(5,)], full=True))
    sp2 = sp + [P("pres", (), ((0.0, 2.0),)), P("temp", (), ((-20.0, 30.0),))]
    A(Entry("sunpos_original", "pysunpos", "sunpos_original", sp2,
            lambda a, s: Call("pysunpos", "sunpos_original", *(a[p.name] for p in sp2)), [(5,)], full=True))
    return E
