"""Independent definitions of the spherical-harmonic functions (oracles)"""
import decimal
import math
from fractions import Fraction

from sym.poly import D, DEG, const, add, scale, ONE

REF = D(repr(6371.2))


def idx(n, m):
    return n * (n + 1) // 2 + m


def legendre_poly(n):
    """coefficients of P_n(x) by power (exact)"""
    a, b = [Fraction(1)], [Fraction(0), Fraction(1)]
    if n == 0:
        return a
    for k in range(1, n):
        c = [Fraction(0)] + [Fraction(2 * k + 1, k + 1) * x for x in b]
        for i, x in enumerate(a):
            c[i] -= Fraction(k, k + 1) * x
        a, b = b, c
    return b


def schmidt(n, m):
    """P_n^m(sin phi) = f * cos(phi)^m * d^m P_n/dx^m(sin phi): (f, coefficients by power of sin)"""
    p = legendre_poly(n)
    for _ in range(m):
        p = [i * x for i, x in enumerate(p)][1:]
    f2 = Fraction((1 if m == 0 else 2) * math.factorial(n - m), math.factorial(n + m))
    f = (D(f2.numerator) / D(f2.denominator)).sqrt()
    return f, p


def schmidt_poly(R, a, n, m):
    """the same as a polynomial of the ring; a: angle of the latitude"""
    f, p = schmidt(n, m)
    r, x = {}, const(1)
    for c in p:
        r = add(r, x, D(c.numerator) / D(c.denominator)) if c else r
        x = R.mul(x, a.sin)
    return scale(R.mul(r, R.pow(a.cos, m)), f)


def dschmidt_poly(R, a, n, m):
    """derivative with respect to the latitude"""
    f, p = schmidt(n, m)
    def ev(p):
        r, x = {}, const(1)
        for c in p:
            r = add(r, x, D(c.numerator) / D(c.denominator)) if c else r
            x = R.mul(x, a.sin)
        return r
    d = [i * x for i, x in enumerate(p)][1:]
    r = R.mul(ev(d), R.pow(a.cos, m + 1))
    if m:
        r = add(r, R.mul(R.mul(ev(p), a.sin), R.pow(a.cos, m - 1)), -m)
    return scale(r, f)


# ---- numeric versions (replay)

def nschmidt(nmax, lat):
    """P, dP/dlat by degree and order at a latitude in degrees, 50 digits"""
    import mpmath
    with mpmath.workdps(40):
        x = mpmath.mpf(lat) * mpmath.pi / 180
        s, c = mpmath.sin(x), mpmath.cos(x)
        if abs(lat) == 90:
            c = mpmath.mpf(0)
        P, dP, PC = {}, {}, {}
        for n in range(nmax + 1):
            for m in range(n + 1):
                f, p = schmidt(n, m)
                f = mpmath.mpf(str(f))
                ev = lambda q: mpmath.fsum([mpmath.mpf(a.numerator) / a.denominator * s ** i for i, a in enumerate(q)])
                d = [i * a for i, a in enumerate(p)][1:]
                P[n, m] = f * ev(p) * c ** m
                dP[n, m] = f * (ev(d) * c ** (m + 1) - (m * ev(p) * s * c ** (m - 1) if m else 0))
                PC[n, m] = f * ev(p) * c ** (m - 1) if m else mpmath.mpf(0)
        return P, dP, PC


def nfield(coef, degree, lat, lon, rad, internal):
    """(potential, (north, east, up)) of the series in double precision inputs, geocentric spherical"""
    import mpmath
    P, dP, PC = nschmidt(degree, lat)
    with mpmath.workdps(40):
        a = mpmath.mpf(repr(6371.2)) if False else mpmath.mpf(6371.2)
        r = mpmath.mpf(rad)
        lo = mpmath.mpf(lon) * mpmath.pi / 180
        V = dn = de = du = mpmath.mpf(0)
        for n in range(degree + 1):
            q = (a / r) ** (n + 2) if internal else (r / a) ** (n - 1)
            k = -(n + 1) if internal else n
            for m in range(n + 1):
                g, h = (mpmath.mpf(float(x)) for x in coef[idx(n, m)])
                if m == 0:
                    h = 0
                cs, sn = mpmath.cos(m * lo), mpmath.sin(m * lo)
                t = g * cs + h * sn
                V += q * r * t * P[n, m]
                dn += q * t * dP[n, m]
                de += q * m * (h * cs - g * sn) * PC[n, m]
                du += q * k * t * P[n, m]
        return float(V), (float(dn), float(de), float(du))
