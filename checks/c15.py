"""C15 magnetic universal time"""
from sym.program import program
from checks.c09 import nest
from checks.c13 import prepare
from checks.c14 import DEF as DEF14

DEF = DEF14 + """
from eoxmagmod import mjd2000_to_magnetic_universal_time as mut, sunpos
def judge(result, label, m, pl, po, ls, lo):
    y = todipole(todir(ls, lo, 1.0), pl, po)
    rho = np.sqrt(y[0] * y[0] + y[1] * y[1])
    L = (180.0 - 15.0 * m) * d
    result.append((label + " x", rho * np.cos(L), y[0], 1.0))
    result.append((label + " y", rho * np.sin(L), y[1], 1.0))
    result.append((label + " range", bool(m >= -1e-9) and bool(m <= 24 + 1e-9), True))
"""
OPTS = dict(setup=DEF, rtol=1e-8)
SHAPES = [(), (1,), (3,), (2, 2)]


def run(k):
    k.bound("any pole and sub-solar point (exact poles of both included), user supplied values as scalars and arrays of up to "
            "2x2 elements; built-in Sun position for 1900..2199, scalars and two times")
    k.assume("exact real arithmetic, results up to 1e-9; angles closer than 4e-9 rad are the same angle")
    jobs = []
    for sh in SHAPES:
        jobs.append((f"{sh}", lambda k, sh=sh: given(k, sh)))
    jobs += [("sun", sun), ("special", special)]
    k.parallel(jobs)


def arr(c, name, sh, lo, hi):
    return nest(sh, lambda s: c.real(f"{name}_{s}", lo, hi)) if sh else c.real(name, lo, hi)


def given(k, sh):
    # which of the arguments are arrays
    cases = [("tlo", ())] if not sh else [("tlo", ()), ("lo", ()), ("t", ()), ("tlopq", ()), ("l", ()), ("pq", ())]
    for arrays, _ in cases:
        def inputs(c):
            f = lambda n, lo, hi: arr(c, n, sh if n in arrays else (), lo, hi)
            return {"t": f("t", -1e4, 3e4), "ls": f("l", -90.0, 90.0), "lo": f("o", -360.0, 360.0),
                    "pl": f("p", -90.0, 90.0), "po": f("q", -360.0, 360.0), "shape": sh, "arrays": arrays}
        program(k, f"sub-solar point given {sh} {arrays}", """
a = {n: np.array(x) if isinstance(x, list) else x for n, x in dict(t=t, l=ls, o=lo, p=pl, q=po).items()}
el = lambda n, ix: a[n][ix] if n in arrays and shape else a[n]
m = mut(a["t"], a["p"], a["q"], a["l"], a["o"])
k = mut(a["t"], a["p"], a["q"], lat_sol=a["l"], lon_sol=a["o"])
result = [("keywords", k, m)]
own = set(arrays) - {"t"}
sh = list(shape) if own else []
result.append(("shape", list(np.shape(m)), sh))
if own:
    for ix in np.ndindex(*shape):
        judge(result, "mut", m[ix], *(el(n, ix) for n in "pqlo"))
else:
    judge(result, "mut", m, *(a[n] for n in "pqlo"))
""", inputs, max_paths=500, **OPTS)


def special(k):
    for p in [(90.0, 0.0), (-90.0, 0.0), (0.0, 0.0), (0.0, 180.0), (80.0, -72.0)]:
        program(k, f"pole {p}", """
result = []
judge(result, "mut", mut(0.0, pl, po, ls, lo), pl, po, ls, lo)
""", lambda c: {"pl": p[0], "po": p[1], "ls": c.real("l", -90.0, 90.0), "lo": c.real("o", -360.0, 360.0)}, max_paths=500, **OPTS)
    for p in [(90.0, 0.0), (-90.0, 0.0), (0.0, 0.0), (0.0, 180.0), (23.0, -72.0)]:
        program(k, f"Sun at {p}", """
result = []
judge(result, "mut", mut(0.0, pl, po, ls, lo), pl, po, ls, lo)
""", lambda c: {"ls": p[0], "lo": p[1], "pl": c.real("l", -90.0, 90.0), "po": c.real("o", -360.0, 360.0)}, max_paths=500, **OPTS)


def sun(k):
    for sh in [(), (2,)]:
        for given in ("", "l", "o"):
            def inputs(c):
                prepare(c)
                return {"t": arr(c, "t", sh, -36525.0, 73050.0), "pl": c.real("p", -90.0, 90.0),
                        "po": c.real("q", -360.0, 360.0), "ls": arr(c, "l", sh, -90.0, 90.0),
                        "lo": arr(c, "o", sh, -360.0, 360.0), "given": given, "shape": sh}
            program(k, f"built-in Sun {sh} {given}", """
t, ls, lo = (np.array(x) if shape else x for x in (t, ls, lo))
kw = {"l": {"lat_sol": ls}, "o": {"lon_sol": lo}, "": {}}[given]
m = mut(t, pl, po, **kw)
result = [("shape", list(np.shape(m)), list(shape))]
for ix in np.ndindex(*shape):
    de, _, ha = sunpos(t[ix] if shape else t, 0.0, 0.0, 0.0)[:3]
    result.append(("mut", m[ix] if shape else m, mut(0.0, pl, po, de, -ha), 24.0))
    result.append(("range", bool(result[-1][1] >= -1e-9) and bool(result[-1][1] <= 24 + 1e-9), True))
""", inputs, max_paths=500, **OPTS)
