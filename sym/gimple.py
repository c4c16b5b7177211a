"""Fortran subroutines: gfortran's GIMPLE (control-flow graph dump) executed over concrete and symbolic values.

Scalars are memory objects of the World (arguments are passed by reference); SSA names are Python values.
"""
import gzip
import os
import re
import struct
import subprocess

import z3

from . import build, core, ir
from .core import T, SI, BT, UNDEF, Unsupported
from .ir import MemObj, load, store, NULL

FILES = ("eval_mlt", "eval_qdlatlon", "eval_subsol")
ALL = FILES + ("apexsh", "apex")
DESC = re.compile(r"(\w+)\.(data|offset|span|dtype[\w.]*|dim\[\d+\]\.(?:stride|lbound|ubound))$")
MEM = re.compile(r"MEM <(.*?)> \[\(.*?\*\)(?:restrict )?([\w.]+)\]\[([^\]]+)\]$")
TYPE = re.compile(r"(static )?(real|integer|logical|character)\(kind=(\d+)\)(?:\[([^\]]*)\])? ?(.*)$")
_progs = {}


class Fn:
    def __init__(self, name):
        self.name, self.params, self.vars, self.blocks, self.labels = name, [], {}, {}, {}
        self.unions, self.alias = {}, {}


class Type:
    """kind f or i, size, array (lower bound, length or None) or None, pointer"""

    def __init__(self, k, size, arr=None, ptr=False):
        self.k, self.size, self.arr, self.ptr = k, size, arr, ptr


def _type(s):
    m = TYPE.match(s.strip())
    if not m:
        return None, None
    st, k, size, arr, rest = m.groups()
    ptr = False
    rest = rest.strip()
    while rest[:1] in "*&" and rest:
        ptr = True
        rest = rest[1:].strip()
    for w in ("restrict ", "const "):
        if rest.startswith(w):
            rest = rest[len(w):]
    a = None
    if arr is not None:
        a = _bounds(arr)
    m = re.match(r"([\w.]+)\[([^\]]*)\]$", rest)
    if m:
        rest, a = m.group(1), _bounds(m.group(2))
    return Type("f" if k == "real" else "i", int(size), a, ptr), rest


def _bounds(s):
    if ":" in s:
        lo, hi = s.split(":")
        return int(lo), int(hi) - int(lo) + 1 if re.match(r"-?\d+$", hi) else None
    return 0, int(s)


class Program:
    def __init__(self, files=FILES):
        self.fns, self.gvars = {}, {}
        d = build.scratch()
        for f in files:
            src = os.path.join(build.REPO, "qdipole", f + ".f90")
            out = os.path.join(d, f"{f}_{os.getpid()}")
            os.makedirs(out, exist_ok=True)
            subprocess.run(["gfortran", "-c", "-O0", "-w", "-fdump-tree-cfg", "-fdump-tree-original", "-J", out, src,
                            "-o", os.path.join(out, "x.o")], check=True, cwd=out, stdout=subprocess.DEVNULL)
            text = {n.rsplit(".", 1)[1]: open(os.path.join(out, n)).read() for n in os.listdir(out) if n.endswith((".cfg", ".original"))}
            const = {m.group(3): (m.group(1), int(m.group(2)), m.group(4)) for m in re.finditer(
                r"static (?:const )?(\w+)\(kind=(\d+)\) (C\.\d+) = ([^;]+);", text["original"])}
            self._parse(text["cfg"], const)
            for n in os.listdir(out):
                if n.endswith(".mod"):
                    self._module(n[:-4], gzip.open(os.path.join(out, n), "rt").read(), os.path.join(out, "x.o"))

    def _module(self, name, text, obj):
        """variables of a module: type, initial value"""
        text = re.sub(r"\s+", " ", text)
        init = {}
        syms = subprocess.run(["nm", obj], capture_output=True, text=True, check=True).stdout.split("\n")
        syms = {x[2]: int(x[0], 16) for x in map(str.split, syms) if len(x) == 3 and x[1] in "dD"}
        if syms:
            subprocess.run(["objcopy", "-O", "binary", "--only-section=.data", obj, obj + ".data"], check=True)
            init = {k: open(obj + ".data", "rb").read()[v:] for k, v in syms.items()}
        for m in re.finditer(r"'(\w+)' '" + name + r"' '' \d+ ?\( ?\( ?VARIABLE ([^()]*)\) ?\( ?\) ?\( ?(\w+) (\d+) ", text):
            n, attr, k, size = m.groups()
            rest = text[m.end():]
            rest = rest[:rest.find("UNKNOWN-INTENT")]
            size = int(size)
            arr = None
            if "ALLOCATABLE" in attr or "POINTER" in attr:
                arr = (0, None)
            elif k == "CHARACTER":
                arr = 1, int(re.search(r"'(\d+)'", rest).group(1))
            elif "DIMENSION" in attr:
                b = [int(x) for x in re.findall(r"0 '(-?\d+)'", rest)]
                if "EXPLICIT" not in rest or len(b) % 2:
                    raise Unsupported("Fortran module variable " + n)
                arr = 0, 1
                for lo, hi in zip(b[::2], b[1::2]):
                    arr = arr[0], arr[1] * (hi - lo + 1)
            t = Type("f" if k == "REAL" else "i", size, arr)
            self.gvars[n] = (t, "ALLOCATABLE" in attr or "POINTER" in attr, init.get(f"__{name}_MOD_{n}"))

    def _parse(self, text, const):
        for part in re.split(r"^;; Function ", text, flags=re.M)[1:]:
            m = re.match(r"(\S+) \(([\w.]+)", part)
            f = Fn(m.group(2))
            b = part.index("\n{\n")
            head = part[:b].rsplit("\n", 1)[1]
            a = head[head.index("(", head.index(m.group(1))) + 1:head.rindex(")")]
            for p in re.split(r", (?=real|integer|logical|character|struct)", a) if a.strip() not in ("", "void") else []:
                t, n = _type(p)
                f.params.append((n, t))
            f.const = const
            blk = union = None
            stmts = []
            body = part[b + 3:part.rindex("}")]
            lines = [x.strip() for x in body.split("\n")]
            for ln in lines:
                m = re.match(r"<bb (\d+)> :$", ln)
                if m:
                    blk = int(m.group(1))
                    stmts = f.blocks[blk] = []
                    continue
                if blk is None:
                    # storage shared by EQUIVALENCE (unions) and COMMON blocks
                    if re.match(r"(static )?union$", ln):
                        union = []
                        continue
                    m = re.match(r"\} ([\w.]+)(?: = \{\.\w+=(\{.*\})\})?;$", ln)
                    if m and union is not None:
                        f.unions[m.group(1)] = union, m.group(2)
                        union = None
                        continue
                    if union is not None:
                        if ln != "{":
                            union.append(_type(ln[:-1]))
                        continue
                    m = re.match(r"static (.*) \[value-expr: ([\w.]+)\];$", ln)
                    if m:
                        f.alias[m.group(2)] = _type(m.group(1))[0]
                        continue
                    if ln.endswith(";"):
                        init = None
                        m = re.match(r"(static .*?) = (.*);$", ln)
                        if m:
                            ln, init = m.group(1) + ";", m.group(2)
                        static = ln.startswith("static ")
                        t, n = _type(ln[:-1].replace("static ", "", 1) if static else ln[:-1])
                        if t is not None:
                            f.vars[n] = (t, static, init)
                    continue
                m = re.match(r"(<?[\w.]+>?):( \[[^]]*\])?$", ln)
                if m:
                    f.labels[m.group(1)] = blk
                if not ln or ln.startswith("//") or m:
                    continue
                stmts.append(re.sub(r" ?\[INV\]| ?\[[\d.]+%\]", "", ln))
            order = sorted(f.blocks)
            f.next = dict(zip(order, order[1:]))
            # joined conditions
            for s in f.blocks.values():
                i = 0
                while i < len(s):
                    if s[i].startswith("if ("):
                        s[i:i + 4] = [" ".join(s[i:i + 4])]
                    i += 1
            self.fns[f.name] = f
            self.fns.setdefault(part.split(" ", 1)[0], f)

    def run(self, W, name, args):
        f = self.fns[name]
        env = Env(self, W, f, args)
        return env.run()


def program(files=FILES):
    if files not in _progs:
        _progs[files] = Program(files)
    return _progs[files]


class Env:
    def __init__(self, prog, W, f, args):
        self.prog, self.W, self.f = prog, W, f
        self.ssa = {}
        self.mem = {}
        self.ptr = {}
        for (n, t), a in zip(f.params, args):
            if t is not None and t.ptr:
                self.ptr[n] = (t, a)
            else:
                self.ssa[n] = a
        st = W.__dict__.setdefault("fortran", {})
        for n, (t, static, init) in f.vars.items():
            k = (f.name, n)
            if static and k in st:
                self.mem[n] = st[k]
                continue
            if t.ptr:
                continue
            o = MemObj("stack" if not static else "global", t.size * (t.arr[1] if t.arr else 1), f"{f.name}:{n}", zero=static)
            self.mem[n] = (t, o)
            if static:
                if init is not None:
                    if t.arr and init.startswith('"') and t.size == 1:
                        for i, x in enumerate(init[1:init.rindex('"')].ljust(t.arr[1])[:t.arr[1]]):
                            store((o, i), 1, "i", ord(x))
                    else:
                        self.initialise(t, o, init)
                st[k] = self.mem[n]
        for n, t in f.alias.items():
            u = n.rsplit(".", 1)[0]
            key, init = ("common", n), None
            if u in f.unions:
                key, init = (f.name, u), f.unions[u][1]
                if len({(x.k, x.size, x.arr) for x, _ in f.unions[u][0]}) != 1:
                    raise Unsupported("EQUIVALENCE of different arrays")
            if key not in st:
                o = MemObj("global", t.size * (t.arr[1] if t.arr else 1), n, zero=True)
                if init is not None:
                    self.initialise(t, o, init)
                st[key] = t, o
            if (st[key][0].k, st[key][0].size, st[key][0].arr) != (t.k, t.size, t.arr):
                raise Unsupported("COMMON block with different layouts")
            self.mem[n] = st[key]

    def initialise(self, t, o, init):
        if not t.arr:
            return store((o, 0), t.size, t.k, self.literal(init))
        v = init.strip()[1:-1].split(",")
        if len(v) != t.arr[1] or any(":" in x or "[" in x for x in v):
            raise Unsupported("initialised Fortran array")
        for i, x in enumerate(v):
            store((o, i * t.size), t.size, t.k, self.literal(x.strip()))

    def literal(self, s):
        m = re.match(r"-?\d+(?:B|l|u|ul)?$", s)
        if m:
            return int(re.sub("[Blu]+$", "", s)) if not s.endswith("B") or s != "0B" else NULL
        try:
            return float(s)
        except ValueError:
            raise Unsupported("Fortran constant " + s)

    def glob(self, n):
        """variable of a module"""
        g = self.prog.gvars.get(n)
        if g is None or n in self.mem or n in self.ptr or n in self.f.vars:
            return None
        st = self.W.__dict__.setdefault("fortran", {})
        o = st.get(("module", n))
        if o is None:
            t, desc, init = g
            o = MemObj("global", t.size * ((t.arr[1] or 1) if t.arr else 1), n, zero=True)
            if init and not desc:
                if t.arr:
                    raise Unsupported("initialised Fortran array " + n)
                fmt = {("f", 4): "<f", ("f", 8): "<d", ("i", 4): "<i", ("i", 8): "<q"}[t.k, t.size]
                store((o, 0), t.size, t.k, struct.unpack(fmt, init[:t.size])[0])
            o = st["module", n] = (g[0], o)
        return o

    def fields(self, s):
        """where a field of an array descriptor is kept"""
        m = DESC.match(s)
        if not m:
            return None
        if m.group(1) in self.prog.gvars and m.group(1) not in self.f.vars:
            return self.W.__dict__.setdefault("fortran_desc", {})
        return self.ssa

    def place(self, s):
        """address and type of an lvalue"""
        s = s.strip()
        m = re.match(r"\(\*([\w.]+)\)\[([^\]]+)\]$", s)
        if m and m.group(1) not in self.ptr:
            return self.elem(self.f.vars[m.group(1)][0], self.ssa[m.group(1)], m.group(2))
        if m:
            t, p = self.ptr[m.group(1)]
            return self.elem(t, p, m.group(2))
        m = MEM.match(s)
        if m:
            return self.elem(_type(m.group(1))[0], self.value(m.group(2)), m.group(3))
        m = re.match(r"\*([\w.]+)$", s)
        if m:
            t, p = self.ptr[m.group(1)]
            return t, p
        m = re.match(r"([\w.]+)\[([^\]]+)\]$", s)
        v = m and (self.mem.get(m.group(1)) or self.glob(m.group(1)))
        if v:
            return self.elem(v[0], (v[1], 0), m.group(2))
        v = self.mem.get(s) or self.glob(s)
        if v:
            return v[0], (v[1], 0)
        if s.startswith("C.") and s in self.f.const:
            k, size, v = self.f.const[s]
            o = MemObj("global", size, s)
            t = Type("f" if k == "real" else "i", size)
            store((o, 0), size, t.k, self.literal(v))
            o.ro = True
            return t, (o, 0)
        raise Unsupported("Fortran variable " + s)

    def elem(self, t, p, ix):
        i = self.value(ix)
        if p.__class__ is not tuple or p[0] is None:
            ir.bad("null-dereference", f"{self.f.name}: element of an array which is not allocated")
        return t, (p[0], p[1] + (i - (t.arr[0] if t.arr else 0)) * t.size)

    def value(self, s):
        s = s.strip()
        if re.match(r"_\d+$|[\w.]+_\d+$", s) and s in self.ssa:
            return self.ssa[s]
        if s in self.ssa:
            return self.ssa[s]
        if s in self.ptr:
            return self.ptr[s][1]
        f = self.fields(s)
        if f is not None:
            return f[s] if s in f else NULL if s.endswith(".data") else UNDEF
        if s.startswith('&"'):
            return s[2:s.rindex('"')]
        if s.startswith("&"):
            if s[1:] in self.prog.gvars and self.prog.gvars[s[1:]][1] and s[1:] not in self.f.vars:
                return Descriptor(self.prog.gvars[s[1:]][0], s[1:], self.W.__dict__.setdefault("fortran_desc", {}))
            try:
                return self.place(s[1:])[1]
            except Unsupported:
                return Name(s[1:])
        while s.startswith("((") and s.endswith("))"):
            s = s[2:-2].strip()
            return self.value(s)
        if re.match(r"-?[\d.]", s):
            return self.literal(s)
        t, p = self.place(s)
        v = load(p, t.size, t.k, f"{self.f.name}: {s}")
        if v is UNDEF:
            ir.bad("uninitialised", f"{self.f.name}: {s} is used before it is set")
        return v

    def assign(self, lhs, v):
        f = self.fields(lhs)
        if f is not None:
            f[lhs] = v
        elif re.match(r"[\w.]+$", lhs) and self.glob(lhs):
            t, o = self.glob(lhs)
            store((o, 0), t.size, t.k, v, self.f.name)
        elif (lhs in self.mem) or lhs.startswith("*") or "[" in lhs or lhs in self.ptr:
            t, p = self.place(lhs)
            store(p, t.size, t.k, v, self.f.name)
        else:
            self.ssa[lhs] = v

    def binop(self, op, a, b):
        if a.__class__ is tuple or b.__class__ is tuple:
            if op not in ("==", "!="):
                raise Unsupported("Fortran operator " + op + " of pointers")
            a, b = [NULL if x.__class__ is int and x == 0 else x for x in (a, b)]
            same = a[0] is b[0] and a[1] == b[1]
            return same if op == "==" else not same
        ints = all(x.__class__ in (int, SI, bool, BT) for x in (a, b))
        if op in ("<", "<=", ">", ">=", "==", "!="):
            if ints:
                a, b = [ir.b2i(x) if x.__class__ in (bool, BT) else x for x in (a, b)]
                if a.__class__ is int and b.__class__ is int:
                    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
                return core.si_cmp(op, a, b)
            return core.fcmp({"<": "olt", "<=": "ole", ">": "ogt", ">=": "oge", "==": "oeq", "!=": "une"}[op], a, b)
        if ints:
            n = {"+": "+", "-": "-", "*": "*", "/": "sdiv", "%": "srem", "&": "and", "|": "or"}.get(op)
            if n is None:
                raise Unsupported("Fortran operator " + op)
            if op in "&|" and all(x.__class__ in (bool, BT) for x in (a, b)):
                return (core.b_and if op == "&" else core.b_or)(a, b)
            if op == "/" and a.__class__ is int and b.__class__ is int and b:
                return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            r = ir.ibin(n, a, b, 64, False, self.f.name)
            return self.single(r) if op == "/" else r
        g = {"+": core.fadd, "-": core.fsub, "*": core.fmul, "/": core.fdiv}.get(op)
        if g is None:
            raise Unsupported("Fortran operator " + op)
        return g(a, b)

    def expr(self, s):
        s = s.strip()
        m = re.match(r"\((real|integer|logical)\(kind=(\d+)\)\) (.*)$", s)
        if m:
            v = self.value(m.group(3))
            if m.group(1) == "real":
                return v if v.__class__ in (float, T) else ir.i2f(v)
            if m.group(1) == "logical":
                return v
            if v.__class__ in (float, T):
                return self.few(v, ir.fptosi(v, 8 * int(m.group(2)), self.f.name))
            if v.__class__ in (bool, BT):
                return ir.b2i(v)
            return v
        m = re.match(r"\((?:unsigned |signed )?(?:long|int|sizetype|bitsizetype|long int)\) (.*)$", s)
        if m:
            v = self.value(m.group(1))
            return ir.b2i(v) if v.__class__ in (bool, BT) else v
        m = re.match(r"(ABS|MAX|MIN)_EXPR <(.*)>$", s)
        if m:
            a = [self.value(x) for x in m.group(2).split(",")]
            if m.group(1) == "ABS":
                if a[0].__class__ is int:
                    return abs(a[0])
                return core.fcall("fabs", a[0]) if a[0].__class__ in (float, T) else ir.select(
                    core.si_cmp("<", a[0], 0), -a[0], a[0])
            c = self.binop("<", a[0], a[1])
            c = core.CTX.branch(c) if c.__class__ is not bool else c
            return a[1] if c == (m.group(1) == "MAX") else a[0]
        m = re.match(r"([\w.]+) \((.*)\)$", s)
        if m and not s.startswith("("):
            return self.call(m.group(1), m.group(2))
        m = re.match(r"(\S+) (<=|>=|==|!=|[-+*/%<>&|]) (\S+)$", s)
        if m:
            return self.binop(m.group(2), self.value(m.group(1)), self.value(m.group(3)))
        m = re.match(r"-([\w.]+)$", s)
        if m and not re.match(r"-[\d.]", s):
            v = self.value(m.group(1))
            return core.fneg(v) if v.__class__ in (float, T) else -v
        m = re.match(r"~([\w.]+)$", s)
        if m:
            v = self.value(m.group(1))
            return core.b_not(v)
        return self.value(s)

    def few(self, v, i):
        """the integer part: one path for each value if there are few of them (days, whole turns)"""
        c = core.CTX
        if i.__class__ is SI and v.__class__ is T and c.mode == "poly":
            lo, hi = c.low.ring.tbound(v)
            if hi - lo <= 5.0:
                return c.concretize(i)
        return i

    @staticmethod
    def whole(v):
        """the integer if the value is a sum of integers"""
        c = core.CTX
        if v.__class__ is not T or c.mode != "poly" or c.guide is not None:
            return None
        R = c.low.ring
        p = R(v)
        e, lo, hi = z3.IntVal(0), 0, 0
        for m, k in p.items():
            if k != k.to_integral_value() or len(m) > 1 or any(x != 1 for _, x in m):
                return None
            k = int(k)
            if not m:
                e, lo, hi = e + k, lo + k, hi + k
                continue
            a = R.atoms[m[0][0]]
            if a.name not in R.sis or not (abs(a.lo) < 1e9 and abs(a.hi) < 1e9):
                return None
            e = e + k * R.sis[a.name]
            x = sorted((k * int(a.lo), k * int(a.hi)))
            lo, hi = lo + x[0], hi + x[1]
        return SI(e, lo, hi)

    def single(self, i, limit=2):
        """a quotient which has only one or two values on the path"""
        c = core.CTX
        if i.__class__ is not SI or c.mode != "poly" or c.guide is not None:
            return i
        seen = []
        while len(seen) <= limit:
            c._flush()
            r = c.check(*[i.e != v for v in seen])
            if r == "unsat" and seen:
                return c.concretize(i)
            if r != "sat":
                return i
            seen.append(c.solver.model().eval(i.e, model_completion=True).as_long())
        return i

    def call(self, name, args):
        if name.startswith("_gfortran_") or name in ("__builtin_malloc", "__builtin_free", "__builtin_memcmp", "__builtin_memmove",
                                                     "__builtin_memset", "__builtin_memcpy"):
            return self.library(name, args)
        a = [self.value(x) for x in re.split(r", ?", args)] if args.strip() else []
        m = re.match(r"__builtin_(i|l)?(round|floor|trunc|ceil|nearbyint|rint)f?$", name)
        if m:
            if m.group(2) in ("nearbyint", "rint"):
                raise Unsupported(name)
            v = core.fcall(m.group(2), a[0])
            i = self.whole(a[0]) if m.group(1) else None
            if i is not None:
                return i
            if not m.group(1):
                return v
            return self.few(v, ir.fptosi(v, 32 if m.group(1) == "i" else 64, self.f.name))
        m = re.match(r"__builtin_(sin|cos|tan|sqrt|atan2|asin|acos|atan|fabs|exp|log|pow|fmod|copysign)f?$", name)
        if m:
            return core.fcall(m.group(1), *a)
        h = self.W.hooks.get(name + "_") or self.W.hooks.get(name)
        if h is not None:
            return h(self.W, *a)
        f = self.prog.fns.get(name) or self.prog.fns.get(name + "_")
        if f is not None:
            return self.prog.run(self.W, f.name, a)
        raise Unsupported("Fortran procedure " + name)

    def run(self):
        W = self.W
        blk = min(self.f.blocks)
        while True:
            nxt = self.f.next.get(blk)
            for s in self.f.blocks[blk]:
                W.fuel -= 1
                if W.fuel < 0:
                    W.out_of_fuel(self.f.name)
                if s.endswith("= {CLOBBER(eol)};") or s.endswith("= {CLOBBER};") or s.endswith("= {CLOBBER(eos)};"):
                    continue
                m = re.match(r"if \((.*)\) goto <bb (\d+)>; else goto <bb (\d+)>;", s)
                if m:
                    c = self.expr(m.group(1))
                    if c.__class__ is not bool:
                        c = core.CTX.branch(c)
                    nxt = int(m.group(2) if c else m.group(3))
                    break
                m = re.match(r"switch \(([\w.]+)\) <(.*)>(?: |;|$)", s)
                if m:
                    v = self.value(m.group(1))
                    v = core.CTX.concretize(v) if v.__class__ is not int else v
                    tab = dict(re.findall(r"(default|case -?\d+): (<?[\w.]+>?)", m.group(2)))
                    nxt = self.f.labels[tab.get(f"case {v}") or tab["default"]]
                    break
                m = re.match(r"goto <bb (\d+)>;", s)
                if m:
                    nxt = int(m.group(1))
                    break
                if s == "return;":
                    return None
                m = re.match(r"return (.*);$", s)
                if m:
                    return self.value(m.group(1))
                m = re.match(r"(.+?) = (.*);$", s)
                if m and not s.startswith("switch"):
                    if m.group(2).startswith("{"):
                        if m.group(2) != "{}" or self.fields(m.group(1).strip()) is None:
                            raise Unsupported("Fortran statement " + s[:100])
                        continue
                    self.assign(m.group(1).strip(), self.expr(m.group(2)))
                    continue
                m = re.match(r"([\w.]+) \((.*)\);$", s)
                if m and m.group(1) != "switch":
                    self.call(m.group(1), m.group(2))
                    continue
                raise Unsupported("Fortran statement " + s[:100])
            if nxt is None:
                return None
            blk = nxt

    # run-time library

    def library(self, name, args):
        a = [self.value(x) for x in re.split(r", (?=[^ ])", args)] if args.strip() else []
        f = getattr(self, name.replace("__builtin_", "lib_").replace("_gfortran_", "lib_"), None)
        if f is None:
            raise Unsupported("Fortran run-time function " + name)
        return f(*a)

    def lib_malloc(self, n):
        n = core.CTX.concretize(n) if n.__class__ is not int else n
        return MemObj("fortran", n, f"{self.f.name}: allocated"), 0

    def lib_free(self, p):
        if p[0] is not None:
            if not p[0].alive or p[1]:
                ir.bad("invalid-free", f"{self.f.name}: memory is released twice")
            p[0].alive = False

    @staticmethod
    def chars(p, n):
        r = []
        for i in range(n):
            v = load((p[0], p[1] + i), 1, "i", "characters")
            if v.__class__ is not int:
                raise Unsupported("symbolic characters")
            r.append(v & 255)
        return bytes(r)

    def lib_memcmp(self, a, b, n):
        x, y = self.chars(a, n), self.chars(b, n)
        return (x > y) - (x < y)

    def lib_memmove(self, dst, src, n):
        if n % 8 or n > 64:
            for i, v in enumerate(self.chars(src, n)):
                store((dst[0], dst[1] + i), 1, "i", v if v < 128 else v - 256)
            return dst
        raise Unsupported("copy of Fortran numbers")

    lib_memcpy = lib_memmove

    def lib_memset(self, dst, v, n):
        if v or n % 8:
            raise Unsupported("filled Fortran memory")
        for i in range(0, n, 8):
            store((dst[0], dst[1] + i), 8, "f", 0.0)
        return dst

    def lib_string_trim(self, plen, pstr, n, src):
        t = self.chars(src, n).rstrip(b" ")
        o = MemObj("fortran", max(len(t), 1), "trimmed")
        for i, v in enumerate(t):
            store((o, i), 1, "i", v)
        store(plen, 8, "i", len(t))
        if not isinstance(pstr, Name):
            raise Unsupported("trimmed string")
        self.ssa[pstr.name] = (o, 0) if t else NULL

    def field(self, blk, name):
        return self.ssa[f"{blk.name}.{name}"]

    def lib_st_open(self, blk):
        f = self.chars(self.field(blk, "file"), self.field(blk, "file_len")).split(b"\0")[0].decode()
        if self.ssa.get(f"{blk.name}.form", "formatted") != "formatted":
            raise Unsupported("unformatted file")
        try:
            text = open(f, encoding="latin1").read()
        except OSError:
            ir.bad("stop", f"{self.f.name}: the file {f!r} cannot be opened")
        self.W.__dict__.setdefault("fortran_units", {})[self.field(blk, "common.unit")] = Reader(text)

    def lib_st_close(self, blk):
        self.W.fortran_units.pop(self.field(blk, "common.unit"), None)

    def unit(self, blk):
        u = self.W.__dict__.setdefault("fortran_units", {}).get(self.field(blk, "common.unit"))
        if u is None:
            ir.bad("stop", f"{self.f.name}: read from a closed unit")
        return u

    def lib_st_read(self, blk):
        if self.field(blk, "common.flags") & 128 == 0:
            raise Unsupported("formatted read")
        self.unit(blk).start()

    def lib_st_read_done(self, blk):
        self.unit(blk).end()

    def lib_transfer_integer(self, blk, p, size):
        store(p, size, "i", self.unit(blk).next("i", self.f.name))

    def lib_transfer_real(self, blk, p, size):
        store(p, size, "f", self.unit(blk).next("f", self.f.name))

    def lib_transfer_array(self, blk, d, size, _):
        if not isinstance(d, Descriptor):
            raise Unsupported("array read")
        shape, stride = d.shape()
        base = d.fields[d.name + ".data"]
        ix = [0] * len(shape)
        if any(n <= 0 for n in shape):
            return
        u = self.unit(blk)
        while True:
            off = sum(i * s for i, s in zip(ix, stride))
            store((base[0], base[1] + off * size), size, d.t.k, u.next(d.t.k, self.f.name))
            for j in range(len(ix)):
                ix[j] += 1
                if ix[j] < shape[j]:
                    break
                ix[j] = 0
            else:
                return


class Name:
    """address of an object which is not modelled as memory"""

    def __init__(self, name):
        self.name = name


class Descriptor:
    def __init__(self, t, name, fields):
        self.t, self.name, self.fields = t, name, fields

    def shape(self):
        f, n = self.fields, 0
        shape, stride = [], []
        while f"{self.name}.dim[{n}].ubound" in f:
            k = f"{self.name}.dim[{n}]."
            shape.append(f[k + "ubound"] - f[k + "lbound"] + 1)
            stride.append(f[k + "stride"])
            n += 1
        return shape, stride


class Reader:
    """list-directed input"""

    def __init__(self, text):
        self.lines = [x.replace(",", " ").split() for x in text.split("\n")]
        self.row = self.col = 0

    def start(self):
        self.col = 0

    def end(self):
        self.row += 1

    def next(self, kind, where):
        from . import pyload
        while self.row < len(self.lines) and self.col >= len(self.lines[self.row]):
            self.row, self.col = self.row + 1, 0
        if self.row >= len(self.lines):
            ir.bad("stop", f"{where}: end of the file")
        s = self.lines[self.row][self.col]
        self.col += 1
        if s in pyload.TOKENS:
            return pyload.TOKENS[s]
        try:
            return int(s) if kind == "i" else float(s.lower().replace("d", "e"))
        except ValueError:
            raise Unsupported(f"list-directed input {s!r}")
