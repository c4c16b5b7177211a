"""IR generation from and scratch builds of /repo's working tree"""
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile
import atexit

from . import ir, capi

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
EXT_DIR = "eoxmagmod/eoxmagmod"
MODULES = {"pymm": "_pymm", "pytimeconv": "_pytimeconv", "pysunpos": "_pysunpos", "pyqd": "_pyqd"}

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif_")
        atexit.register(lambda d=_scratch, pid=os.getpid(): os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return _scratch


def includes():
    import numpy
    import sysconfig
    ni = numpy.get_include()
    capi.NUMPY_INCLUDE = ni
    b = os.path.join(REPO, EXT_DIR)
    return [REPO, os.path.join(REPO, "qdipole"), os.path.join(b, "include"), b,
            sysconfig.get_paths()["include"], ni]


def qd_conf():
    """directory of the generated configuration header of the Fortran library"""
    if os.path.exists(os.path.join(REPO, "qdipole", "qdipole_conf.h")):
        return os.path.join(REPO, "qdipole")
    d = os.path.join(scratch(), "conf")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "qdipole_conf.h"), "w") as f:
        f.write('#define PACKAGE_VERSION "0"\n')
    return d


_mods = {}


def module(name):
    """translated IR of one extension module (file stem of the C source)"""
    m = _mods.get(name)
    if m is None:
        d = scratch()
        src = os.path.join(REPO, "qdipole" if name == "cqdipole" else EXT_DIR, name + ".c")
        raw = os.path.join(d, f"{name}.{os.getpid()}.raw.ll")
        out = os.path.join(d, f"{name}.{os.getpid()}.ll")
        subprocess.run(["clang-18", "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone",
                        "-fno-discard-value-names", "-ffp-contract=off", "-w", "-fno-builtin",
                        *("-I" + i for i in includes() + [qd_conf()]), src, "-o", raw], check=True)
        subprocess.run(["opt-18", "-S", "-passes=sroa,simplifycfg<>", raw, "-o", out], check=True)
        m = _mods[name] = ir.Module(open(out).read(), name)
    return m


def world(*names, **kw):
    W = capi.World(**kw)
    for n in names:
        capi.setup_api_table(W, module(n))
    return W


# ---------------------------------------------------------------------------------------------
# the real build

_real = {}


def real_dir(flags=(), cc="gcc", qd=False):
    """copy of the package with freshly compiled extension modules; qd: with a freshly compiled Fortran library"""
    key = (cc,) + tuple(flags)
    d = _real.get(key + (True,)) or (not qd and _real.get(key))
    if d:
        return d
    d = os.path.join(scratch(), f"real{len(_real)}_{os.getpid()}")
    src = os.path.join(REPO, EXT_DIR)
    pk = os.path.join(d, "eoxmagmod")

    def ign(dr, names):
        return [n for n in names if n in ("tests", "__pycache__") or n.endswith((".so", ".o"))]
    shutil.copytree(src, pk, ignore=ign)
    # the documentation version data etc. are plain files of the package
    lib = None if qd else find_libqdipole()
    if lib is None:
        lib = build_libqdipole()
    import sysconfig
    suf = sysconfig.get_config_var("EXT_SUFFIX")
    procs = []
    for stem, modn in MODULES.items():
        cmd = [cc, "-shared", "-fPIC", "-O2", "-g0", "-w", "-fno-strict-aliasing", *flags,
               *("-I" + i for i in includes()), os.path.join(src, stem + ".c"),
               "-o", os.path.join(pk, modn + suf), "-lm"]
        if stem == "pyqd":
            if lib is None:
                continue
            cmd += ["-L" + lib, "-lqdipole", "-Wl,-rpath," + lib]
        procs.append((cmd, subprocess.Popen(cmd)))
    for cmd, p in procs:
        if p.wait() != 0:
            raise RuntimeError("build failed: " + " ".join(cmd))
    _real[key + ((True,) if qd else ())] = d
    return d


_lib = None


def build_libqdipole():
    global _lib
    if _lib is None:
        d = os.path.join(scratch(), f"qdipole_{os.getpid()}")
        os.makedirs(d)
        src = os.path.join(REPO, "qdipole")
        jobs = [["gcc", "-c", "-O1", "-w", "-fPIC", "-I" + src, "-I" + qd_conf(), os.path.join(src, "cqdipole.c"), "-o",
                 os.path.join(d, "cqdipole.o")]]
        # apexsh.f90 defines the modules
        for f in ("apex", "apexsh", "eval_subsol", "eval_qdlatlon", "eval_mlt"):
            jobs.append(["gfortran", "-c", "-O1", "-w", "-fPIC", "-J", d, os.path.join(src, f + ".f90"), "-o",
                         os.path.join(d, f + ".o")])
        for part in (jobs[:3], jobs[3:]):
            for cmd, p in [(c, subprocess.Popen(c, cwd=d)) for c in part]:
                if p.wait() != 0:
                    raise RuntimeError("build failed: " + " ".join(cmd))
        subprocess.run(["gfortran", "-shared", *sorted(glob.glob(os.path.join(d, "*.o"))), "-o",
                        os.path.join(d, "libqdipole.so")], check=True)
        _lib = d
    return _lib


def find_libqdipole():
    for pat in (os.path.join(REPO, "qdipole", "**", "libqdipole.so*"), "/opt/vp/**/libqdipole.so*",
                "/usr/local/lib/libqdipole.so*", "/opt/venv/lib/libqdipole.so*"):
        for f in glob.glob(pat, recursive=True):
            return os.path.dirname(f)
    return None


_imported = None


def real(flags=()):
    """the freshly built package, imported into this process"""
    global _imported
    if _imported is None:
        d = real_dir(flags)
        os.environ["SPACEPY"] = os.path.join(scratch(), f"spacepy{os.getpid()}")
        os.makedirs(os.environ["SPACEPY"], exist_ok=True)
        sys.path.insert(0, d)
        import importlib
        for k in [k for k in sys.modules if k == "eoxmagmod" or k.startswith("eoxmagmod.")]:
            del sys.modules[k]
        sys.dont_write_bytecode = True
        _imported = importlib.import_module("eoxmagmod")
        assert _imported.__file__.startswith(d), _imported.__file__
    return _imported
