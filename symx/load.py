"""Loading pixell from /repo's current working tree.

symbolic(): every pixell module is compiled from /repo/pixell/*.py as it stands and
executed with numpy replaced by symx.snp and astropy.wcs.WCS by symx.wcs.SymWCS.
real(): the same sources, with the real numpy and astropy (used for replay).
Compiled extension modules are rebuilt from their sources into a scratch directory
when (and only when) something in them is first used.
"""
from fractions import Fraction
import numpy as np
import sys, os, ast, importlib, importlib.abc, importlib.machinery, importlib.util, types, builtins, tempfile, subprocess, shutil, atexit

REPO = os.environ.get("SYMX_REPO", "/repo")
PIX = os.path.join(REPO, "pixell")
EXTS = ["cmisc", "distances", "srcsim", "_interpol_32", "_interpol_64", "_array_ops_32", "_array_ops_64", "_colorize"]


def _drop_editable():
    sys.meta_path[:] = [f for f in sys.meta_path if "pixell" not in repr(f).lower() and "meson" not in repr(f).lower() and "MesonpyMetaFinder" not in type(f).__name__]
    for m in [m for m in sys.modules if m == "pixell" or m.startswith("pixell.")]: del sys.modules[m]


# ------------------------------------------------------------ extension modules

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        d = os.environ.get("SYMX_SCRATCH")
        if d: _scratch = d; os.makedirs(d, exist_ok=True)
        else:
            _scratch = tempfile.mkdtemp(prefix="symx_")
            pid = os.getpid()
            atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def _run(cmd, cwd):
    env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    env = dict(env, PATH="/opt/venv/bin:"+os.environ.get("PATH", "/usr/bin:/bin"), PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if r.returncode != 0: raise ImportError("building an extension failed: %s\n%s" % (cmd, r.stdout.decode(errors="replace")[-2000:]))


def build_ext(name):
    """build one extension module from /repo's sources; returns the .so path"""
    import sysconfig
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    d = os.path.join(scratch(), name)
    out = os.path.join(d, name+suffix)
    if os.path.exists(out+".ok"): return out
    tmp = d+".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    if name in ("cmisc", "distances", "srcsim"):
        src = os.path.join(REPO, "cython")
        for f in os.listdir(src):
            if f.endswith((".pyx", ".pxd", ".c", ".h")): shutil.copy(os.path.join(src, f), tmp)
        _run([sys.executable, "-m", "cython", "-3", name+".pyx", "-o", name+".c"], tmp)
        import numpy
        inc = ["-I"+sysconfig.get_path("include"), "-I"+numpy.get_include(), "-I."]
        core = [f for f in ["%s_core.c" % name] if os.path.exists(os.path.join(tmp, f))]
        # "-std=c99" as in the build files
        asan = ["-fsanitize=address", "-g"] if os.environ.get("SYMX_ASAN") else []
        _run(["gcc", "-O1", "-fPIC", "-shared", "-fopenmp", "-std=gnu99", "-w"]+asan+inc+[name+".c"]+core+["-o", name+suffix, "-lm"], tmp)
    else:
        basen = name.strip("_")
        src = os.path.join(REPO, "fortran")
        if basen.endswith(("_32", "_64")):
            stem, bits = basen.rsplit("_", 1)
            f90 = basen+".f90"
            for f in os.listdir(src):
                if f.endswith(".F90") or f == "Makefile": shutil.copy(os.path.join(src, f), tmp)
            make_f90(stem, bits, tmp)
        else:
            f90 = basen+".f90"
            shutil.copy(os.path.join(src, f90), tmp)
        _run([sys.executable, "-m", "numpy.f2py", f90, "-m", name, "--lower"], tmp)
        import numpy.f2py
        fi = os.path.join(os.path.dirname(numpy.f2py.__file__), "src")
        import numpy
        _run(["gcc", "-O1", "-fPIC", "-w", "-c", "-I"+sysconfig.get_path("include"), "-I"+numpy.get_include(), "-I"+fi,
              name+"module.c", os.path.join(fi, "fortranobject.c")], tmp)
        objs = [name+"module.o", "fortranobject.o"]
        _run(["gfortran", "-O1", "-fPIC", "-w", "-c", "-fopenmp", "-ffree-line-length-none", f90, "-o", "f.o"], tmp)
        objs.append("f.o")
        for w in [name+"-f2pywrappers.f", name+"-f2pywrappers2.f90"]:
            if os.path.exists(os.path.join(tmp, w)):
                o = w.replace(".", "_")+".o"
                _run(["gfortran", "-O1", "-fPIC", "-w", "-c", w, "-o", o], tmp); objs.append(o)
        _run(["gfortran", "-shared", "-fopenmp"]+objs+["-o", name+suffix, "-lm"], tmp)
    os.makedirs(d, exist_ok=True)
    try: os.replace(os.path.join(tmp, name+suffix), out)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    open(out+".ok", "w").close()
    return out


def make_f90(stem, bits, tmp):
    """what fortran/Makefile does: preprocess <stem>.F90 for one precision"""
    _run(["make", "-s", "-B", "-f", "Makefile", "%s_%s.f90" % (stem, bits)], tmp)


class LazyExt(types.ModuleType):
    """an extension module that is built when an attribute is first asked for"""
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        name = self.__name__.rsplit(".", 1)[1]
        so = build_ext(name)
        loader = importlib.machinery.ExtensionFileLoader(self.__name__, so)
        spec = importlib.util.spec_from_file_location(self.__name__, so, loader=loader)
        old = sys.modules.get(self.__name__)
        mod = importlib.util.module_from_spec(spec)
        loader.exec_module(mod)
        sys.modules[self.__name__] = old
        for k, v in mod.__dict__.items():
            if not k.startswith("__"): self.__dict__[k] = v
        self.__dict__["_real"] = mod
        return getattr(mod, a)


class StubExt(types.ModuleType):
    """an extension module met during symbolic execution: its functions are not followed
    unless the harness registered a symbolic implementation"""
    impl = {}
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        name = self.__name__.rsplit(".", 1)[1]
        f = StubExt.impl.get((name, a))
        if f is not None: return f
        from .core import Unsupported
        def g(*x, **k): raise Unsupported("compiled function %s.%s" % (name, a))
        g.__name__ = a
        return g


# ------------------------------------------------------------ finder

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, symbolic): self.symbolic = symbolic; self.files = set()
    def find_spec(self, name, path=None, target=None):
        if name == "pixell":
            s = importlib.machinery.ModuleSpec(name, self, origin=os.path.join(PIX, "__init__.py"), is_package=True)
            s.submodule_search_locations = [PIX]
            return s
        if name.startswith("pixell."):
            sub = name.split(".", 1)[1]
            if sub in EXTS: return importlib.machinery.ModuleSpec(name, self, origin="ext")
            f = os.path.join(PIX, sub+".py")
            if os.path.exists(f): return importlib.machinery.ModuleSpec(name, self, origin=f)
            p = os.path.join(PIX, sub)
            if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
                s = importlib.machinery.ModuleSpec(name, self, origin=os.path.join(p, "__init__.py"), is_package=True)
                s.submodule_search_locations = [p]
                return s
        return None
    def create_module(self, spec):
        if spec.origin == "ext":
            return (StubExt if self.symbolic else LazyExt)(spec.name)
        return None
    def exec_module(self, mod):
        spec = mod.__spec__
        if spec.origin == "ext": return
        mod.__file__ = spec.origin
        self.files.add(spec.origin)
        src = open(spec.origin).read()
        if self.symbolic:
            mod.__dict__["__builtins__"] = sym_builtins()
            code = compile(ast.fix_missing_locations(Calls().visit(ast.parse(src, spec.origin))), spec.origin, "exec", dont_inherit=True)
        else: code = compile(src, spec.origin, "exec", dont_inherit=True)
        exec(code, mod.__dict__)


class Calls(ast.NodeTransformer):
    """int(x), float(x), complex(x), round(x), bool(x) in the code under test keep symbolic values"""
    NAMES = ("int", "float", "complex", "round")
    METHODS = ("astype", "reshape", "item", "conj", "sum", "ravel", "tolist", "any", "all", "squeeze")
    def visit_Subscript(self, n):
        self.generic_visit(n)
        # numpy scalars can be given new axes, python numbers cannot
        idx = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        if isinstance(n.ctx, ast.Load) and any(isinstance(i, ast.Constant) and (i.value is None or i.value is Ellipsis) for i in idx):
            n.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name("__symx_obj__", ast.Load()), n.value), [n.value], []), n.value)
        return n
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "byteorder" and isinstance(n.ctx, ast.Load):
            # the object arrays that hold symbolic numbers stand for native-order data
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__symx_byteorder__", ast.Load()), n), [n.value], []), n)
        if n.attr == "dtype" and isinstance(n.ctx, ast.Load):
            # ... and for float, int, bool or complex arrays, according to what they hold
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__symx_dtype__", ast.Load()), n), [n.value], []), n)
        return n
    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "dtype":
            t = n.targets[0]
            call = ast.Call(ast.Name("__symx_setdtype__", ast.Load()), [t.value, n.value], [])
            return ast.copy_location(ast.Expr(ast.copy_location(call, n)), n)
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.NAMES:
            n.func = ast.copy_location(ast.Name("__symx_%s__" % n.func.id, ast.Load()), n.func)
        elif isinstance(n.func, ast.Attribute) and n.func.attr == "float64" and isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "numpy") and len(n.args) == 1 and not n.keywords:
            n.func = ast.copy_location(ast.Name("__symx_float__", ast.Load()), n.func)
        elif isinstance(n.func, ast.Attribute) and n.func.attr in self.METHODS and not isinstance(n.func.value, ast.Constant):
            # numpy scalars have array methods, the python numbers that stand for them here do not
            n.func.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name("__symx_obj__", ast.Load()), n.func), [n.func.value], []), n.func)
        return n


_sb = None
def sym_builtins():
    global _sb
    if _sb is not None: return _sb
    from . import snp as S
    from . import wcs as W
    d = dict(builtins.__dict__)
    real_import = builtins.__import__
    astrowcs = types.ModuleType("astropy.wcs")
    astrowcs.WCS = W.SymWCS
    import astropy.wcs
    astrowcs.FITSFixedWarning = astropy.wcs.FITSFixedWarning
    from . import io as IO
    from . import fourier as FT, sht as SHT, scp as SCP
    from . import core
    class Pkg(types.ModuleType):
        """a package with some parts replaced"""
        def __getattr__(self, a):
            if a.startswith("__"): raise AttributeError(a)
            return getattr(self.__dict__["_pkg"], a)
    import astropy, astropy.io
    apy, apyio = Pkg("astropy"), Pkg("astropy.io")
    apy._pkg, apyio._pkg = astropy, astropy.io
    apy.io, apyio.fits, apy.wcs = apyio, IO.fits, astrowcs
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name == "numpy" or name.startswith("numpy."):
                if name == "numpy" or not fromlist: return S.snp
                r = S.snp
                for p in name.split(".")[1:]: r = getattr(r, p)
                return r
            if name == "astropy.wcs" and fromlist: return astrowcs
            if name == "astropy.io.fits" and fromlist: return IO.fits
            if name == "astropy.io" and fromlist: return apyio
            if name.split(".")[0] == "astropy" and not fromlist:
                real_import(name)
                return apy
            if name == "h5py": return IO.h5py
            if name.split(".")[0] == "scipy":
                real_import(name)
                if not fromlist: return SCP.scipy
                if name in SCP.PARTS: return SCP.PARTS[name]
            if name == "numba": return SCP.numba
            if name == "ducc0" or name.startswith("ducc0."): return FT.ducc0
        return real_import(name, globals, locals, fromlist, level)
    d["__import__"] = imp
    d["open"] = IO.raw_open
    d["min"] = S.s_builtin_min
    d["max"] = S.s_builtin_max
    d["sum"] = S.s_builtin_sum
    d["isinstance"] = S.s_builtin_isinstance
    from .core import Sym, SymComplex, SymBool
    SC = (Sym, SymComplex, SymBool)
    d["__symx_obj__"] = lambda x: S.objarr([x], ()).view(S.SymArr) if type(x) in (int, float, bool, Fraction) or type(x) in SC else x
    d["__symx_byteorder__"] = lambda dt: "=" if dt == np.dtype(object) else dt.byteorder
    def dtype(x):
        if isinstance(x, np.ndarray) and x.dtype == np.dtype(object) or type(x) in SC: return S.effdtype(x)
        return x.dtype
    def setdtype(x, v):
        if isinstance(x, np.ndarray):
            if np.dtype(v) == dtype(x): return
            if x.dtype == np.dtype(object): raise core.Unsupported("setting the dtype of symbolic data")
        x.dtype = v
    d["__symx_dtype__"] = dtype
    d["__symx_setdtype__"] = setdtype
    d["__symx_int__"] = S.s_builtin_int
    d["__symx_float__"] = S.s_builtin_float
    d["__symx_round__"] = S.s_builtin_round
    d["__symx_complex__"] = S.s_builtin_complex
    _sb = d
    return d


finder = None
_PRE = ["scipy", "scipy.ndimage", "scipy.interpolate", "scipy.spatial", "scipy.special", "scipy.optimize", "scipy.integrate", "astropy", "astropy.io.fits",
        "astropy.wcs", "astropy.coordinates", "astropy.units", "astropy.time", "ducc0", "PIL.Image", "PIL.ImageDraw", "PIL.ImageFont", "h5py", "numba"]

def _setup(symbolic):
    global finder
    if finder is not None: return
    sys.dont_write_bytecode = True
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    _drop_editable()
    for m in _PRE:
        try: importlib.import_module(m)
        except Exception: pass
    finder = Finder(symbolic)
    sys.meta_path.insert(0, finder)


class Mods:
    """px.enmap etc., imported on demand"""
    def __getattr__(self, a):
        m = importlib.import_module("pixell."+a)
        setattr(self, a, m)
        return m


def symbolic():
    _setup(True)
    return Mods()

def real():
    _setup(False)
    return Mods()
