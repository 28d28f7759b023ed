"""Symbolic execution of pixell's Cython modules.

A .pyx file of /repo is turned into python by removing the static types (declarations become casts, &x[i] and
<T>x become calls) and executed like the python modules; the C functions it calls run in symx.cir.
"""
import re, os, ast, types
import numpy as np
from . import core, load, cir, snp as S
from .core import Sym, SymBool, SymComplex, Unsupported, is_symb
from .cir import Ptr, Mem, ArrMem, CError, INT, FLT, PTR

CT = {"int": ("i", 32, np.int32), "inum": ("i", 64, np.int64), "int64_t": ("i", 64, np.int64), "long": ("i", 64, np.int64), "uint8_t": ("i", 8, np.uint8), "char": ("i", 8, np.int8), "float": ("f", 32, np.float32), "double": ("f", 64, np.float64),
      "np.complex128_t": ("c", 128, np.complex128), "np.complex64_t": ("c", 64, np.complex64), "np.float64_t": ("f", 64, np.float64), "np.float32_t": ("f", 32, np.float32),
      "np.uintp_t": ("p", 64, np.uintp), "uintptr_t": ("p", 64, np.uintp), "np.int32_t": ("i", 32, np.int32), "np.int64_t": ("i", 64, np.int64), "bint": ("i", 32, np.int32), "size_t": ("i", 64, np.int64), "int32_t": ("i", 32, np.int32)}
def ctype(n):
    n = n.replace("const ", "").replace("unsigned ", "u").strip()
    if n.endswith("*"): return ("p", 64, np.uintp)
    if n not in CT: raise Unsupported("C type %s" % n)
    return CT[n]
def ir_t(ct): return PTR if ct[0] == "p" else FLT["float" if ct[1] == 32 else "double"] if ct[0] == "f" else INT[ct[1]]


from .snp import RealView


_roots = {}
def root(a):
    while isinstance(a.base, np.ndarray): a = a.base
    return a


class MemView:
    """a typed memoryview"""
    def __init__(self, arr, ct, contig):
        self.real = isinstance(arr, RealView)
        self.arr = a = arr.arr if self.real else arr
        dt = S.effdtype(a)
        if dt == np.dtype(object): raise Unsupported("memoryview of an object array")
        want = np.dtype(ct[2])
        if self.real:
            ok = dt.kind == "c" and dt.itemsize == 2*want.itemsize
        else: ok = dt.kind == want.kind and dt.itemsize == want.itemsize
        if not ok: raise ValueError("Buffer dtype mismatch, expected %s but got %s" % (want, dt))
        if contig and not a.flags["C_CONTIGUOUS"]: raise ValueError("ndarray is not C-contiguous")
        self.ct, self.dt = ct, dt
    @property
    def shape(self): return RealView(self.arr).shape if self.real else self.arr.shape
    @property
    def ndim(self): return self.arr.ndim
    @property
    def size(self): return int(np.prod(self.shape))
    def __len__(self): return self.shape[0]
    def _idx(self, i):
        i = i if isinstance(i, tuple) else (i,)
        if len(i) != self.ndim: raise Unsupported("partial index of a memoryview")
        out = []
        for k, n in zip(i, self.shape):
            if is_symb(k): k = k.__index__()
            if k < 0: k += n
            if not 0 <= k < n: raise IndexError("Out of bounds on buffer access")
            out.append(int(k))
        return tuple(out)
    def addr(self, i):
        i = self._idx(i)
        r = root(self.arr)
        el = 0
        half = 0
        if self.real: half = i[-1] % 2; i = i[:-1]+(i[-1]//2,)
        base = self.arr.__array_interface__["data"][0]+sum(k*s for k, s in zip(i, self.arr.strides))-r.__array_interface__["data"][0]
        assert base % r.dtype.itemsize == 0
        isz = self.dt.itemsize
        return Ptr(ArrMem(r, self.dt), base//r.dtype.itemsize*isz+half*isz//2)
    def __getitem__(self, i):
        if any(isinstance(k, slice) for k in (i if isinstance(i, tuple) else (i,))): return MemView(self.arr[i], self.ct, False)
        p = self.addr(i)
        return p.mem.load(p.off, ir_t(self.ct))
    def __setitem__(self, i, v):
        p = self.addr(i)
        p.mem.store(p.off, ir_t(self.ct), v)
    def __array__(self, *a, **k): return np.asarray(self.arr)


class PtrView:
    """an array of addresses (np.uintp)"""
    def __init__(self, n): self.mem = Mem(8*n, "pointers"); self.n = n
    def _i(self, i):
        if is_symb(i): i = i.__index__()
        if not -self.n <= i < self.n: raise IndexError("Out of bounds on buffer access")
        return i % self.n
    def __getitem__(self, i): return self.mem.load(8*self._i(i), PTR)
    def __setitem__(self, i, v): self.mem.store(8*self._i(i), PTR, v)
    def addr(self, i): return Ptr(self.mem, 8*self._i(i))


class CArr:
    """a pointer variable with an element type: p[i], p[i] = v"""
    def __init__(self, p, ct): self.p, self.ct = p, ct
    def __getitem__(self, i):
        t = ir_t(self.ct); v = self.p.mem.load(self.p.off+int(i)*t.size, t)
        return CArr(v, self.ct) if self.ct[0] == "p" and isinstance(v, Ptr) else v
    def __setitem__(self, i, v):
        t = ir_t(self.ct); self.p.mem.store(self.p.off+int(i)*t.size, t, v.p if isinstance(v, CArr) else v)
    def addr(self, i): return Ptr(self.p.mem, self.p.off+int(i)*ir_t(self.ct).size)


class StructPtr:
    """a pointer to a C struct: p.field"""
    def __init__(self, p, st, names, ctypes): self.__dict__.update(_p=p, _st=st, _names=names, _ct=ctypes)
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        k = self._names.index(a)
        v = self._p.mem.load(self._p.off+self._st.offs[k], self._st.fields[k])
        return CArr(v, ctype(self._ct[k])) if isinstance(v, Ptr) else v


def structs(header):
    """field names and types of the structs of a header"""
    src = re.sub(r"//.*", "", open(header).read())
    out = {}
    for m in re.finditer(r"typedef\s+struct\s*\w*\s*\{([^}]*)\}\s*(\w+)\s*;", src):
        names, ts = [], []
        for d in m.group(1).split(";"):
            d = d.strip()
            if not d: continue
            md = re.match(r"((?:unsigned\s+|struct\s+)?\w+)\s*(.*)$", d, re.S)
            for x in md.group(2).split(","): names.append(x.replace("*", "").strip()); ts.append(md.group(1))
        out[m.group(2)] = (names, ts)
    return out


class Cell:
    """a pointer variable whose address is taken"""
    def __init__(self): self.mem = Mem(8, "pointer variable", zero=True)
    @property
    def v(self): return self.mem.load(0, PTR)
    @v.setter
    def v(self, x): self.mem.store(0, PTR, x)


def cast(tname, v):
    """assignment to a variable declared with a C type"""
    m = re.match(r"(.*?)\s*\[(.*)\]$", tname)
    if m:
        ct = ctype(m.group(1))
        if isinstance(v, (MemView, PtrView)): return v
        if ct[0] == "p": return PtrView(int(np.prod(v.shape)))
        if v is None: return None
        if not isinstance(v, (np.ndarray, RealView)): raise TypeError("a buffer is needed")
        if isinstance(v, np.ndarray): v = S.toarr(v)
        return MemView(v, ct, "::1" in m.group(2))
    if tname.endswith("*"):
        t = tname[:-1].strip()
        if isinstance(v, CArr) or v is None: return v
        try: return CArr(v, ctype(t)) if isinstance(v, Ptr) else v
        except Unsupported: return v
    if tname == "object" or tname.endswith("healpix_info"): return v
    ct = ctype(tname)
    if isinstance(v, np.ndarray): v = v.item()
    if ct[0] == "i":
        if isinstance(v, (bool, np.bool_)): return int(v)
        if isinstance(v, SymBool): return v.asint()
        if isinstance(v, np.integer): return int(v)
        if isinstance(v, float) or isinstance(v, Sym) and not v.isint: raise TypeError("expected int")
        return v
    if ct[0] == "f":
        return core.asfloat(v) if is_symb(v) else float(v)
    return v


class _CC:
    """<T> x"""
    def __init__(self, t): self.t = t
    def __pow__(self, v):
        if isinstance(v, Ptr) and self.t.endswith("*") or isinstance(v, CArr): return v
        if self.t.startswith(("np.uintp", "uintptr")): return v
        return cast(self.t, v)


def addr(x, *i):
    if isinstance(x, (MemView, PtrView, CArr)): return x.addr(i if len(i) > 1 else i[0])
    if isinstance(x, Ptr): raise Unsupported("address of an element of an untyped pointer")
    raise Unsupported("address of %r" % (x,))

def cview(t, n, p):
    ct = ctype(t); it = ir_t(ct)
    p = p.p if isinstance(p, CArr) else p
    vals = [p.mem.load(p.off+k*it.size, it) for k in range(int(n))]
    return S.objarr(vals, (len(vals),)).view(S.SymArr)


def carg(v):
    if isinstance(v, StructPtr): return v._p
    if isinstance(v, CArr): return v.p
    if isinstance(v, Cell): return v.v
    if isinstance(v, (bool, np.bool_)): return int(v)
    if isinstance(v, SymBool): return v.asint()
    if isinstance(v, np.integer): return int(v)
    if isinstance(v, np.floating): return float(v)
    if isinstance(v, np.ndarray): return carg(v.item() if v.dtype == object else v[()])
    return v


class CNS:
    """the C functions behind a cimported module"""
    def __init__(self, cfile): self.__dict__["_f"] = cfile
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        m = cir.module(self._f)
        if a not in m.funcs: raise Unsupported("C function %s" % a)
        f = m.funcs[a]
        def g(*args):
            if len(args) != len(f.args): raise TypeError("%s takes %d arguments" % (a, len(f.args)))
            conv = []
            for (t, _), v in zip(f.args, args):
                v = carg(v)
                if t.kind == "i" and isinstance(v, float): v = int(v)
                elif t.kind == "f" and not isinstance(v, float): v = core.asfloat(v) if is_symb(v) else float(v)
                elif t.kind == "p" and not (v is None or isinstance(v, Ptr)): raise Unsupported("%r passed as a pointer" % (v,))
                conv.append(v)
            r = cir.Interp(m).call(a, conv)
            if isinstance(r, Ptr):
                pxd = "".join(open(os.path.join(load.REPO, "cython", f)).read() for f in sorted(os.listdir(os.path.join(load.REPO, "cython"))) if f.endswith(".pxd"))
                mm = re.search(r"(\w+)\s*\*\s*%s\s*\(" % a, pxd)
                st = structs(os.path.join(load.REPO, self._f[:-2]+".h")).get(mm.group(1)) if mm else None
                if st: return StructPtr(r, m.struct("%struct."+mm.group(1)), *st)
            return r
        return g


def view(x, dt=None):
    """x.view(dtype)"""
    if dt is None: return x.view()
    if isinstance(dt, type) and issubclass(dt, np.ndarray): return x.view(dt)
    d, have = np.dtype(dt), S.effdtype(x)
    if d == have: return x
    if have.kind == "c" and d.kind == "f" and have.itemsize == 2*d.itemsize: return RealView(x)
    if have.kind in "iub" and d.kind in "iu" and d.itemsize == have.itemsize:
        if have.kind == "b": return S.setnom(S.toarr(x).astype(object).astype(int), d)
        r = x[...]
        return S.setnom(r, d) if r.dtype == object else np.ndarray.view(r, d)
    raise Unsupported("view of %s as %s" % (have, d))


TYPE = r"(?:const\s+|unsigned\s+)?(?:np\.|c\.)?(?:int|inum|int64_t|int32_t|uint8_t|char|float|double|long|bint|size_t|uintptr_t|object|complex128_t|complex64_t|float64_t|float32_t|uintp_t|int32_t|healpix_info|c\.healpix_info)\b"
MV = r"\s*\[[:,\d\s]*\]"


class Tr:
    def __init__(self, src, name):
        self.name = name
        src = src.expandtabs(4)
        out = []
        self.cimp = {}
        doc = False
        for l in self.join(src.split("\n")):
            k = l.count('"""')
            if doc or k: out.append(l); doc ^= k % 2 == 1
            else: out += self.line(l)
        self.text = "\n".join(out)
    def join(self, lines):
        """declarations that run over several lines"""
        buf = None
        for l in lines:
            if buf is not None:
                buf += " "+l.strip()
                if buf.count("(") <= buf.count(")"): yield buf; buf = None
            elif re.match(r"\s*(def|cdef|cpdef)\s", l) and l.count("(") > l.count(")"): buf = l
            else: yield l
    def line(self, l):
        ind = l[:len(l)-len(l.lstrip())]; s = l.strip()
        if not s or s.startswith("#"): return [""]
        s0 = s.split("#")[0].rstrip() if '"' not in s and "'" not in s else s
        m = re.match(r"cimport\s+([\w.]+)(?:\s+as\s+(\w+))?$", s0)
        if m:
            if m.group(1) not in ("numpy",) and not m.group(1).startswith("libc"): self.cimp[m.group(2) or m.group(1)] = m.group(1)
            return [""]
        m = re.match(r"from\s+(\S+)\s+cimport\s+(.*)", s0)
        if m:
            if m.group(1).startswith("libc"):
                return [ind+"from __symx_libc__ import %s" % m.group(2)] if m.group(1) in ("libc.stdlib", "libc.math") else [""]
            return [""]
        if s0 == "import cython" : return [""]
        s0 = re.sub(r"^import cython\s*,\s*", "import ", s0)
        # functions
        m = re.match(r"(def|cdef|cpdef)\s+(?:inline\s+)?((?:%s)(?:%s|\s*\*+)?\s+)?(\w+)\s*\((.*)\)\s*(?:except\s*[^:]*|nogil)?\s*:(.*)$" % (TYPE, MV), s0)
        if m and (m.group(1) == "def" or not re.match(r"cdef\s+class", s0)):
            args, casts = [], []
            for a in self.split(m.group(4)):
                a = a.strip()
                ma = re.match(r"(%s(?:%s)?(?:\s*\*+)?)\s+\*?(\w+)(\s*=.*)?$" % (TYPE, MV), a) or re.match(r"(%s(?:%s)?\s*\*+)\s*(\w+)(\s*=.*)?$" % (TYPE, MV), a)
                if ma:
                    args.append(ma.group(2)+(ma.group(3) or ""))
                    casts.append(ind+"    "+"__cy_decl__(%r, %r); %s = __cy_cast__(%r, %s)" % (ma.group(2), norm(ma.group(1)), ma.group(2), norm(ma.group(1)), ma.group(2)))
                else: args.append(a)
            rest = m.group(5).strip()
            head = ind+"def %s(%s):" % ({"__dealloc__": "__symx_dealloc__"}.get(m.group(3), m.group(3)), ", ".join(args))
            if rest: return [head]+casts+[ind+"    "+self.expr(rest)]
            return [head]+casts
        # declarations
        m = re.match(r"cdef\s+(%s)((?:%s)?)\s*(.*)$" % (TYPE, MV), s0)
        if m and not s0.endswith(":"):
            tb, mv, rest = m.group(1), m.group(2), m.group(3).rstrip(";")
            out = []
            for d in self.split(rest):
                d = d.strip()
                md = re.match(r"(\**)\s*(\w+)\s*(?:=(?!=)\s*(.*))?$", d)
                if not md: raise Unsupported("declaration %s" % s)
                t = norm(tb+mv.replace(" ", "")+md.group(1))
                out.append("__cy_decl__(%r, %r)" % (md.group(2), t))
                if md.group(3) is not None: out.append("%s = %s" % (md.group(2), self.expr(md.group(3))))
            return [ind+"; ".join(out)]
        m = re.match(r"cdef\s+class\s+(\w+)\s*:$", s0)
        if m: return [ind+"class %s:" % m.group(1)]
        m = re.match(r"cdef\s+(\w+)\s*=\s*(.*)$", s0)
        if m: return [ind+"%s = %s" % (m.group(1), self.expr(m.group(2)))]
        if re.match(r"cdef\s", s0): raise Unsupported("declaration %s" % s)
        return [ind+self.expr(l.strip() if s0 == s or '"' in s else s0)]
    def split(self, s):
        out, d, cur = [], 0, ""
        for ch in s:
            d += (ch in "([{")-(ch in ")]}")
            if ch == "," and d == 0: out.append(cur); cur = ""
            else: cur += ch
        if cur.strip(): out.append(cur)
        return out
    def expr(self, s):
        if s.startswith(('"', "'")): return s
        s = re.sub(r"sizeof\(([^()]*)\)", lambda m: "__cy_sizeof__(%r)" % norm(m.group(1)), s)
        # <T[:n]> p
        s = re.sub(r"<\s*(%s)\s*\[\s*:\s*([^\]]+?)\s*\]\s*>\s*([\w.]+)" % TYPE, lambda m: "__cy_view__(%r, %s, %s)" % (norm(m.group(1)), m.group(2), m.group(3)), s)
        # &x[i] and &x
        def amp(m):
            pre, nm = m.group(1), m.group(2)
            return pre+"__cy_addr__(%s" % nm
        out = ""; k = 0
        pat = re.compile(r"(^|[(,=>]|\breturn\b)(\s*)&\s*([A-Za-z_][\w.]*)")
        while True:
            m = pat.search(s, k)
            if not m: out += s[k:]; break
            out += s[k:m.start()]+m.group(1)+m.group(2)
            j = m.end()
            if j < len(s) and s[j] == "[":
                d = 0; e = j
                while True:
                    d += (s[e] == "[")-(s[e] == "]"); e += 1
                    if d == 0: break
                out += "__cy_addr__(%s, %s)" % (m.group(3), s[j+1:e-1]); k = e
            else: out += "__cy_addrof__(%s)" % m.group(3); k = j
        s = out
        s = re.sub(r"(^|[(,=]\s*|\breturn\s+)<\s*(%s(?:\s*\*+)?)\s*>\s*" % TYPE, lambda m: m.group(1)+"__cy_cc__(%r) ** " % norm(m.group(2)), s)
        s = re.sub(r"\bNULL\b", "None", s)
        return s.rstrip(";") if not s.endswith('"') else s


def norm(t): return re.sub(r"\s*\*", "*", re.sub(r"\s+", " ", t.strip())).replace("const ", "")


class Decl(ast.NodeTransformer):
    """casts on assignment to declared variables; variables whose address is taken become cells"""
    def visit_FunctionDef(self, n):
        decl = {}; cells = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                if x.func.id == "__cy_decl__": decl[x.args[0].value] = x.args[1].value
                if x.func.id == "__cy_addrof__" and isinstance(x.args[0], ast.Name): cells.add(x.args[0].id)
        class B(ast.NodeTransformer):
            def visit_Expr(s, e):
                if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "__cy_decl__":
                    nm = e.value.args[0].value
                    if nm in cells: return ast.copy_location(ast.Assign([ast.Name(nm, ast.Store())], ast.Call(ast.Name("__cy_cell__", ast.Load()), [], [])), e)
                    return ast.copy_location(ast.Pass(), e)
                return s.generic_visit(e)
            def visit_Assign(s, e):
                s.generic_visit(e)
                if len(e.targets) == 1 and isinstance(e.targets[0], ast.Attribute): return e
                out = []
                def wrap(nm, v):
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("__cy_cell__", "__cy_cast__"): return v
                    return ast.Call(ast.Name("__cy_cast__", ast.Load()), [ast.Constant(decl[nm]), v], [])
                if len(e.targets) == 1 and isinstance(e.targets[0], ast.Name) and e.targets[0].id in decl: e.value = wrap(e.targets[0].id, e.value)
                elif len(e.targets) == 1 and isinstance(e.targets[0], ast.Tuple) and any(isinstance(t, ast.Name) and t.id in decl for t in e.targets[0].elts):
                    post = [ast.Assign([ast.Name(t.id, ast.Store())], wrap(t.id, ast.Name(t.id, ast.Load()))) for t in e.targets[0].elts if isinstance(t, ast.Name) and t.id in decl]
                    return [e]+[ast.copy_location(p, e) for p in post]
                return e
            def visit_Name(s, e):
                if e.id in cells:
                    return ast.copy_location(ast.Attribute(ast.Name(e.id, ast.Load()), "v", e.ctx), e)
                return e
            def visit_Call(s, e):
                if isinstance(e.func, ast.Name) and e.func.id == "__cy_addrof__": return ast.copy_location(ast.Call(ast.Name("__cy_ptr__", ast.Load()), e.args, []), e)
                s.generic_visit(e)
                if isinstance(e.func, ast.Attribute) and e.func.attr == "view" and len(e.args) == 1:
                    return ast.copy_location(ast.Call(ast.Name("__cy_npview__", ast.Load()), [e.func.value]+e.args, []), e)
                return e
        n.body = [y for x in n.body for y in (lambda r: r if isinstance(r, list) else [r])(B().visit(x))]
        return n


libc = types.ModuleType("__symx_libc__")
def _free(p):
    if isinstance(p, CArr): p = p.p
    cir.Interp(None).extern("free", [p])
libc.free = _free
libc.calloc = lambda n, s: cir.Interp(None).extern("calloc", [int(n), int(s)])
libc.malloc = lambda n: cir.Interp(None).extern("malloc", [int(n)])
libc.atan2 = lambda a, b: S._arctan2(a, b)


def sizeof(t):
    return ir_t(ctype(t)).size


_mods = {}
def loadmod(name):
    """the Cython module of that name as a python module"""
    if name in _mods: return _mods[name]
    path = os.path.join(load.REPO, "cython", name+".pyx")
    tr = Tr(open(path).read(), name)
    tree = ast.parse(tr.text, path)
    tree = Decl().visit(tree)
    tree = ast.fix_missing_locations(load.Calls().visit(ast.fix_missing_locations(tree)))
    mod = types.ModuleType("pixell."+name)
    b = dict(load.sym_builtins())
    imp0 = b["__import__"]
    def imp(nm, g=None, l=None, fromlist=(), level=0):
        if nm == "__symx_libc__": return libc
        return imp0(nm, g, l, fromlist, level)
    b["__import__"] = imp
    mod.__dict__.update(__builtins__=b, __cy_cast__=cast, __cy_addr__=addr, __cy_cc__=_CC, __cy_view__=cview, __cy_cell__=Cell, __cy_sizeof__=sizeof,
                        __cy_decl__=lambda *a: None, __cy_ptr__=lambda c: Ptr(c.mem, 0), __cy_npview__=view, __file__=path)
    for k in tr.cimp: mod.__dict__[k] = CNS("cython/%s_core.c" % name)
    exec(compile(tree, path, "exec", dont_inherit=True), mod.__dict__)
    _mods[name] = mod
    return mod


def register(name):
    """let symbolic execution follow the functions of a Cython module"""
    mod = loadmod(name)
    for k, v in mod.__dict__.items():
        if isinstance(v, types.FunctionType) and not k.startswith("__cy"): load.StubExt.impl[(name, k)] = v
    load.StubExt.impl[(name, "nditer")] = mod.__dict__.get("nditer")
    return mod
