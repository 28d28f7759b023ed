"""Symbolic execution of pixell's C sources.

A C file of /repo is translated to LLVM IR by clang (no optimisation beyond mem2reg and simplifycfg, OpenMP
pragmas ignored: one thread) and the IR is interpreted over the terms of symx.core. Memory is a set of separate
objects; a pointer is (object, byte offset); an access outside its object, through a null pointer or to freed
memory, or the use of an uninitialised value, raises CError. Arrays of the calling python code are objects
whose cells are the array's elements.
"""
import re, os, math, subprocess, hashlib
from fractions import Fraction
import numpy as np
from . import core, load
from .core import Sym, SymBool, SymComplex, Unsupported, is_symb, ite, b_and, b_or, b_not, b_xor, s_trunc, asfloat


class CError(Exception):
    """the C code does something that C does not define"""


# ------------------------------------------------------------ types

class T:
    def __init__(self, kind, bits=0, elem=None, n=0, fields=None):
        self.kind, self.bits, self.elem, self.n, self.fields = kind, bits, elem, n, fields
        if kind == "i": self.size = max(1, bits//8); self.align = self.size
        elif kind == "f": self.size = self.align = bits//8
        elif kind == "p": self.size = self.align = 8
        elif kind == "a": self.size = elem.size*n; self.align = elem.align
        elif kind == "s":
            off, al, self.offs = 0, 1, []
            for f in fields:
                off = -(-off//f.align)*f.align
                self.offs.append(off); off += f.size; al = max(al, f.align)
            self.size, self.align = -(-off//al)*al, al
        else: self.size = self.align = 0

INT = {b: T("i", b) for b in (1, 8, 16, 32, 64, 128)}
FLT = {"float": T("f", 32), "double": T("f", 64)}
PTR = T("p"); VOID = T("v")


class Undef:
    def __repr__(self): return "uninitialised value"
UNDEF = Undef()
def _bad(*a): raise CError("use of an uninitialised value")
for _n in "add radd sub rsub mul rmul truediv rtruediv neg abs lt le gt ge eq ne bool index int float".split(): setattr(Undef, "__%s__" % _n, _bad)
Undef.__hash__ = lambda s: 0


class Mem:
    """a memory object"""
    nobj = 0
    def __init__(self, size, name="", zero=False):
        self.size, self.name, self.zero, self.freed = size, name, zero, False
        self.cells = {}
        Mem.nobj += 1; self.id = Mem.nobj
    def _chk(self, off, size):
        if self.freed: raise CError("access to freed memory (%s)" % self.name)
        if off < 0 or off+size > self.size: raise CError("access outside a memory object: offset %d size %d of %d (%s)" % (off, size, self.size, self.name))
    def load(self, off, t):
        self._chk(off, t.size)
        c = self.cells.get(off)
        if c is not None:
            v, s = c
            if s == t.size: return v
            if isinstance(v, int) and t.kind == "i" and t.size < s: return v & ((1 << t.bits)-1)
            raise Unsupported("load that splits a stored value")
        for o in range(max(0, off-15), off+t.size):
            if o in self.cells and o+self.cells[o][1] > off: raise Unsupported("load across stored values")
        if self.zero: return 0.0 if t.kind == "f" else None if t.kind == "p" else 0
        return UNDEF
    def store(self, off, t, v):
        self._chk(off, t.size)
        for o in range(max(0, off-15), off+t.size):
            if o in self.cells and o != off and o+self.cells[o][1] > off:
                if self.cells[o][0] is UNDEF or o > off and o+self.cells[o][1] <= off+t.size: del self.cells[o]
                else: raise Unsupported("store that splits a stored value")
        self.cells[off] = (v, t.size)
    def copyto(self, off, dst, doff, n):
        if n == 0: return
        self._chk(off, n); dst._chk(doff, n)
        new = {}
        o = off
        for o, (v, s) in self.cells.items():
            if o >= off and o+s <= off+n: new[doff+o-off] = (v, s)
            elif o+s > off and o < off+n: raise Unsupported("copy that splits a stored value")
        for o in [o for o, (v, s) in dst.cells.items() if o < doff+n and o+s > doff]: del dst.cells[o]
        if self.zero and not dst.zero:
            raise Unsupported("copy from zeroed to other memory") if len(new) == 0 else None
        dst.cells.update(new)
    def fill(self, off, n, byte):
        if n == 0: return
        self._chk(off, n)
        for o in [o for o, (v, s) in self.cells.items() if o < off+n and o+s > off]: del self.cells[o]
        if byte == 0 and off == 0 and n == self.size: self.zero = True
        else: raise Unsupported("memset")


def itemsize(dt): return np.dtype(dt).itemsize


class ArrMem:
    """the memory of a python array; dt: the dtype it has in numpy"""
    def __init__(self, root, dt):
        self.root, self.dt = root, np.dtype(dt)
        self.flat = root.view(np.ndarray).reshape(-1) if root.flags["C_CONTIGUOUS"] else root.view(np.ndarray).T.reshape(-1)
        assert np.shares_memory(self.flat, root) or root.size == 0
        self.size = self.flat.size*self.dt.itemsize
        self.freed = False; self.name = "array%s" % (root.shape,)
    def _at(self, off, t):
        if off < 0 or off+t.size > self.size: raise CError("access outside an array: byte %d of %d (%s)" % (off, self.size, self.name))
        isz = self.dt.itemsize
        i, r = divmod(off, isz)
        if self.dt.kind == "c":
            if t.kind != "f" or t.size*2 != isz or r not in (0, isz//2): raise CError("misaligned or mistyped access to a complex array")
            return i, 1 if r else 0
        if r or t.size != isz or (t.kind == "f") != (self.dt.kind == "f"): raise CError("mistyped access to a %s array (%s%d at byte %d)" % (self.dt, t.kind, t.bits, r))
        return i, None
    def load(self, off, t):
        i, part = self._at(off, t)
        v = self.flat[i]
        if part is not None:
            v = SymComplex.lift(v)
            return v.im if part else v.re
        if isinstance(v, (bool, np.bool_)): return int(v)
        if isinstance(v, SymBool): return v.asint()
        if isinstance(v, np.integer): return int(v)
        if t.kind == "f" and isinstance(v, int): return float(v)
        return v
    def store(self, off, t, v):
        i, part = self._at(off, t)
        if v is UNDEF: raise CError("an uninitialised value is stored in an array")
        if self.flat.dtype != object:
            if is_symb(v):
                if self.flat.dtype.kind in "iu": v = v.__index__()
                else: raise Unsupported("symbolic value stored in a native array")
            if part is not None: v = complex(v, self.flat[i].imag) if part == 0 else complex(self.flat[i].real, v)
            self.flat[i] = v; return
        if part is not None:
            o = SymComplex.lift(self.flat[i])
            self.flat[i] = SymComplex(v, o.im) if part == 0 else SymComplex(o.re, v)
        else: self.flat[i] = v
    def copyto(self, off, dst, doff, n):
        t = FLT["double"] if self.dt.kind == "c" and self.dt.itemsize == 16 or self.dt == np.float64 else FLT["float"] if self.dt.kind in "fc" else INT[self.dt.itemsize*8]
        vals = [self.load(off+k, t) for k in range(0, n, t.size)]
        for j, v in enumerate(vals): dst.store(doff+j*t.size, t, v)
    def fill(self, off, n, byte):
        if byte: raise Unsupported("memset of an array")
        t = FLT["double"] if self.dt.kind == "c" and self.dt.itemsize == 16 or self.dt == np.float64 else FLT["float"] if self.dt.kind in "fc" else INT[self.dt.itemsize*8]
        for k in range(0, n, t.size): self.store(off+k, t, 0.0 if t.kind == "f" else 0)


class Ptr:
    __slots__ = ("mem", "off")
    def __init__(self, mem, off=0): self.mem, self.off = mem, off
    def __eq__(self, o): return isinstance(o, Ptr) and self.mem is o.mem and self.off == o.off
    def __hash__(self): return hash((id(self.mem), self.off))
    def __repr__(self): return "Ptr(%s+%s)" % (self.mem.name, self.off)


class FuncRef:
    def __init__(self, name): self.name = name


# ------------------------------------------------------------ parsing

_tok = re.compile(r'\s*(c"(?:[^"\\]|\\..)*"|"(?:[^"\\]|\\.)*"|%"[^"]*"|%[\w.$-]+|@[\w.$-]+|0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|!\w*|#\d+|\.\.\.|.)')
def toks(s): return [m for m in _tok.findall(s) if m.strip()]

ATTRS = set("noundef nonnull noalias nocapture readonly writeonly readnone immarg signext zeroext nsw nuw exact inbounds fast nnan ninf nsz arcp contract afn reassoc dso_local tail notail musttail returned nofree nosync noundef volatile inreg mustprogress disjoint nneg ".split())


class P:
    """token stream"""
    def __init__(self, mod, tk): self.m, self.t, self.i = mod, tk, 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i]; self.i += 1; return v
    def accept(self, *v):
        if self.peek() in v: self.i += 1; return True
        return False
    def expect(self, v):
        n = self.next()
        if n != v: raise Unsupported("IR syntax: %r instead of %r in %s" % (n, v, " ".join(self.t)))
    def attrs(self):
        while True:
            p = self.peek()
            if p in ATTRS: self.i += 1
            elif p in ("align", "dereferenceable", "dereferenceable_or_null"):
                self.i += 1
                if self.accept("("): self.next(); self.expect(")")
                elif p == "align": self.next()
            else: return
    def type(self):
        n = self.next()
        if n == "ptr": return PTR
        if n == "void": return VOID
        if n in FLT: return FLT[n]
        if re.fullmatch(r"i\d+", n): return INT.get(int(n[1:])) or T("i", int(n[1:]))
        if n == "[":
            k = int(self.next()); self.expect("x"); e = self.type(); self.expect("]")
            return T("a", elem=e, n=k)
        if n == "{":
            fs = []
            while not self.accept("}"):
                fs.append(self.type()); self.accept(",")
            return T("s", fields=fs)
        if n.startswith("%"): return self.m.struct(n)
        raise Unsupported("IR type %r" % n)
    def value(self, t):
        """returns ('c', const) or ('r', register)"""
        n = self.next()
        if n.startswith("%"): return ("r", n)
        if n.startswith("@"): return ("g", n)
        if n in ("null", "zeroinitializer"): return ("c", zero(t))
        if n in ("undef", "poison"): return ("c", UNDEF)
        if n == "true": return ("c", 1)
        if n == "false": return ("c", 0)
        if n.startswith("0x"):
            import struct
            return ("c", struct.unpack("<d", struct.pack("<Q", int(n[2:], 16)))[0])
        if t.kind == "f": return ("c", float(n))
        if re.fullmatch(r"-?\d+", n): return ("c", int(n))
        if n == "getelementptr":
            self.attrs(); self.expect("(")
            st = self.type(); self.expect(","); self.type(); b = self.value(PTR)
            idx = []
            while self.accept(","):
                it = self.type(); idx.append(self.value(it))
            self.expect(")")
            return ("gep", st, b, idx)
        if n == "[" or n == "c" or n == "{": raise Unsupported("aggregate constant")
        raise Unsupported("IR value %r in %s" % (n, " ".join(self.t)))


def zero(t): return 0.0 if t.kind == "f" else None if t.kind == "p" else 0


class Func:
    def __init__(self, name, ret, args): self.name, self.ret, self.args, self.blocks, self.order = name, ret, args, {}, []


class Module:
    def __init__(self, text, name):
        self.name, self.structs, self.structsrc, self.funcs, self.globsrc, self.decl = name, {}, {}, {}, {}, {}
        self.parse(text)
        self.reset()
    def reset(self): self.globals = {}
    def struct(self, n):
        if n not in self.structs:
            src = self.structsrc[n]
            tk = toks(src); self.structs[n] = None
            self.structs[n] = P(self, tk).type() if tk[0] == "{" else T("s", fields=[])
        return self.structs[n]
    def parse(self, text):
        lines = text.split("\n"); i = 0
        for l in lines:
            m = re.match(r"(%[\w.]+) = type (.*)", l)
            if m: self.structsrc[m.group(1)] = m.group(2)
        cur = None; blk = None
        while i < len(lines):
            l = lines[i].split(" ; ")[0].rstrip(); i += 1
            if cur is None:
                if l.startswith("define"):
                    p = P(self, toks(l)); p.next()
                    while p.peek() in ("dso_local", "internal", "noalias", "signext", "zeroext", "linkonce_odr", "private") or p.peek() in ATTRS: p.next()
                    ret = p.type(); nm = p.next()[1:]; p.expect("(")
                    args = []
                    while not p.accept(")"):
                        t = p.type(); p.attrs(); args.append((t, p.next())); p.accept(",")
                    cur = Func(nm, ret, args); self.funcs[nm] = cur
                    # the entry block is named after the number of arguments
                    blk = "%"+str(len(args)) if all(re.fullmatch(r"%\d+", a[1]) for a in args) else "%entry"
                    cur.blocks[blk] = []; cur.entry = blk
                elif l.startswith("@"):
                    m = re.match(r"(@[\w.$]+) = (.*)", l); self.globsrc[m.group(1)] = m.group(2)
                elif l.startswith("declare"):
                    p = P(self, toks(l)); p.next(); p.attrs(); t = p.type(); self.decl[p.next()[1:]] = t
                continue
            if l == "}": cur = None; continue
            if not l.strip(): continue
            m = re.match(r'^("?[\w.$-]+"?):', l)
            if m:
                blk = "%"+m.group(1); cur.blocks[blk] = []; continue
            l = re.sub(r", !.*$", "", l); l = re.sub(r"#\d+$", "", l.rstrip())
            if re.match(r"\s*switch ", l):
                while "]" not in l: l += " "+lines[i].strip(); i += 1
            cur.blocks[blk].append(self.instr(l))
    def instr(self, l):
        p = P(self, toks(l)); dst = None
        if len(p.t) > 1 and p.t[1] == "=": dst = p.next(); p.next()
        while p.peek() in ("tail", "notail", "musttail"): p.next()
        op = p.next()
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "ashr", "lshr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            p.attrs(); t = p.type(); a = p.value(t); p.expect(","); return (op, dst, t, a, p.value(t))
        if op == "fneg": p.attrs(); t = p.type(); return (op, dst, t, p.value(t))
        if op in ("icmp", "fcmp"):
            p.attrs(); c = p.next(); t = p.type(); a = p.value(t); p.expect(","); return (op, dst, c, t, a, p.value(t))
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr"):
            p.attrs(); t = p.type(); a = p.value(t); p.expect("to"); return (op, dst, t, a, p.type())
        if op == "alloca":
            t = p.type(); n = ("c", 1)
            if p.accept(","):
                if p.peek() != "align": nt = p.type(); n = p.value(nt)
            return (op, dst, t, n)
        if op == "load":
            p.attrs(); t = p.type(); p.expect(","); p.type(); return (op, dst, t, p.value(PTR))
        if op == "store":
            p.attrs(); t = p.type(); v = p.value(t); p.expect(","); p.type(); return (op, dst, t, v, p.value(PTR))
        if op == "getelementptr":
            p.attrs(); t = p.type(); p.expect(","); p.type(); b = p.value(PTR); idx = []
            while p.accept(","):
                it = p.type(); idx.append(p.value(it))
            return (op, dst, t, b, idx)
        if op == "br":
            if p.accept("label"): return (op, dst, p.next())
            p.type(); c = p.value(INT[1]); p.expect(","); p.expect("label"); a = p.next(); p.expect(","); p.expect("label"); return ("cbr", dst, c, a, p.next())
        if op == "switch":
            t = p.type(); v = p.value(t); p.expect(","); p.expect("label"); d = p.next(); p.expect("["); cs = []
            while not p.accept("]"):
                ct = p.type(); c = p.value(ct); p.expect(","); p.expect("label"); cs.append((c[1], p.next()))
            return (op, dst, v, d, cs)
        if op == "ret":
            t = p.type(); return (op, dst, t, None if t is VOID else p.value(t))
        if op == "phi":
            p.attrs(); t = p.type(); ins = {}
            while True:
                p.expect("["); v = p.value(t); p.expect(","); b = p.next(); p.expect("]"); ins[b] = v
                if not p.accept(","): break
            return (op, dst, t, ins)
        if op == "select":
            p.attrs(); p.type(); c = p.value(INT[1]); p.expect(","); t = p.type(); a = p.value(t); p.expect(","); p.type(); return (op, dst, t, c, a, p.value(t))
        if op == "call":
            while p.peek() in ATTRS or p.peek() in ("align", "dereferenceable"): p.attrs()
            rt = p.type()
            if p.peek() == "(":           # varargs function type
                d = 0
                while True:
                    n = p.next(); d += (n == "(")-(n == ")")
                    if d == 0: break
            f = p.next(); p.expect("("); args = []
            while not p.accept(")"):
                t = p.type(); p.attrs(); args.append((t, p.value(t))); p.accept(",")
            return (op, dst, rt, f, args)
        if op == "unreachable": return (op, dst)
        if op in ("extractvalue", "insertvalue"): raise_ = l; return ("unsup", dst, raise_)
        return ("unsup", dst, l)
    # ---- globals
    def glob(self, n):
        if n not in self.globals:
            nm = n[1:]
            if nm in self.funcs or nm in self.decl: self.globals[n] = FuncRef(nm); return self.globals[n]
            src = self.globsrc[n]
            src = re.sub(r", align \d+$", "", src)
            p = P(self, toks(src))
            ext = False
            while p.peek() in ("dso_local", "private", "unnamed_addr", "internal", "global", "constant", "external", "local_unnamed_addr", "common"): ext |= p.next() == "external"
            t = p.type(); mem = Mem(t.size, n, zero=True)
            if not ext: self.init(p, t, mem, 0)
            self.globals[n] = Ptr(mem, 0)
        return self.globals[n]
    def init(self, p, t, mem, off):
        k = p.peek()
        if k == "zeroinitializer": p.next(); return
        if t.kind == "a" and k == "[":
            p.next(); i = 0
            while not p.accept("]"):
                p.type(); self.init(p, t.elem, mem, off+i*t.elem.size); i += 1; p.accept(",")
        elif t.kind == "s" and k == "{":
            p.next(); i = 0
            while not p.accept("}"):
                p.type(); self.init(p, t.fields[i], mem, off+t.offs[i]); i += 1; p.accept(",")
        elif k.startswith('c"'): p.next()
        else: mem.store(off, t, Interp(self).val(p.value(t), {}))


_cache = {}
def module(cfile, extra=()):
    """the IR of a C file of the repository, from its current contents"""
    path = os.path.join(load.REPO, cfile)
    if path in _cache: _cache[path].reset(); return _cache[path]
    inc = os.path.join(os.path.dirname(os.path.abspath(__file__)), "inc")
    d = os.path.join(load.scratch(), "ir"); os.makedirs(d, exist_ok=True)
    ll = os.path.join(d, os.path.basename(cfile)+".%d.ll" % os.getpid())
    load._run(["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", "-w", "-std=gnu99", "-ffp-contract=off", "-fno-vectorize", "-I"+inc, "-I"+os.path.dirname(path), path, "-o", ll], d)
    load._run(["opt-18", "-S", "-passes=mem2reg,simplifycfg", ll, "-o", ll+".o"], d)
    m = Module(open(ll+".o").read(), cfile)
    os.unlink(ll); os.unlink(ll+".o")
    _cache[path] = m
    return m


# ------------------------------------------------------------ execution

def _wrap(v, bits):
    if isinstance(v, int):
        v &= (1 << bits)-1
        return v-(1 << bits) if v >> (bits-1) and bits > 1 else v
    return v
def _uns(v, bits):
    return v & ((1 << bits)-1) if isinstance(v, int) else v
def _cdiv(a, b):
    if not is_symb(b) and b == 0: raise CError("division by zero")
    if not is_symb(a) and not is_symb(b):
        q = abs(a)//abs(b); return q if (a >= 0) == (b >= 0) else -q
    if is_symb(b) and bool(b == 0): raise CError("division by zero")
    return s_trunc(Sym.lift(a)/Sym.lift(b)) if is_symb(a/b) else int(a/b)


def _int(v):
    """a truth value as an integer"""
    if isinstance(v, (bool, np.bool_)): return int(v)
    if isinstance(v, SymBool): return v.asint()
    return v


LIBM = {}
class Interp:
    limit = 3000000
    def __init__(self, mod): self.m = mod; self.steps = 0; self.allocs = []
    def val(self, v, env):
        k = v[0]
        if k == "r": return env[v[1]]
        if k == "c": return v[1]
        if k == "g": return self.m.glob(v[1])
        return self.gep(v[1], self.val(v[2], env), [self.val(x, env) for x in v[3]])
    def gep(self, t, b, idx):
        off = 0
        for k, i in enumerate(idx):
            if isinstance(i, (Sym, SymBool)): i = i.__index__()
            if i is UNDEF: _bad()
            if k == 0: off += i*t.size
            elif t.kind == "s": off += t.offs[i]; t = t.fields[i]
            else: t = t.elem; off += i*t.size
        if b is None:
            if off == 0: return None
            raise CError("arithmetic on a null pointer")
        if b is UNDEF: _bad()
        return Ptr(b.mem, b.off+off)
    def call(self, name, args):
        f = self.m.funcs.get(name)
        if f is None: return self.extern(name, args)
        core.E().__dict__.setdefault("extra_funcs", set()).add("%s:%s" % (self.m.name, name)) if core.Engine.cur else None
        env = {a[1]: v for a, v in zip(f.args, args)}
        cur, prev = f.entry, None
        while True:
            blk = f.blocks[cur]
            k = 0
            # phis read their inputs at once
            ph = []
            while k < len(blk) and blk[k][0] == "phi":
                ph.append((blk[k][1], self.val(blk[k][3][prev], env))); k += 1
            for d, v in ph: env[d] = v
            nxt = None
            while k < len(blk):
                self.steps += 1
                if self.steps > self.limit: raise Unsupported("too many steps in C code")
                ins = blk[k]; k += 1; op = ins[0]
                if op == "br": nxt = ins[2]; break
                if op == "cbr":
                    c = self.val(ins[2], env)
                    if c is UNDEF: _bad()
                    if isinstance(c, Sym): c = c != 0
                    nxt = ins[3] if bool(c) else ins[4]; break
                if op == "ret": return None if ins[3] is None else self.val(ins[3], env)
                if op == "switch":
                    v = self.val(ins[2], env)
                    if isinstance(v, Sym): v = v.__index__()
                    nxt = dict(ins[4]).get(v, ins[3]); break
                if op == "unreachable": raise CError("unreachable code reached")
                r = self.ex(ins, env)
                if ins[1] is not None: env[ins[1]] = r
            prev, cur = cur, nxt
    def ex(self, ins, env):
        op = ins[0]
        if op in ("add", "sub", "mul", "and", "or", "xor", "sdiv", "udiv", "srem", "urem", "shl", "ashr", "lshr"):
            t, a, b = ins[2], self.val(ins[3], env), self.val(ins[4], env)
            if a is UNDEF or b is UNDEF: _bad()
            return self.iop(op, t.bits, a, b)
        if op[0] == "f" and op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = self.val(ins[3], env), self.val(ins[4], env)
            if a is UNDEF or b is UNDEF: _bad()
            return fop(op, a, b)
        if op == "fneg": return -self.val(ins[3], env)
        if op == "load":
            p = self.val(ins[3], env)
            if p is None: raise CError("load through a null pointer")
            if p is UNDEF: _bad()
            return p.mem.load(p.off, ins[2])
        if op == "store":
            p = self.val(ins[4], env)
            if p is None: raise CError("store through a null pointer")
            if p is UNDEF: _bad()
            p.mem.store(p.off, ins[2], self.val(ins[3], env)); return None
        if op == "getelementptr": return self.gep(ins[2], self.val(ins[3], env), [self.val(x, env) for x in ins[4]])
        if op == "icmp": return self.icmp(ins[2], ins[3], self.val(ins[4], env), self.val(ins[5], env))
        if op == "fcmp":
            a, b = self.val(ins[4], env), self.val(ins[5], env)
            if a is UNDEF or b is UNDEF: _bad()
            return fcmp(ins[2], a, b)
        if op == "select":
            c = self.val(ins[3], env)
            if c is UNDEF: _bad()
            a, b = self.val(ins[4], env), self.val(ins[5], env)
            if isinstance(c, Sym): c = c != 0
            if isinstance(c, SymBool):
                if ins[2].kind == "p" or a is UNDEF or b is UNDEF: c = bool(c)
                elif ins[2].bits == 1: return _int(b_or(b_and(c, tob(a)), b_and(b_not(c), tob(b))))
                else: return ite(c, a, b)
            return a if c else b
        if op in ("sext", "zext", "trunc"):
            v = self.val(ins[3], env)
            if v is UNDEF: return v
            if op == "zext": v = _uns(v, ins[2].bits)
            elif op == "sext" and ins[2].bits == 1: v = -v
            return _wrap(v, ins[4].bits) if op == "trunc" or ins[4].bits else v
        if op in ("sitofp", "uitofp"):
            v = self.val(ins[3], env)
            if v is UNDEF: _bad()
            return asfloat(v) if is_symb(v) else float(v)
        if op in ("fptosi", "fptoui"):
            v = self.val(ins[3], env)
            if v is UNDEF: _bad()
            if is_symb(v): return s_trunc(v)
            if not math.isfinite(v) or abs(v) >= 2**63: return UNDEF      # poison: an error only where it is used
            return int(v)
        if op in ("fpext", "fptrunc"): return self.val(ins[3], env)
        if op == "bitcast": return self.val(ins[3], env)
        if op in ("ptrtoint", "inttoptr"):
            return self.val(ins[3], env)
        if op == "alloca":
            n = self.val(ins[3], env)
            return Ptr(Mem(ins[2].size*int(n), "local"), 0)
        if op == "call": return self.docall(ins, env)
        raise Unsupported("IR instruction %s" % (ins[2] if op == "unsup" else op,))
    def docall(self, ins, env):
        f = ins[3]
        args = [self.val(v, env) for t, v in ins[4]]
        if f.startswith("%"):
            f = self.val(("r", f), env)
            if not isinstance(f, FuncRef): raise CError("call through a bad pointer")
            name = f.name
        else: name = f[1:]
        return self.call(name, args)
    def iop(self, op, bits, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.mem is b.mem: return a.off-b.off
            raise Unsupported("pointer arithmetic on integers")
        if bits == 1 and op in ("and", "or", "xor"):
            a, b = tob(a), tob(b)
            return _int({"and": b_and, "or": b_or, "xor": b_xor}[op](a, b))
        if op in ("sdiv", "udiv"): return _wrap(_cdiv(a, b) if op == "sdiv" else _cdiv(_uns(a, bits), _uns(b, bits)), bits)
        if op in ("srem", "urem"):
            if op == "urem": a, b = _uns(a, bits), _uns(b, bits)
            return _wrap(a-b*_cdiv(a, b), bits)
        if op == "add": r = a+b
        elif op == "sub": r = a-b
        elif op == "mul": r = a*b
        elif op == "shl":
            if is_symb(b): b = b.__index__()
            r = a*(1 << b)
        elif op in ("ashr", "lshr"):
            if is_symb(b): b = b.__index__()
            if is_symb(a): r = a//(1 << b)
            else: r = (a if op == "ashr" else _uns(a, bits)) >> b
        else:
            if is_symb(a): a = a.__index__()
            if is_symb(b): b = b.__index__()
            r = {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        return _wrap(r, bits)
    def icmp(self, c, t, a, b):
        if a is UNDEF or b is UNDEF: _bad()
        if t.kind == "p" or isinstance(a, Ptr) or isinstance(b, Ptr):
            if c == "eq": return int(a == b)
            if c == "ne": return int(not (a == b))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.mem is b.mem: a, b = a.off, b.off
            else: raise CError("comparison of pointers to different objects")
        if c[0] == "u": a, b = _uns(a, t.bits), _uns(b, t.bits)
        if c[0] == "u" and (is_symb(a) or is_symb(b)):
            for v in (a, b):
                if is_symb(v) and bool(v < 0): raise Unsupported("unsigned view of a negative number")
        c = c[-2:]
        if isinstance(a, SymBool): a = a.asint()
        return _int({"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[c]())
    # ---- library functions
    def extern(self, name, args):
        if name.startswith("llvm."):
            n = name.split(".")[1]
            if n == "fmuladd": return args[0]*args[1]+args[2]
            if n in ("memcpy", "memmove"):
                d, s, k = args[:3]
                if is_symb(k): k = k.__index__()
                if k: s.mem.copyto(s.off, d.mem, d.off, k)
                return None
            if n == "memset":
                d, v, k = args[:3]
                if k: d.mem.fill(d.off, k, v)
                return None
            if n in ("lifetime", "dbg", "assume", "stacksave", "stackrestore"): return None
            if n in ("smax", "smin", "umax", "umin"): return core.s_max(*args) if n[1:] == "max" else core.s_min(*args)
            if n == "abs": return abs(args[0])
            name = {"minnum": "fmin", "maxnum": "fmax"}.get(n, n)
        if name in ("malloc", "calloc"):
            n = args[0] if name == "malloc" else args[0]*args[1]
            if is_symb(n): n = n.__index__()
            if n < 0: raise CError("allocation of a negative size")
            m = Mem(n, name, zero=name == "calloc"); self.allocs.append(m)
            return Ptr(m, 0)
        if name == "realloc":
            p, n = args
            if is_symb(n): n = n.__index__()
            m = Mem(n, name); self.allocs.append(m)
            if p is not None:
                p.mem._chk(0, 0)
                m.zero = p.mem.zero and n <= p.mem.size
                for o, (v, s) in p.mem.cells.items():
                    if o+s <= n: m.cells[o] = (v, s)
                if p.mem.zero and not m.zero: m.partial = p.mem.size
                p.mem.freed = True
            return Ptr(m, 0)
        if name == "free":
            p = args[0]
            if p is None: return None
            if p is UNDEF: _bad()
            if p.mem.freed: raise CError("double free")
            if p.off != 0 or not isinstance(p.mem, Mem): raise CError("free of something that was not allocated")
            p.mem.freed = True; return None
        if name == "memcpy" or name == "memmove": return self.extern("llvm.memcpy", args)
        if name == "memset": return self.extern("llvm.memset", args)
        if name == "qsort":
            base_, n, sz, cmp = args
            n = n.__index__()
            mems = [{o-i*sz-base_.off: c for o, c in base_.mem.cells.items() if base_.off+i*sz <= o < base_.off+(i+1)*sz} for i in range(n)]
            def tmp(c):
                m = Mem(sz, "qsort"); m.cells = dict(c); return Ptr(m, 0)
            # insertion sort with the program's own comparison
            out = []
            for c in mems:
                k = len(out)
                while k > 0:
                    r = self.call(cmp.name, [tmp(out[k-1]), tmp(c)])
                    if bool(r > 0): k -= 1
                    else: break
                out.insert(k, c)
            for i, c in enumerate(out):
                for o, v in c.items(): base_.mem.cells[base_.off+i*sz+o] = v
            return None
        if name in ("omp_get_max_threads", "omp_get_num_threads", "omp_get_num_procs"): return 1
        if name in ("omp_get_thread_num", "omp_in_parallel"): return 0
        if name in ("fprintf", "printf", "puts", "fflush", "fputs", "putchar", "fwrite"): return 0
        if name in ("gettimeofday",):
            args[0].mem.store(args[0].off, INT[64], 0); args[0].mem.store(args[0].off+8, INT[64], 0); return 0
        if name in ("omp_get_wtime", "clock", "time"): return 0.0
        if name in ("abort", "exit", "__assert_fail"): raise CError("the C code calls %s" % name)
        f = mathfun(name)
        if f is not None:
            if any(a is UNDEF for a in args): _bad()
            return f(*args)
        raise Unsupported("C library function %s" % name)


def tob(v):
    if isinstance(v, SymBool): return v
    if isinstance(v, Sym): return v != 0
    return bool(v)

def fop(op, a, b):
    if op == "fadd": return a+b
    if op == "fsub": return a-b
    if op == "fmul": return a*b
    if op == "frem":
        from . import snp
        return snp._fmod(a, b)
    from . import snp
    return snp._div(a, b)

def fcmp(c, a, b):
    nan = not is_symb(a) and a != a or not is_symb(b) and b != b
    if c == "ord": return int(not nan)
    if c == "uno": return int(nan)
    if c in ("true", "false"): return int(c == "true")
    if nan: return int(c[0] == "u")
    return _int({"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[c[1:]]())

def mathfun(name):
    from . import snp
    n = name[:-1] if name.endswith("f") and name not in ("erf",) and name != "f" else name
    uf = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "asin": np.arcsin, "acos": np.arccos, "atan": np.arctan, "atan2": np.arctan2, "sqrt": np.sqrt, "exp": np.exp, "log": np.log,
          "fabs": np.absolute, "floor": np.floor, "ceil": np.ceil, "fmod": np.fmod, "pow": np.power, "hypot": np.hypot, "rint": np.rint, "trunc": np.trunc, "fmin": np.minimum, "fmax": np.maximum, "nearbyint": np.rint}
    if n == "round":
        return lambda a: core.ite(a >= 0, core.s_floor(a+Fraction(1, 2)), core.s_ceil(a-Fraction(1, 2))) if is_symb(a) else math.floor(abs(a)+0.5)*(1 if a >= 0 else -1)
    u = uf.get(n)
    if u is None: return None
    return lambda *a: snp.scalarize(snp.ufunc_dispatch(u, "__call__", tuple(a), {})) if any(is_symb(x) for x in a) else float(u(*[float(x) for x in a]))
