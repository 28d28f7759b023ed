"""The two faces of a harness.

A harness case is one python function case(C). Run with a SymCtx it executes the code under
test symbolically and its checks become solver queries; run with a RealCtx it executes the same
steps on the real, unpatched code with concrete inputs (a counterexample or a witness).
"""
import math, os, zlib
from fractions import Fraction
import numpy as np

SYM_TOL = Fraction(1, 10**6)
REAL_TOL = 1e-7


class Skip(Exception):
    """concrete inputs outside the assumptions"""


def _default(name, lo, hi, isint):
    h = zlib.crc32(name.encode())
    if isint: return lo+h % (hi-lo+1)
    lo_ = -8 if lo is None else lo; hi_ = 8 if hi is None else hi
    q = Fraction(h % 1021+1, 1022)
    return Fraction(lo_)+(Fraction(hi_)-Fraction(lo_))*q


class Gauss:
    def __init__(self, C, vals): self.C, self.vals, self.pos = C, vals, 0
    def __enter__(self):
        self.old = np.random.standard_normal
        np.random.standard_normal = self.draw
        return self
    def __exit__(self, *a): np.random.standard_normal = self.old
    def draw(self, size=None):
        n = 1 if size is None else int(np.prod(size))
        if self.pos+n > len(self.vals): raise Skip("more random numbers than foreseen")
        v = self.vals[self.pos:self.pos+n]; self.pos += n
        return v[0] if size is None else v.reshape(size)


class Ctx:
    def __init__(self, tier): self.tier = tier; self.nchecks = 0
    def gauss(self, name, n, lo=-4, hi=4):
        """a stream of n symbolic normal numbers for the code under test: with C.gauss(...) as g"""
        return Gauss(self, self.data(name, (n,), lo, hi))
    def q(self, quick, thorough): return quick if self.tier == "quick" else thorough
    def choice(self, name, opts):
        opts = list(opts)
        if len(opts) == 1: return opts[0]
        return opts[self.pick(name, 0, len(opts)-1)]
    def ints(self, name, n, lo, hi): return [self.int("%s%d" % (name, i), lo, hi) for i in range(n)]
    def reals(self, name, n, lo, hi): return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]
    def picks(self, name, n, lo, hi): return [self.pick("%s%d" % (name, i), lo, hi) for i in range(n)]
    def eqs(self, a, b, label, **k): return self.eq(a, b, label, **k)


class SymCtx(Ctx):
    sym = True
    def __init__(self, engine, px, tier):
        super().__init__(tier)
        from . import core, snp, wcs
        self.e, self.px, self.core, self.S, self.W = engine, px, core, snp, wcs
        self.np = snp.snp
        self.pi = core.Sym({(): core.PI}, False)
    # ---- inputs
    def _in(self, name, lo, hi, isint):
        v = self.e.var(name, isint)
        if name not in self.e.inputs: self.e.inputs[name] = ("v", v, _default(name, lo, hi, isint), lo, hi, isint)
        if lo is not None: self.e.assume(v >= lo)
        if hi is not None: self.e.assume(v <= hi)
        if lo is not None and hi is not None:
            (k, _), = next(iter(v.p))
            b = self.e.bnd.get(k)
            lo, hi = Fraction(lo), Fraction(hi)
            self.e.bnd[k] = (max(lo, b[0]), min(hi, b[1])) if b else (lo, hi)
        return v
    def int(self, name, lo, hi): return self._in(name, lo, hi, True)
    def real(self, name, lo=-100, hi=100): return self._in(name, Fraction(lo), Fraction(hi), False)
    def grid(self, name, lo, hi, den):
        """a multiple of 1/den in [lo,hi]"""
        k = self._in(name, int(math.ceil(lo*den)), int(math.floor(hi*den)), True)
        return self.core.asfloat(k)*Fraction(1, den)
    def pick(self, name, lo, hi):
        """an integer input that is split into one path per value right here"""
        return self.e.split(self.int(name, lo, hi), lo, hi)
    def data(self, name, shape, lo=-100, hi=100, cplx=False):
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape)) if shape else 1
        if cplx:
            els = [self.core.SymComplex(self.real("%s_r%d" % (name, i), lo, hi), self.real("%s_i%d" % (name, i), lo, hi)) for i in range(n)]
        else: els = [self.real("%s_%d" % (name, i), lo, hi) for i in range(n)]
        return self.S.objarr(els, shape).view(self.S.SymArr)
    def idata(self, name, shape, lo, hi):
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape)) if shape else 1
        return self.S.objarr([self.int("%s_%d" % (name, i), lo, hi) for i in range(n)], shape).view(self.S.SymArr)
    def junk(self, shape, dtype=float):
        """an array to be filled by the code under test, with something else in it"""
        z = self.np.zeros(shape, dtype); z[...] = 7.0+5j if np.dtype(dtype).kind == 'c' else 7.0
        return z
    def arr(self, x): return self.S.toarr(x)
    def rat(self, a, b=1): return self.core.norm(self.core.Sym.lift(Fraction(a)/Fraction(b)))
    # ---- logic
    def assume(self, *conds):
        for c in conds:
            if isinstance(c, np.ndarray): c = self.S.f_all(c)
            self.e.assume(c if not isinstance(c, np.ndarray) else c.item())
        return True
    def feasible(self): self.e.assume_check()
    def and_(self, *a): return self.core.conj_all([self._b(x) for x in a])
    def or_(self, *a): return self.core.disj_all([self._b(x) for x in a])
    def not_(self, a): return self.core.b_not(self._b(a))
    def implies(self, a, b): return self.or_(self.not_(a), b)
    def _b(self, x):
        if isinstance(x, np.ndarray): x = self.S.f_all(x)
        if isinstance(x, self.core.Sym): x = x != 0
        return x
    def ite(self, c, a, b): return self.core.ite(c, a, b)
    def floor(self, x): return self.core.s_floor(self.core.Sym.lift(x)) if self.core.is_symb(x) else math.floor(x)
    def away(self, x, step=1, off=0, m=Fraction(1, 1000)):
        """assume x keeps a margin m from every off+k*step"""
        C = self.core
        x = C.Sym.lift(x)
        y = (x-off)/C.Sym.lift(step)
        y = C.Sym.lift(y)
        f = y-C.s_floor(C.asreal(y))
        mm = Fraction(m)/Fraction(step) if not C.is_symb(step) else Fraction(m)
        self.assume(f >= mm, f <= 1-mm)
    def check(self, cond, label):
        self.nchecks += 1
        return self.e.prove(self.core.tobool(self._b(cond)), label)
    def _close(self, x, y, tol):
        C = self.core
        if isinstance(x, (C.SymComplex, complex, np.complexfloating)) or isinstance(y, (C.SymComplex, complex, np.complexfloating)):
            x, y = C.SymComplex.lift(x), C.SymComplex.lift(y)
            return C.b_and(self._close(x.re, y.re, tol), self._close(x.im, y.im, tol))
        if isinstance(x, C.SymBool) or isinstance(y, C.SymBool) : return x == y
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray): raise C.Unsupported("nested arrays")
        from .io import Swapped
        if isinstance(x, Swapped) or isinstance(y, Swapped):
            # bytes in the wrong order: the same number only if it is zero
            x, y = [v.v if isinstance(v, Swapped) else v for v in (x, y)]
            return False if isinstance(x, Swapped) or isinstance(y, Swapped) else C.b_and(x == 0, y == 0)
        if not C.is_symb(x) and not C.is_symb(y):
            if x is None or y is None or isinstance(x, str) or isinstance(y, str): return x == y
            x_, y_ = float(x), float(y)
            if x_ != x_ or y_ != y_: return x_ != x_ and y_ != y_
            if math.isinf(x_) or math.isinf(y_): return x_ == y_
            return abs(x_-y_) <= float(tol)+1e-9*abs(y_)
        for v in (x, y):
            if not C.is_symb(v) and (v is None or not np.isfinite(float(v))): return False
        d = x-y
        if not C.is_symb(d): return abs(float(d)) <= float(tol)
        if d.isint: return d == 0
        # relative rounding noise in coefficients
        return C.b_and(d <= tol, d >= -tol)
    def eq(self, a, b, label, tol=SYM_TOL):
        """elementwise equality (nan equals nan)"""
        self.nchecks += 1
        A, B = self.S.base(self.S.toarr(a)), self.S.base(self.S.toarr(b))
        if A.shape != B.shape:
            try: A, B = np.broadcast_arrays(A, B) if A.ndim == 0 or B.ndim == 0 else (None, None)
            except ValueError: A = None
            if A is None: return self.e.prove(False, label+" (shape)")
        conds = [self._close(x, y, tol) for x, y in zip(A.ravel().tolist(), B.ravel().tolist())]
        return self.e.prove(self.core.tobool(self.core.conj_all(conds)), label)
    def eqmod(self, a, b, m, label, tol=SYM_TOL):
        """a == b modulo m, elementwise"""
        self.nchecks += 1
        A, B = np.broadcast_arrays(self.S.base(self.S.toarr(a)), self.S.base(self.S.toarr(b)))
        C = self.core
        m = C.Sym.lift(m)
        conds = []
        for x, y in zip(A.ravel().tolist(), B.ravel().tolist()):
            if any(not C.is_symb(v) and not np.isfinite(float(v)) for v in (x, y)): conds.append(False); continue
            k = C.Sym.lift(C.Sym.lift(x)-y)/m
            if not C.is_symb(k): conds.append(abs(k-round(k)) < 1e-7); continue
            r = C.s_floor(k+Fraction(1, 2))
            conds.append(self._close(k, r, tol))
        return self.e.prove(C.tobool(C.conj_all(conds)), label)
    def same(self, a, b, label):
        """concrete python equality (shapes, strings, flags)"""
        self.nchecks += 1
        return self.e.prove(bool(a == b), label)
    def raises(self, exc, f, label):
        self.nchecks += 1
        try: f()
        except exc: return self.e.prove(True, label)
        return self.e.prove(False, label)
    # ---- things
    def wcs(self, ctype, crval, cdelt, crpix, pv=None):
        w = self.W.SymWCS(naxis=2)
        if ctype: w.wcs.ctype = ["RA---"+ctype, "DEC--"+ctype]
        w.wcs.crval, w.wcs.cdelt, w.wcs.crpix = crval, cdelt, crpix
        if pv: w.wcs.set_pv(pv)
        return w
    def shape_of(self, m): return tuple(m.shape)
    def ext(self, *names):
        """follow these Cython modules"""
        from . import pyx
        self.S.G.nominal = True
        for n in names: pyx.register(n)
    def astype(self, a, dt): return self.arr(a).astype(dt)
    # ---- files
    def file(self, name):
        """the name of a fresh file"""
        from . import io
        if not getattr(self, "_files", None): io.reset(); io.COMPRESSED.clear(); self._files = True
        io.VFS.pop("vfs_"+name, None)
        return "vfs_"+name
    def mktxt(self, name, rows):
        """a text file with the given rows of numbers"""
        f = self.file(name)
        self.S.snp.savetxt(f, self.arr(rows))
        return f
    def spd(self, E, V):
        """the matrix with the given eigenvalues and eigenvectors (columns of V)"""
        n = len(E)
        A = self.S.objarr([sum(V[i][k]*E[k]*V[j][k] for k in range(n)) for i in range(n) for j in range(n)], (n, n)).view(self.S.SymArr)
        self.S.EIGS.append((np.array(self.S.base(A), dtype=object), list(E), np.array([list(r) for r in V], dtype=object)))
        if len(self.S.EIGS) > 8: del self.S.EIGS[0]
        return A
    def mkfits(self, name, hdus, compressed=False):
        """a FITS file with the given (header dict, data) images"""
        from . import io
        f = self.file(name)
        io.HDUList([io.HDU(self.arr(d), h) for h, d in hdus]).writeto(f)
        if compressed: io.COMPRESSED.add(f)
        return f


def _fl(a):
    """arrays of exact fractions as floats"""
    if a.dtype.kind == "O" and a.size and any(isinstance(v, Fraction) for v in a.ravel().tolist()): return a.astype(float)
    return a


class RealCtx(Ctx):
    sym = False
    def __init__(self, inputs, px, tier):
        super().__init__(tier)
        self.inp, self.px, self.np = inputs, px, np
        self.pi = math.pi
        self.fails = []
        self.checked = []
    def _get(self, name, lo, hi, isint):
        v = self.inp.get(name)
        if v is None: v = _default(name, lo, hi, isint)
        if isint: return int(v)
        return float(v)
    def int(self, name, lo, hi): return self._rng(self._get(name, lo, hi, True), lo, hi)
    def real(self, name, lo=-100, hi=100): return self._rng(self._get(name, lo, hi, False), lo, hi)
    def grid(self, name, lo, hi, den): return self._get(name, int(math.ceil(lo*den)), int(math.floor(hi*den)), True)/den
    def _rng(self, v, lo, hi):
        if (lo is not None and v < float(lo)-1e-9) or (hi is not None and v > float(hi)+1e-9): raise Skip("range")
        return v
    def pick(self, name, lo, hi): return self.int(name, lo, hi)
    def data(self, name, shape, lo=-100, hi=100, cplx=False):
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape)) if shape else 1
        if cplx:
            return np.array([complex(self.real("%s_r%d" % (name, i), lo, hi), self.real("%s_i%d" % (name, i), lo, hi)) for i in range(n)], complex).reshape(shape)
        return np.array([self.real("%s_%d" % (name, i), lo, hi) for i in range(n)], float).reshape(shape)
    def idata(self, name, shape, lo, hi):
        n = int(np.prod(shape)) if shape else 1
        return np.array([self.int("%s_%d" % (name, i), lo, hi) for i in range(n)], int).reshape(shape)
    def junk(self, shape, dtype=float):
        """an array to be filled by the code under test, with something else in it"""
        z = self.np.zeros(shape, dtype); z[...] = 7.0+5j if np.dtype(dtype).kind == 'c' else 7.0
        return z
    def arr(self, x): return _fl(np.asarray(x))
    def choice(self, name, opts):
        r = super().choice(name, opts)
        return float(r) if isinstance(r, Fraction) else tuple(float(v) if isinstance(v, Fraction) else v for v in r) if isinstance(r, tuple) else r
    def rat(self, a, b=1): return float(Fraction(a)/Fraction(b))
    def assume(self, *conds):
        for c in conds:
            if not np.all(c): raise Skip("assumption")
        return True
    def feasible(self): pass
    def and_(self, *a): return all(bool(np.all(x)) for x in a)
    def or_(self, *a): return any(bool(np.all(x)) for x in a)
    def not_(self, a): return not bool(np.all(a))
    def implies(self, a, b): return (not bool(np.all(a))) or bool(np.all(b))
    def ite(self, c, a, b): return a if c else b
    def floor(self, x): return math.floor(x)
    def away(self, x, step=1, off=0, m=Fraction(1, 1000)):
        f = ((x-off)/step) % 1
        mm = float(m)/step if not isinstance(step, float) else float(m)
        if not (f >= float(m)*0.5/max(1, abs(step)) and f <= 1-float(m)*0.5/max(1, abs(step))): raise Skip("margin")
    def check(self, cond, label):
        self.checked.append(label)
        if not bool(np.all(cond)): self.fails.append((label, "condition is false"))
    def eq(self, a, b, label, tol=REAL_TOL):
        tol = max(min(float(tol), 1e-3)*0.3, REAL_TOL) if tol is not REAL_TOL else REAL_TOL
        self.checked.append(label)
        A, B = _fl(np.asarray(a)), _fl(np.asarray(b))
        if A.shape != B.shape and not (A.ndim == 0 or B.ndim == 0):
            self.fails.append((label+" (shape)", "%s vs %s" % (A.shape, B.shape))); return
        if A.dtype.kind in "OUS" or B.dtype.kind in "OUS":
            ok = bool(np.all(A == B))
        else:
            with np.errstate(all="ignore"):
                ok = bool(np.all(np.isclose(A, B, rtol=1e-9, atol=tol, equal_nan=True)))
        if not ok: self.fails.append((label, "got %s, expected %s" % (str(A)[:400], str(B)[:400])))
    def eqmod(self, a, b, m, label, tol=REAL_TOL):
        self.checked.append(label)
        with np.errstate(all="ignore"):
            k = (np.asarray(a, float)-np.asarray(b, float))/float(m)
            ok = np.all(np.abs(k-np.round(k)) < 1e-7)
        if not ok: self.fails.append((label, "got %s, expected %s (mod %s)" % (str(a)[:400], str(b)[:400], m)))
    def same(self, a, b, label):
        self.checked.append(label)
        if not bool(a == b): self.fails.append((label, "%r vs %r" % (a, b)))
    def raises(self, exc, f, label):
        self.checked.append(label)
        try: f()
        except exc: return
        self.fails.append((label, "no exception"))
    def ext(self, *names): pass
    def astype(self, a, dt): return np.asarray(a).astype(dt)
    def file(self, name):
        from . import load
        if not getattr(self, "_files", None):
            import tempfile, atexit, shutil
            self._files = tempfile.mkdtemp(dir=load.scratch())
        return os.path.join(self._files, name)
    def mktxt(self, name, rows):
        np.savetxt(self.file(name), np.array(self.arr(rows), float))
        return self.file(name)
    def spd(self, E, V):
        V = np.array([[float(x) for x in r] for r in V]); E = np.array([float(x) for x in E])
        return (V*E).dot(V.T)
    def mkfits(self, name, hdus, compressed=False):
        import astropy.io.fits as f
        h = [(f.ImageHDU if i or compressed else f.PrimaryHDU)(np.array(self.arr(d), float), f.Header(list(h.items()))) for i, (h, d) in enumerate(hdus)]
        if compressed: h = [f.PrimaryHDU()]+[f.CompImageHDU(x.data, x.header, quantize_level=0) for x in h]
        f.HDUList(h).writeto(self.file(name), overwrite=True)
        return self.file(name)
    def wcs(self, ctype, crval, cdelt, crpix, pv=None):
        from astropy.wcs import WCS
        w = WCS(naxis=2)
        if ctype: w.wcs.ctype = ["RA---"+ctype, "DEC--"+ctype]
        w.wcs.crval = [float(x) for x in crval]; w.wcs.cdelt = [float(x) for x in cdelt]; w.wcs.crpix = [float(x) for x in crpix]
        if pv: w.wcs.set_pv(pv)
        return w


CASES = []
def case(name=None, params=None, budget=(40, 600), max_paths=(3000, 40000), stub=(), note="", feas_ms=2000, check_ms=20000):
    """register a harness case; params: list of tuples, one independent case each"""
    def dec(f):
        nm = name or f.__name__
        if params is None: CASES.append(Case(nm, f, (), budget, max_paths, note or (f.__doc__ or ""), feas_ms, check_ms))
        else:
            for p in params:
                p = p if isinstance(p, tuple) else (p,)
                CASES.append(Case("%s[%s]" % (nm, ",".join(str(x) for x in p)), f, p, budget, max_paths, note or (f.__doc__ or ""), feas_ms, check_ms))
        return f
    return dec

class Case:
    def __init__(self, name, f, args, budget, max_paths, note, feas_ms, check_ms):
        self.name, self.f, self.args, self.budget, self.max_paths, self.note = name, f, args, budget, max_paths, note
        self.feas_ms, self.check_ms = feas_ms, check_ms
