"""numpy as the code under test sees it while it is being executed symbolically.

SymArr is an ndarray subclass. With a native dtype it does what numpy does. With
dtype object its elements are Sym/SymBool/SymComplex terms or plain numbers, and
ufuncs, array functions, astype and indexing follow numpy's meaning for float/int
arrays rather than for object arrays.
"""
import math, functools, itertools, types, builtins
from fractions import Fraction
import numpy as np
from . import core
z3 = core.z3
from .core import (Sym, SymBool, SymComplex, Unsupported, is_symb, ite, b_and, b_or, b_xor, b_not,
    conj_all, disj_all, s_floor, s_ceil, s_rint, s_trunc, s_min, s_max, s_sign, s_cos, s_sin, s_tan, s_sqrt, s_uf,
    asfloat, cast, PI)

OBJ = np.dtype(object)


class _Meta(type(np.ndarray)):
    def __instancecheck__(cls, x):
        if cls is SymArr: return isinstance(x, np.ndarray)
        return type.__instancecheck__(cls, x)
    def __subclasscheck__(cls, c):
        if cls is SymArr: return issubclass(c, np.ndarray)
        return type.__subclasscheck__(cls, c)


def base(x):
    return x.view(np.ndarray) if type(x) is not np.ndarray and isinstance(x, np.ndarray) else x


def hassym(a):
    """does an object array hold symbolic elements"""
    return any(is_symb(v) for v in a.ravel().tolist()) if a.dtype == OBJ else False


def native(a, want=None):
    """an object array of plain numbers as a native array, if possible (else None)"""
    if a.dtype != OBJ: return a
    fl = a.ravel().tolist()
    if any(is_symb(v) for v in fl): return None
    if not fl:
        return np.zeros(a.shape, want or float)
    try:
        if all(isinstance(v, (bool, np.bool_)) for v in fl): dt = bool
        elif all(isinstance(v, (bool, np.bool_, int, np.integer)) for v in fl): dt = int
        elif any(isinstance(v, (complex, np.complexfloating)) for v in fl): dt = complex
        elif all(isinstance(v, (bool, np.bool_, int, float, np.number, Fraction)) for v in fl): dt = float
        else: return None
        return np.array([dt(v) for v in fl], dt).reshape(a.shape)
    except (TypeError, ValueError, OverflowError):
        return None


def objarr(flat, shape):
    r = np.empty(len(flat), object)
    for i, v in enumerate(flat):
        while isinstance(v, np.ndarray) and v.ndim == 0: v = v.item() if v.dtype == OBJ else v[()]
        r[i] = v
    return r.reshape(shape)


def wrap(r, cls=None):
    if isinstance(r, np.ndarray):
        if isinstance(r, SymArr) and type(r) is not np.ndarray: return r
        return r.view(SymArr)
    return r


def scalarize(r):
    """0-d results become scalars, as in numpy"""
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r.item() if r.dtype == OBJ else r[()]
    return r


def effdtype(x):
    """the dtype the array would have in numpy, judged from its elements"""
    if isinstance(x, SymComplex): return np.dtype(complex)
    if isinstance(x, SymBool): return np.dtype(bool)
    if isinstance(x, Sym): return np.dtype(int) if x.isint else np.dtype(float)
    if not isinstance(x, np.ndarray):
        return np.dtype(float) if isinstance(x, Fraction) else np.asarray(x).dtype if isinstance(x, (int, float, complex, bool)) else x.dtype
    if getattr(x, "nom", None) is not None and x.dtype == OBJ: return x.nom
    if x.dtype is not OBJ and x.dtype != OBJ or (type(x) is not np.ndarray and "dtype" in type(x).__dict__): return x.dtype
    allb = alli = True
    n = 0
    for v in base(x).ravel().tolist():
        n += 1
        if isinstance(v, (SymComplex, complex, np.complexfloating)): return np.dtype(complex)
        if isinstance(v, (SymBool, bool, np.bool_)): continue
        allb = False
        if isinstance(v, Sym):
            if not v.isint: alli = False
        elif isinstance(v, (int, np.integer)): pass
        elif isinstance(v, (float, np.floating, Fraction)): alli = False
        else: return OBJ
    if n == 0: return np.dtype(float)
    return np.dtype(bool) if allb else np.dtype(int) if alli else np.dtype(float)


def boolize(r):
    """object array of concrete bools -> native bool array"""
    if isinstance(r, np.ndarray) and r.dtype == OBJ:
        fl = r.ravel().tolist()
        if all(isinstance(v, (bool, np.bool_)) for v in fl):
            return np.array(fl, bool).reshape(r.shape)
    return r


def fixindex(sel):
    """turn object-dtype index arrays into integer/bool ones (forking over symbolic entries)"""
    def one(s):
        if isinstance(s, SymBool): return bool(s)
        if isinstance(s, np.ndarray) and s.dtype == OBJ:
            fl = s.ravel().tolist()
            if all(isinstance(v, (bool, np.bool_, SymBool)) for v in fl) and fl:
                return np.array([bool(v) for v in fl], bool).reshape(s.shape)
            return np.array([v.__index__() if isinstance(v, Sym) else int(v) for v in fl], int).reshape(s.shape)
        if isinstance(s, (list,)) and any(is_symb(v) for v in s): return one(toarr(s))
        if isinstance(s, np.ndarray) and type(s) is not np.ndarray: return base(s)
        if isinstance(s, slice):
            return slice(*[v.__index__() if isinstance(v, (Sym, SymBool)) else (int(v) if isinstance(v, np.ndarray) else v) for v in (s.start, s.stop, s.step)])
        if isinstance(s, Sym): return s.__index__()
        return s
    if isinstance(sel, tuple): return tuple(one(s) for s in sel)
    return one(sel)


def setnom(r, dt):
    """note the numpy dtype that an array of symbolic elements stands for (only where that matters: single precision, small integers)"""
    if G.nominal and isinstance(r, np.ndarray) and r.dtype == OBJ and isinstance(r, SymArr) and type(r) is not np.ndarray:
        dt = np.dtype(dt)
        r.nom = None if dt in (np.dtype(float), np.dtype(complex), np.dtype(int), np.dtype(bool), OBJ) else dt
    return r


def realnom(r, src):
    "real or imaginary part of src: same precision, but real"
    d = getattr(src, "nom", None)
    if d is not None: setnom(r, np.zeros(1, d).real.dtype)
    return r

class SymArr(np.ndarray, metaclass=_Meta):
    nom = None
    def __init_subclass__(cls, **k):
        # subclasses that define their own __array_finalize__ still pass the nominal dtype on
        f = cls.__dict__.get("__array_finalize__")
        if f is not None:
            def fin(self, obj):
                f(self, obj)
                n = getattr(obj, "nom", None)
                if n is not None: self.__dict__["nom"] = n
            cls.__array_finalize__ = fin
        super().__init_subclass__(**k)
    def __array_finalize__(self, obj):
        n = getattr(obj, "nom", None)
        if n is not None: self.nom = n

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        if self.dtype != OBJ:
            if np.dtype(dtype) == OBJ and False: pass
            return np.ndarray.astype(self, dtype, order, casting, subok, copy)
        dt = np.dtype(dtype)
        if dt == OBJ: return self.copy() if copy else self
        if not copy and effdtype(self).kind == dt.kind and not (G.nominal and effdtype(self) != dt): return self
        fl = [cast(v, dt) for v in self.ravel().tolist()]
        if not any(is_symb(v) for v in fl) and dt.kind in "iub":
            r = np.array(fl, dt).reshape(self.shape)
        else:
            r = objarr(fl, self.shape)
        r = wrapas(r, self)
        if G.nominal: setnom(r, dt)
        return r

    def __getitem__(self, sel):
        r = np.ndarray.__getitem__(self, fixindex(sel))
        return r

    def __setitem__(self, sel, val):
        if self.dtype != OBJ and isinstance(val, (Sym, SymBool, SymComplex)) or \
                (self.dtype != OBJ and isinstance(val, np.ndarray) and val.dtype == OBJ and hassym(val)):
            if self.dtype.kind == "b":
                if isinstance(val, SymBool): val = bool(val)
                elif isinstance(val, np.ndarray): val = np.array([bool(v) for v in val.ravel().tolist()], bool).reshape(val.shape)
            elif self.dtype.kind in "iu":
                if isinstance(val, np.ndarray): val = np.array([int(v) for v in val.ravel().tolist()], int).reshape(val.shape)
                else: val = int(val)
            else:
                raise Unsupported("symbolic value stored in a native %s array" % self.dtype)
        if self.dtype == OBJ and isinstance(val, (list, tuple)) and len(val) and any(is_symb(v) or isinstance(v, (list, tuple, np.ndarray)) for v in val):
            val = toarr(val)
        while isinstance(val, np.ndarray) and val.ndim == 0: val = val.item() if val.dtype == OBJ else base(val)[()]
        if self.dtype == OBJ and self.size:
            # a complex array stays complex and a real one real
            tc, vc = s_iscomplexobj(self), s_iscomplexobj(val)
            if tc and not vc:
                if isinstance(val, np.ndarray): val = toarr(val).astype(object, copy=False).astype(complex)
                elif is_symb(val) or isinstance(val, (int, float, np.number, Fraction)): val = cast(val, complex)
            elif vc and not tc:
                val = toarr(val).real if isinstance(val, np.ndarray) else SymComplex.lift(val).re
        np.ndarray.__setitem__(self, fixindex(sel), base(val))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    @property
    def real(self):
        if self.dtype != OBJ: return np.ndarray.real.__get__(self)
        return realnom(wrapas(objarr([v.re if isinstance(v, SymComplex) else (v.real if isinstance(v, complex) else v) for v in self.ravel().tolist()], self.shape), self), self)
    @real.setter
    def real(self, val):
        if self.dtype != OBJ: np.ndarray.real.__set__(self, val); return
        v = np.broadcast_to(base(toarr(val)), self.shape)
        for i in np.ndindex(self.shape): np.ndarray.__setitem__(self, i, SymComplex(v[i], SymComplex.lift(np.ndarray.__getitem__(self, i)).im))
    @property
    def imag(self):
        if self.dtype != OBJ: return np.ndarray.imag.__get__(self)
        return realnom(wrapas(objarr([v.im if isinstance(v, SymComplex) else (v.imag if isinstance(v, complex) else 0.0) for v in self.ravel().tolist()], self.shape), self), self)
    @imag.setter
    def imag(self, val):
        if self.dtype != OBJ: np.ndarray.imag.__set__(self, val); return
        v = np.broadcast_to(base(toarr(val)), self.shape)
        for i in np.ndindex(self.shape): np.ndarray.__setitem__(self, i, SymComplex(SymComplex.lift(np.ndarray.__getitem__(self, i)).re, v[i]))

    def tolist(self): return np.ndarray.tolist(self)
    # methods that would use object comparison/truth
    def any(self, axis=None, **k): return function_dispatch(np.any, (self,), dict(axis=axis, **k))
    def all(self, axis=None, **k): return function_dispatch(np.all, (self,), dict(axis=axis, **k))
    def max(self, axis=None, **k): return function_dispatch(np.max, (self,), dict(axis=axis, **k))
    def min(self, axis=None, **k): return function_dispatch(np.min, (self,), dict(axis=axis, **k))
    def sum(self, axis=None, **k): return function_dispatch(np.sum, (self,), dict(axis=axis, **k))
    def prod(self, axis=None, **k): return function_dispatch(np.prod, (self,), dict(axis=axis, **k))
    def mean(self, axis=None, **k): return function_dispatch(np.mean, (self,), dict(axis=axis, **k))
    def round(self, decimals=0, out=None): return function_dispatch(np.round, (self, decimals), {})
    def conj(self): return np.conjugate(self)
    conjugate = conj
    def argsort(self, axis=-1, kind=None, order=None, **k): return function_dispatch(np.argsort, (self,), dict(axis=axis, kind=kind))
    def nonzero(self): return function_dispatch(np.nonzero, (self,), {})
    def clip(self, a_min=None, a_max=None, **k): return function_dispatch(np.clip, (self, a_min, a_max), k)
    def __bool__(self):
        if self.dtype == OBJ and self.size == 1: return bool(self.ravel().tolist()[0])
        return np.ndarray.__bool__(self)
    def __index__(self):
        if self.dtype == OBJ and self.ndim == 0: return np.ndarray.item(self).__index__()
        return np.ndarray.__index__(self)
    def __int__(self):
        if self.dtype == OBJ and self.size == 1: return int(self.ravel().tolist()[0])
        return np.ndarray.__int__(self)
    def __float__(self):
        if self.dtype == OBJ and self.size == 1: return float(self.ravel().tolist()[0])
        return np.ndarray.__float__(self)
    def __contains__(self, x):
        if self.dtype == OBJ: return bool(disj_all([v == x for v in self.ravel().tolist()]))
        return np.ndarray.__contains__(self, x)
    def view(self, dtype=None, type=None):
        if dtype is None and type is None: return np.ndarray.view(self)
        if type is None and not (isinstance(dtype, builtins.type) and issubclass(dtype, np.ndarray)):
            if self.dtype == OBJ:
                d, have = np.dtype(dtype), effdtype(self)
                if d == have: return np.ndarray.view(self)
                if have.kind == "c" and d.kind == "f" and have.itemsize == 2*d.itemsize: return RealView(self)
                if have.kind in "iu" and d.kind in "iu" and have.itemsize == d.itemsize: return setnom(np.ndarray.view(self), d)
                if have.kind == "b" and d.kind in "iu" and d.itemsize == 1: return wrapas(objarr([v.asint() if isinstance(v, SymBool) else int(v) for v in self.ravel().tolist()], self.shape), self)
                if have.kind in "iu" and d.kind == "b": return wrapas(objarr([v != 0 for v in self.ravel().tolist()], self.shape), self)
                raise Unsupported("reinterpreting view of symbolic data")
            return np.ndarray.view(self, dtype)
        if type is None: return np.ndarray.view(self, dtype)
        return np.ndarray.view(self, dtype, type) if dtype is not None else np.ndarray.view(self, type=type)


class RealView:
    """the real view of a complex array: a.view(float)"""
    def __init__(self, arr):
        self.arr = arr
        if not arr.flags["C_CONTIGUOUS"] and arr.strides[-1] != arr.itemsize: raise ValueError("To change to a dtype of a different size, the last axis must be contiguous")
    @property
    def shape(self): return self.arr.shape[:-1]+(2*self.arr.shape[-1],)
    @property
    def size(self): return 2*self.arr.size
    @property
    def ndim(self): return self.arr.ndim
    def __len__(self): return self.shape[0]
    def _idx(self, sel):
        if self.ndim != 1: raise Unsupported("index of a reinterpreting view")
        return np.arange(self.size)[base(fixindex(sel))]
    def __getitem__(self, sel):
        i = self._idx(sel); a = base(self.arr)
        one = lambda k: (SymComplex.lift(a[k//2]).im if k % 2 else SymComplex.lift(a[k//2]).re)
        return one(i) if np.ndim(i) == 0 else wrap(objarr([one(k) for k in i.tolist()], i.shape))
    def __setitem__(self, sel, val):
        i = np.atleast_1d(self._idx(sel)); a = base(self.arr)
        v = np.broadcast_to(base(toarr(val)), i.shape).ravel().tolist()
        for k, x in zip(i.ravel().tolist(), v):
            o = SymComplex.lift(a[k//2])
            a[k//2] = SymComplex(o.re, x) if k % 2 else SymComplex(x, o.im)


def wrapas(r, like):
    """r as the same class as like, through numpy's own protocol"""
    if isinstance(r, np.ndarray):
        aw = like if isinstance(like, np.ndarray) else None
        if aw is not None and type(aw) not in (np.ndarray, SymArr):
            try:
                return aw.__array_wrap__(r) if r.shape == aw.shape else r.view(SymArr)
            except TypeError:
                return r.view(SymArr)
        return r.view(SymArr)
    return r


# ------------------------------------------------------------ elementwise functions

def _num(x): return not is_symb(x)

def _isfinite(x):
    if is_symb(x): return True
    return bool(np.isfinite(complex(x) if isinstance(x, complex) else float(x)))
def _isnan(x):
    if is_symb(x): return False
    return x != x
def _isinf(x):
    if is_symb(x): return False
    return abs(x) == math.inf

def _f(x):
    """float-valued integer"""
    return asfloat(x) if not isinstance(x, (float, np.floating)) else x

def _keepint(fn):
    def f(x):
        if isinstance(x, (int, np.integer, bool, np.bool_)): return x
        if isinstance(x, SymBool): x = x.asint()
        if isinstance(x, Sym) and x.isint: return x
        return _f(fn(x))
    return f

def _fmod(a, b):
    if _num(a) and _num(b): return math.fmod(a, b)
    q = s_trunc(a/b)
    return a-b*q

def _arctan2(y, x):
    if _num(y) and _num(x): return math.atan2(y, x)
    r = s_uf("atan2", y, x, rng=(-PI, PI))
    e = core.E(); k = ("atan2", r.key())
    if e.active and k not in e.consd:
        e.consd.add(k)
        zy, zx, zr = core.Sym.lift(y).rz(), core.Sym.lift(x).rz(), r.rz()
        e.solver.add(z3.Implies(zy > 0, zr > 0), z3.Implies(zy < 0, zr < 0), z3.Implies(zy == 0, z3.Or(zr == 0, zr == z3.RealVal(PI))),
                     z3.Implies(zx > 0, z3.And(2*zr < z3.RealVal(PI), 2*zr > -z3.RealVal(PI))))
    return r
def _hypot(a, b): return _sqrt(a*a+b*b)
def _sqrt(a):
    if isinstance(a, Sym): return s_sqrt(a)
    if isinstance(a, (int, float, np.number, Fraction)):
        return math.sqrt(a) if a >= 0 else math.nan
    if isinstance(a, SymBool): return a
    raise Unsupported("sqrt of %r" % (a,))
def _uf1(name, f, rng=None):
    def g(x):
        if _num(x):
            try: return f(x)
            except (ValueError, OverflowError): return float(getattr(np, name)(x))
        if isinstance(x, SymComplex): raise Unsupported(name+" of complex")
        r = s_uf(name, x, rng=rng)
        if name in ("arcsin", "arctan", "sinh", "tanh", "arcsinh"):      # same sign as the argument
            e = core.E(); k = (name, "sign", r.key())
            if e.active and k not in e.consd:
                e.consd.add(k)
                zx, zr = core.Sym.lift(x).rz(), r.rz()
                e.solver.add((zx > 0) == (zr > 0), (zx < 0) == (zr < 0))
        return r
    return g

def _exp(x):
    if isinstance(x, SymComplex):
        m = 1 if (_num(x.re) and x.re == 0) else s_uf("exp", x.re, rng=(0, None))
        return SymComplex(m*s_cos(x.im), m*s_sin(x.im)) if is_symb(x.im) else SymComplex(m*math.cos(x.im), m*math.sin(x.im))
    if _num(x): return (np.exp(x) if isinstance(x, complex) else math.exp(x) if x < 700 else math.inf)
    return s_uf("exp", x, rng=(0, None))

def _logical(x):
    if isinstance(x, (SymBool, bool, np.bool_)): return x
    return x != 0

def _abs(x):
    return abs(x)

def _pow(a, b):
    return a**b

def _eq(a, b):
    r = a == b
    return False if r is NotImplemented else r
def _ne(a, b):
    r = a != b
    return True if r is NotImplemented else r

def _inv(a):
    if isinstance(a, (bool, np.bool_)): return not a
    if isinstance(a, SymBool): return b_not(a)
    return ~a if not isinstance(a, Sym) else -a-1

def _bitand(a, b):
    return b_and(a, b)

def _div(a, b):
    if _num(a) and _num(b):
        if isinstance(a, complex) or isinstance(b, complex): return complex(a)/complex(b)
        with np.errstate(all="ignore"):
            return float(np.float64(float(a))/np.float64(float(b)))
    return a/b

def _fdiv(a, b):
    if _num(a) and _num(b):
        with np.errstate(all="ignore"):
            r = np.floor_divide(a, b)
        return r.item() if isinstance(r, np.generic) else r
    return a//b
def _mod(a, b):
    if _num(a) and _num(b):
        with np.errstate(all="ignore"):
            if isinstance(a, Fraction): a = float(a)
            if isinstance(b, Fraction): b = float(b)
            r = np.remainder(a, b)
        return r.item() if isinstance(r, np.generic) else r
    return a % b
def _mul(a, b):
    # False*nan etc. keep python meaning
    return a*b
def _sub(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        a = a.asint() if isinstance(a, SymBool) else a
        b = b.asint() if isinstance(b, SymBool) else b
    return a-b
def _add(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)): return b_or(a, b)
    return a+b

def _conj(a):
    if isinstance(a, (SymComplex, complex, np.complexfloating)): return a.conjugate()
    return a

UF = {
    "add": _add, "subtract": _sub, "multiply": _mul, "divide": _div, "true_divide": _div,
    "floor_divide": _fdiv, "remainder": _mod, "mod": _mod, "fmod": _fmod, "power": _pow, "float_power": _pow,
    "negative": lambda a: -a, "positive": lambda a: a, "absolute": _abs, "fabs": _abs,
    "floor": _keepint(s_floor), "ceil": _keepint(s_ceil), "rint": _keepint(s_rint), "trunc": _keepint(s_trunc),
    "sign": s_sign, "sqrt": _sqrt, "square": lambda a: a*a, "reciprocal": lambda a: 1/a,
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b, "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b, "equal": _eq, "not_equal": _ne,
    "minimum": s_min, "maximum": s_max, "fmin": s_min, "fmax": s_max,
    "logical_and": lambda a, b: b_and(_logical(a), _logical(b)), "logical_or": lambda a, b: b_or(_logical(a), _logical(b)),
    "logical_not": lambda a: b_not(_logical(a)), "logical_xor": lambda a, b: b_xor(_logical(a), _logical(b)),
    "bitwise_and": _bitand, "bitwise_or": b_or, "bitwise_xor": b_xor, "invert": _inv,
    "left_shift": lambda a, b: a*2**int(b), "right_shift": lambda a, b: a//2**int(b),
    "isfinite": _isfinite, "isnan": _isnan, "isinf": _isinf,
    "cos": s_cos, "sin": s_sin, "tan": s_tan, "exp": _exp,
    "arcsin": _uf1("arcsin", math.asin, (-PI/2, PI/2)), "arccos": _uf1("arccos", math.acos, (0, PI)), "arctan": _uf1("arctan", math.atan, (-PI/2, PI/2)),
    "arctan2": _arctan2, "hypot": _hypot, "log": _uf1("log", math.log), "log10": _uf1("log10", math.log10), "log2": _uf1("log2", math.log2),
    "cosh": _uf1("cosh", math.cosh), "sinh": _uf1("sinh", math.sinh), "tanh": _uf1("tanh", math.tanh),
    "conjugate": _conj, "degrees": lambda a: a*(Fraction(180)/PI), "rad2deg": lambda a: a*(Fraction(180)/PI),
    "radians": lambda a: a*(PI/180), "deg2rad": lambda a: a*(PI/180),
}
BOOLY = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_not",
         "logical_xor", "isfinite", "isnan", "isinf", "bitwise_and", "bitwise_or", "bitwise_xor", "invert"}
REDUCE_ID = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def _uses_sym(args):
    for a in args:
        if is_symb(a): return True
        if isinstance(a, np.ndarray):
            if a.dtype == OBJ: return True
        elif isinstance(a, (list, tuple)):
            if _uses_sym(a): return True
    return False


def pickcls(inputs):
    best = None
    for a in inputs:
        if isinstance(a, np.ndarray) and type(a) not in (np.ndarray, SymArr):
            if best is None or getattr(a, "__array_priority__", 0) > getattr(best, "__array_priority__", 0): best = a
    return best


def tuptonum(x):
    return x


def ufunc_dispatch(ufunc, method, inputs, kw):
    out = kw.pop("out", None)
    if out is not None and not isinstance(out, tuple): out = (out,)
    symbolic = _uses_sym(inputs) or (out is not None and any(o is not None and o.dtype == OBJ for o in out))
    wr = pickcls(inputs)
    if not symbolic:
        ins = [base(a) for a in inputs]
        k = dict(kw)
        if "where" in k and isinstance(k["where"], np.ndarray): k["where"] = base(k["where"])
        if out is not None:
            k["out"] = tuple(base(o) for o in out)
            getattr(ufunc, method)(*ins, **k)
            return out[0] if len(out) == 1 else out
        if method == "at":
            return getattr(ufunc, method)(*ins, **k)
        r = getattr(ufunc, method)(*ins, **k)
        if method == "__call__" and isinstance(r, np.ndarray): return wrapas2(r, wr, inputs)
        return wrap(r) if isinstance(r, np.ndarray) else r
    name = ufunc.__name__
    if name == "matmul":
        return matmul(*inputs)
    if name == "divmod":
        return (ufunc_dispatch(np.floor_divide, "__call__", inputs, {}), ufunc_dispatch(np.remainder, "__call__", inputs, {}))
    if name == "modf":
        t = ufunc_dispatch(np.trunc, "__call__", inputs, {}); return (inputs[0]-t, t)
    f = UF.get(name)
    if f is None: raise Unsupported("ufunc %s" % name)
    where = kw.pop("where", True)
    if method == "__call__":
        arrs = [base(toarr(a)) for a in inputs]
        arrs = [a if a.dtype == OBJ else a.astype(object) for a in arrs]
        bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
        shape = bs[0].shape
        if where is not True: where = np.broadcast_to(base(toarr(where)), np.broadcast_shapes(shape, np.shape(where)))
        flats = [b.ravel().tolist() for b in bs]
        res = [f(*v) for v in zip(*flats)]
        r = objarr(res, shape)
        if name in BOOLY: r = boolize(r)
        if where is not True:
            if out is None: raise Unsupported("where= without out=")
            prev = base(out[0])
            r = objarr([ite(w, a, p) for w, a, p in zip(where.ravel().tolist(), np.broadcast_to(r, where.shape).ravel().tolist(), np.broadcast_to(prev, where.shape).ravel().tolist())], where.shape)
        dt = kw.get("dtype")
        if dt is not None: r = r.view(SymArr).astype(dt).view(np.ndarray)
        if out is not None:
            o = out[0]
            if o.dtype == OBJ and o.size and s_iscomplexobj(r) and not s_iscomplexobj(o):
                raise TypeError("Cannot cast ufunc '%s' output from dtype('complex128') to dtype('float64') with casting rule 'same_kind'" % name)
            SymArr.__setitem__(o, Ellipsis, r) if isinstance(o, SymArr) and type(o) is not np.ndarray else o.__setitem__(Ellipsis, r)
            return o
        if r.ndim == 0 and not any(isinstance(a, np.ndarray) and a.ndim > 0 for a in inputs): return scalarize(r)
        if G.nominal:
            noms = [effdtype(a) for a in inputs if isinstance(a, np.ndarray) and a.ndim > 0]
            rr = wrapas2(r, wr, inputs)
            if noms and any(n != np.dtype(n.kind+"8" if n.kind != "c" else "c16") for n in noms) and rr.dtype == OBJ and name not in BOOLY:
                dt = np.result_type(*noms); e = effdtype(rr) if getattr(rr, "nom", None) is None else rr.nom
                if dt.kind in "fiu" and e.kind == "c" : dt = np.dtype("c8" if dt.itemsize == 4 else "c16")
                elif dt.kind == "c" and e.kind == "f": dt = np.dtype("f4" if dt.itemsize == 8 else "f8")
                if dt.kind == e.kind: setnom(rr, dt)
            return rr
        return wrapas2(r, wr, inputs)
    if method in ("reduce", "accumulate") and len(inputs) > 1: inputs, kw = inputs[:1], dict(kw, axis=inputs[1])
    if method == "reduce":
        a = toarr(inputs[0])
        r = reduce_obj(f, name, a, kw.get("axis", 0), kw.get("keepdims", False), kw.get("initial", None))
        if kw.get("dtype") is not None and isinstance(r, np.ndarray): r = r.view(SymArr).astype(kw["dtype"])
        if out is not None:
            out[0][...] = r; return out[0]
        return scalarize(r) if not isinstance(r, np.ndarray) or r.ndim == 0 else wrap(r)
    if method == "accumulate":
        a = base(toarr(inputs[0])); ax = kw.get("axis", 0)
        m = np.moveaxis(a, ax, 0); o = np.empty(m.shape, object)
        for i in range(m.shape[0]):
            o[i] = m[i] if i == 0 else np.frompyfunc(f, 2, 1)(o[i-1], m[i])
        return wrap(np.moveaxis(o, 0, ax))
    if method == "outer":
        a, b = [base(toarr(x)) for x in inputs]
        return ufunc_dispatch(ufunc, "__call__", (a[(Ellipsis,)+(None,)*b.ndim].view(SymArr), b), {})
    if method == "at":
        a, idx = inputs[0], inputs[1]
        val = inputs[2] if len(inputs) > 2 else None
        idx = fixindex(idx)
        probe = np.arange(a.size).reshape(a.shape)[idx]
        vals = np.broadcast_to(base(toarr(val)), probe.shape) if val is not None else None
        flat = base(a).reshape(-1)
        if not np.shares_memory(flat, base(a)): raise Unsupported("ufunc.at on a non-contiguous array")
        for k, p in enumerate(probe.ravel().tolist()):
            flat[p] = f(flat[p], vals.ravel().tolist()[k]) if vals is not None else f(flat[p])
        return None
    raise Unsupported("ufunc method %s" % method)


def wrapas2(r, wr, inputs):
    if wr is not None and isinstance(r, np.ndarray):
        try: return wr.__array_wrap__(r)
        except TypeError: return wr.__array_wrap__(r, None)
    return wrap(r)


def reduce_obj(f, name, a, axis, keepdims, initial=None):
    a = base(a)
    if a.dtype != OBJ: a = a.astype(object)
    if axis is None: axes = tuple(range(a.ndim))
    else: axes = tuple(int(x) % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,)))
    rest = [i for i in range(a.ndim) if i not in axes]
    m = a.transpose(rest+list(axes)).reshape(tuple(a.shape[i] for i in rest)+(int(np.prod([a.shape[i] for i in axes], dtype=int)),))
    out = np.empty(m.shape[:-1], object)
    for I in np.ndindex(out.shape):
        vs = m[I].tolist()
        if name == "logical_and": out[I] = conj_all([_logical(v) for v in vs])
        elif name == "logical_or": out[I] = disj_all([_logical(v) for v in vs])
        else:
            if name == "add": vs = [v.asint() if isinstance(v, SymBool) else (int(v) if isinstance(v, (bool, np.bool_)) else v) for v in vs]
            acc = initial
            if acc is None or acc is np._NoValue:
                if not vs:
                    if name in REDUCE_ID: acc = REDUCE_ID[name]
                    else: raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
                else: acc, vs = vs[0], vs[1:]
            for v in vs: acc = f(acc, v)
            out[I] = acc
    if name in ("logical_and", "logical_or"): out = boolize(out)
    if keepdims: out = out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    return out


def matmul(a, b, *rest, **kw):
    a, b = base(toarr(a)), base(toarr(b))
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1: a = a[None]
    if b1: b = b[:, None]
    pre = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    if a.shape[-1] != b.shape[-2]: raise ValueError("matmul: shapes %s %s" % (a.shape, b.shape))
    A, B = np.broadcast_to(a, pre+a.shape[-2:]), np.broadcast_to(b, pre+b.shape[-2:])
    out = np.empty(pre+(a.shape[-2], b.shape[-1]), object)
    for I in np.ndindex(pre):
        for i in range(a.shape[-2]):
            for j in range(b.shape[-1]):
                acc = 0
                for k in range(a.shape[-1]): acc = acc + A[I+(i, k)]*B[I+(k, j)]
                out[I+(i, j)] = acc
    if a1: out = out[..., 0, :]
    if b1: out = out[..., 0]
    return scalarize(out) if out.ndim == 0 else wrap(out)


# ------------------------------------------------------------ array construction

def toarr(x, dtype=None):
    """like np.asanyarray, but keeps symbolic elements"""
    if isinstance(x, np.ndarray):
        return x if isinstance(x, SymArr) and type(x) is not np.ndarray else x.view(SymArr)
    if is_symb(x):
        r = np.empty((), object); r[()] = x
        return r.view(SymArr)
    if isinstance(x, (list, tuple)) and _uses_sym_deep(x):
        parts = [toarr(v) for v in x]
        shapes = [p.shape for p in parts]
        if any(s != shapes[0] for s in shapes): raise ValueError("inhomogeneous shape")
        r = np.empty((len(parts),)+shapes[0], object)
        for i, p in enumerate(parts):
            if p.ndim == 0: r[i] = p.item() if p.dtype == OBJ else base(p)[()].item()
            else: r[i] = base(p)
        return r.view(SymArr)
    if hasattr(x, "__array__") and not isinstance(x, np.generic) and not isinstance(x, type):
        return toarr(x.__array__())
    r = np.asarray(x)
    return r.view(SymArr)

def _uses_sym_deep(x):
    for v in x:
        if is_symb(v): return True
        if isinstance(v, np.ndarray) and v.dtype == OBJ: return True
        if isinstance(v, (list, tuple)) and _uses_sym_deep(v): return True
        if isinstance(v, Fraction): return True
    return False


class _Gen:
    def __init__(self): self.objmode, self.nominal = True, False

G = _Gen()

def _dtkind(dtype):
    if dtype is None: return "f"
    try: return np.dtype(dtype).kind
    except TypeError: return "O"

def _shape(s):
    if isinstance(s, (Sym, SymBool)): return (s.__index__(),)
    if isinstance(s, (int, np.integer)): return (int(s),)
    return tuple(v.__index__() if isinstance(v, (Sym, SymBool)) else int(v) for v in (s.tolist() if isinstance(s, np.ndarray) else s))

def _fill(shape, val, dtype):
    shape = _shape(shape)
    k = _dtkind(dtype)
    if G.objmode and k in "fciuO":
        r = np.empty(shape, object)
        r.fill(cast(val, dtype or float) if k != "O" else val)
        r = r.view(SymArr)
        return setnom(r, dtype or float) if G.nominal else r
    return np.full(shape, val, dtype).view(SymArr)

class SNP(types.ModuleType):
    """stand-in for the numpy module"""
    def __getattr__(self, name):
        return getattr(np, name)

snp = SNP("numpy")
snp.ndarray = SymArr
snp.__dict__["__file__"] = np.__file__
snp.__dict__["__version__"] = np.__version__

def _def(name):
    def d(f):
        setattr(snp, name, f); return f
    return d

@_def("array")
def s_array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **kw):
    r = toarr(x)
    if not subok and type(r) is not SymArr: r = r.view(np.ndarray).view(SymArr)
    if dtype is not None and r.dtype != np.dtype(dtype): r = astype_nocopy(r, dtype); r = r.copy()
    elif copy: r = r.copy() if r is x or isinstance(x, np.ndarray) else r
    while r.ndim < ndmin: r = r[None]
    return r

def astype_nocopy(r, dtype):
    if r.dtype == np.dtype(dtype): return r
    return r.view(SymArr).astype(dtype) if type(r) is np.ndarray else r.astype(dtype)

@_def("asarray")
def s_asarray(x, dtype=None, order=None, **kw):
    r = toarr(x)
    if type(r) is not SymArr: r = r.view(np.ndarray).view(SymArr)
    if dtype is not None and effdtype(r) != np.dtype(dtype): r = r.astype(dtype, copy=False)
    return r

@_def("asanyarray")
def s_asanyarray(x, dtype=None, order=None, **kw):
    r = toarr(x)
    if dtype is not None and effdtype(r) != np.dtype(dtype): r = r.astype(dtype, copy=False)
    return r

@_def("ascontiguousarray")
def s_ascontiguousarray(x, dtype=None):
    r = s_asarray(x, dtype)
    return r.copy() if not r.flags["C_CONTIGUOUS"] else r
@_def("asfortranarray")
def s_asfortranarray(x, dtype=None):
    r = s_asarray(x, dtype)
    return np.array(base(r), order="F").view(SymArr)
@_def("asarray_chkfinite")
def s_asarray_chkfinite(x, dtype=None, **k): return s_asarray(x, dtype)

@_def("zeros")
def s_zeros(shape, dtype=float, order="C", **k): return _fill(shape, 0, dtype)
@_def("ones")
def s_ones(shape, dtype=float, order="C", **k): return _fill(shape, 1, dtype)
@_def("empty")
def s_empty(shape, dtype=float, order="C", **k): return _fill(shape, 0, dtype)
@_def("full")
def s_full(shape, val, dtype=None, order="C", **k):
    if isinstance(val, (np.ndarray, list, tuple)):
        r = _fill(shape, 0, dtype); r[...] = val; return r
    if dtype is None: dtype = object if is_symb(val) else np.asarray(val).dtype
    return _fill(shape, val, dtype)
def _like(v):
    def f(a, dtype=None, order="K", subok=True, shape=None):
        a = toarr(a)
        r = _fill(a.shape if shape is None else shape, v, dtype or effdtype(a))
        return wrapas(r.view(np.ndarray), a) if subok else r
    return f
snp.zeros_like = _like(0); snp.ones_like = _like(1); snp.empty_like = _like(0)
@_def("full_like")
def s_full_like(a, val, dtype=None, **k):
    a = toarr(a); r = s_full(a.shape, val, dtype or effdtype(a)); return r
@_def("arange")
def s_arange(*args, dtype=None, **kw):
    if any(isinstance(a, Sym) for a in args):
        a = [0]+list(args) if len(args) == 1 else list(args)
        start, stop = a[0], a[1]; step = a[2] if len(a) > 2 else 1
        n = s_ceil(asfloat((stop-start)/step))
        n = max(int(n.__index__()) if isinstance(n, Sym) else int(n), 0)
        return toarr([start+i*step for i in range(n)]) if n else np.zeros(0, int).view(SymArr)
    args = [a.item() if isinstance(a, np.ndarray) else a for a in args]
    return np.arange(*args, dtype=dtype, **kw).view(SymArr)
@_def("linspace")
def s_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not _uses_sym([start, stop, num]):
        r = np.linspace(base(start), base(stop), num, endpoint, retstep, dtype, axis)
        return (wrap(r[0]), r[1]) if retstep else wrap(r)
    num = int(num); div = num-1 if endpoint else num
    step = (stop-start)/div if div else 0
    r = toarr([start+step*i for i in range(num)])
    return (r, step) if retstep else r
@_def("eye")
def s_eye(n, m=None, k=0, dtype=float): return np.eye(n, m, k, dtype).astype(object).view(SymArr) if G.objmode else np.eye(n, m, k, dtype).view(SymArr)
@_def("identity")
def s_identity(n, dtype=float): return s_eye(n, dtype=dtype)
@_def("indices")
def s_indices(dims, dtype=int, sparse=False):
    dims = _shape(dims)
    r = np.indices(dims, dtype, sparse)
    return tuple(wrap(v) for v in r) if sparse else wrap(r)
@_def("mgrid")
class _mg: pass
snp.mgrid = np.mgrid
@_def("frombuffer")
def s_frombuffer(*a, **k): return np.frombuffer(*a, **k).view(SymArr)
@_def("isscalar")
def s_isscalar(x): return is_symb(x) or np.isscalar(x)
@_def("unravel_index")
def s_unravel_index(i, shape):
    shape = _shape(shape)
    i = fixindex(toarr(i)) if not isinstance(i, (int, np.integer)) else i
    r = np.unravel_index(base(i), shape)
    return tuple(wrap(v) for v in r)
@_def("ravel_multi_index")
def s_rmi(idx, dims, **k): return wrap(np.ravel_multi_index(tuple(base(fixindex(v)) for v in idx), _shape(dims), **k))
@_def("ndindex")
def s_ndindex(*s):
    return np.ndindex(*[_shape(x) if not isinstance(x, (int, np.integer)) else int(x) for x in s])
@_def("errstate")
def s_errstate(**k): return np.errstate(**k)
@_def("result_type")
def s_result_type(*a):
    a2 = []
    for x in a:
        if is_symb(x): a2.append(effdtype(x))
        elif isinstance(x, np.ndarray): a2.append(effdtype(x) if x.dtype == OBJ else base(x))
        else: a2.append(x)
    if any((isinstance(x, np.dtype) and x == OBJ) for x in a2): return OBJ
    return np.result_type(*a2)
@_def("finfo")
def s_finfo(dt):
    if dt == OBJ: return np.finfo(float)
    return np.finfo(dt)
@_def("iinfo")
def s_iinfo(dt):
    if dt == OBJ: return np.iinfo(int)
    return np.iinfo(dt)
@_def("issubdtype")
def s_issubdtype(a, b):
    return np.issubdtype(a, b)
@_def("float64")
class s_float64(float):
    pass
# numpy scalar types stay numpy's own, but calling them on a symbolic value keeps it
class _ScalarType:
    """callable stand-in for a numpy scalar type: dtype-like, isinstance-able"""
    pass
del snp.__dict__["float64"]
del snp.__dict__["mgrid"]


# ------------------------------------------------------------ array functions

FN = {}
def fn(*names):
    def d(f):
        for n in names: FN[n] = f
        return f
    return d

def _strip(x):
    if isinstance(x, np.ndarray): return base(x)
    if isinstance(x, (list,)): return [_strip(v) for v in x]
    if isinstance(x, tuple) and type(x) is tuple: return tuple(_strip(v) for v in x)
    return x

def _liftargs(x):
    """make symbolic scalars/lists acceptable to plain numpy"""
    if is_symb(x): return base(toarr(x))
    if isinstance(x, (list, tuple)) and _uses_sym_deep(x) and all(not isinstance(v, np.ndarray) or v.ndim == 0 for v in x):
        return base(toarr(x))
    return _strip(x)

def function_dispatch(func, args, kwargs):
    name = func.__name__
    if name in ("amax", "amin"): name = name[1:]
    h = FN.get(name)
    if h is not None and (_uses_sym(args) or _uses_sym(list(kwargs.values()))):
        return _keepnom(h(*args, **kwargs), name, args)
    like = pickcls([a for a in list(args)+list(kwargs.values())] + (list(args[0]) if args and isinstance(args[0], (list, tuple)) else []))
    out = kwargs.get("out")
    if name in ("mean", "var", "std") and _uses_sym(args): return h(*args, **kwargs)
    impl = getattr(func, "_implementation", None) or getattr(func, "__wrapped__", None)
    a2 = tuple(_liftargs(a) if name not in PASS_SCALAR else _strip(a) for a in args)
    if "linalg" in (getattr(func, "__module__", "") or ""): a2 = tuple(_native(a) for a in a2)
    k2 = {k: _strip(v) for k, v in kwargs.items()}
    r = func(*a2, **k2)
    if out is not None: return out
    return _keepnom(_rewrap(r, like, name), name, args)

def _keepnom(r, name, args):
    if G.nominal and name in KEEPNOM and args and getattr(args[0], "nom", None) is not None and isinstance(r, SymArr): setnom(r, args[0].nom)
    return r

KEEPNOM = {"broadcast_to", "moveaxis", "reshape", "ravel", "transpose", "swapaxes", "roll", "flip", "copy", "ascontiguousarray", "repeat", "tile", "take", "expand_dims", "squeeze", "atleast_1d", "atleast_2d", "rollaxis"}

PASS_SCALAR = set()
def _native(a):
    "an object array of plain numbers as the array numpy would have"
    if isinstance(a, np.ndarray) and a.dtype == OBJ:
        L = a.ravel().tolist()
        if all(isinstance(v, (int, float, complex, Fraction, np.number)) for v in L):
            c = any(isinstance(v, (complex, np.complexfloating)) for v in L)
            return np.array([complex(v) if c else float(v) for v in L], complex if c else float).reshape(a.shape)
    return a
# functions for which numpy itself returns the subclass
KEEPCLS = {"moveaxis", "swapaxes", "rollaxis", "transpose", "reshape", "ravel", "expand_dims", "squeeze", "copy", "roll", "flip", "fliplr",
    "flipud", "rot90", "repeat", "take", "split", "array_split", "diff", "sort", "round", "around", "clip", "cumsum", "cumprod", "real", "imag", "nan_to_num",
    "sum", "mean", "max", "min", "prod", "broadcast_to", "atleast_1d", "atleast_2d", "atleast_3d", "tile", "ascontiguousarray"}

def _rewrap(r, like, name):
    if isinstance(r, np.ndarray):
        if like is not None and name in KEEPCLS and name not in ("ascontiguousarray", "broadcast_to", "atleast_1d", "tile"):
            v = r.view(type(like)); v.__array_finalize__(like)
            return v
        return r.view(SymArr)
    if isinstance(r, list): return [_rewrap(v, like, name) for v in r]
    if isinstance(r, tuple) and type(r) is tuple: return tuple(_rewrap(v, like, name) for v in r)
    return r


@fn("where")
def f_where(c, *ab):
    c = toarr(c)
    if not ab:
        c2 = fixindex(c) if c.dtype == OBJ else base(c)
        if c2.dtype != bool: c2 = c2 != 0
        if c.dtype == OBJ: c2 = np.array([bool(v) for v in c.ravel().tolist()], bool).reshape(c.shape)
        return tuple(wrap(v) for v in np.nonzero(c2))
    a, b = ab
    C, A, B = np.broadcast_arrays(base(c), base(toarr(a)), base(toarr(b)))
    r = objarr([ite(x if isinstance(x, (bool, SymBool)) else _logical(x), y, z) for x, y, z in zip(C.ravel().tolist(), A.ravel().tolist(), B.ravel().tolist())], C.shape)
    r = boolize(r)
    return scalarize(r) if r.ndim == 0 and False else wrap(r)

@fn("nonzero", "flatnonzero", "argwhere")
def f_nonzero(c): return f_where(c)
FN["flatnonzero"] = lambda c: f_where(toarr(c).reshape(-1))[0]
FN["argwhere"] = lambda c: wrap(np.array([base(v) for v in f_where(c)]).T)
@fn("count_nonzero")
def f_count_nonzero(a, axis=None, **k): return f_sum(toarr(a) != 0, axis)

@fn("round", "around", "round_")
def f_round(a, decimals=0, out=None):
    if decimals:
        r = ufunc_dispatch(np.rint, "__call__", (toarr(a)*10**decimals,), {})/10**decimals
    else: r = ufunc_dispatch(np.rint, "__call__", (a,), {})
    if out is not None:
        out[...] = r; return out
    return r
@fn("fix")
def f_fix(a, out=None): return ufunc_dispatch(np.trunc, "__call__", (a,), {})

@fn("any")
def f_any(a, axis=None, out=None, keepdims=False, **k): return _red(np.logical_or, a, axis, keepdims)
@fn("all")
def f_all(a, axis=None, out=None, keepdims=False, **k): return _red(np.logical_and, a, axis, keepdims)
@fn("sum")
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, **k):
    r = _red(np.add, a, axis, keepdims)
    if out is not None:
        out[...] = r; return out
    return r
@fn("nansum")
def f_nansum(a, axis=None, **k): return f_sum(f_where(ufunc_dispatch(np.isnan, "__call__", (toarr(a),), {}), 0.0, a), axis)
@fn("prod")
def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _red(np.multiply, a, axis, keepdims)
@fn("max")
def f_max(a, axis=None, out=None, keepdims=False, initial=None, **k): return _red(np.maximum, a, axis, keepdims, initial)
@fn("min")
def f_min(a, axis=None, out=None, keepdims=False, initial=None, **k): return _red(np.minimum, a, axis, keepdims, initial)
FN["nanmax"] = f_max; FN["nanmin"] = f_min
@fn("ptp")
def f_ptp(a, axis=None, **k): return f_max(a, axis)-f_min(a, axis)
def _red(uf, a, axis, keepdims=False, initial=None):
    a = toarr(a)
    like = pickcls([a])
    r = ufunc_dispatch(uf, "reduce", (a,), dict(axis=axis, keepdims=bool(keepdims) if keepdims is not np._NoValue else False, initial=initial))
    if like is not None and isinstance(r, np.ndarray):
        try: return like.__array_wrap__(r)
        except TypeError: return r
    return r
@fn("mean")
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = toarr(a)
    s = f_sum(a, axis, keepdims=keepdims)
    axes = range(a.ndim) if axis is None else (axis if isinstance(axis, (tuple, list)) else (axis,))
    n = 1
    for x in axes: n *= a.shape[x]
    r = s/n
    if out is not None:
        out[...] = r; return out
    return r
@fn("average")
def f_average(a, axis=None, weights=None, **k):
    if weights is None: return f_mean(a, axis)
    return f_sum(toarr(a)*weights, axis)/f_sum(toarr(weights)+toarr(a)*0, axis)
@fn("var")
def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = toarr(a); m = f_mean(a, axis, keepdims=True)
    axes = range(a.ndim) if axis is None else (axis if isinstance(axis, (tuple, list)) else (axis,))
    n = 1
    for x in axes: n *= a.shape[x]
    return f_sum((a-m)**2, axis, keepdims=keepdims)/(n-ddof)
@fn("std")
def f_std(a, axis=None, **k): return ufunc_dispatch(np.sqrt, "__call__", (f_var(a, axis, **k),), {})
@fn("median")
def f_median(a, axis=None, **k):
    a = toarr(a)
    if axis is None: a = a.reshape(-1); axis = 0
    if isinstance(axis, (tuple, list)):
        axs = [x % a.ndim for x in axis]
        rest = [i for i in range(a.ndim) if i not in axs]
        a = a.transpose(rest+axs).reshape(tuple(a.shape[i] for i in rest)+(-1,)); axis = -1
    s = np.moveaxis(base(f_sort(a, axis)), axis, 0); n = s.shape[0]
    r = s[n//2] if n % 2 else (s[n//2-1]+s[n//2])/2
    return wrap(r) if isinstance(r, np.ndarray) else r
@fn("isfinite", "isnan")
def f_isfinite(a): return ufunc_dispatch(np.isfinite, "__call__", (a,), {})
@fn("nan_to_num")
def f_nan_to_num(a, *r, **k): return a
@fn("clip")
def f_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min); a_max = k.get("max", a_max)
    r = toarr(a)
    if a_min is not None: r = ufunc_dispatch(np.maximum, "__call__", (r, a_min), {})
    if a_max is not None: r = ufunc_dispatch(np.minimum, "__call__", (r, a_max), {})
    if out is not None:
        out[...] = r; return out
    return r
def _close(a, b, rtol=1e-5, atol=1e-8):
    a, b = toarr(a), toarr(b)
    return abs(a-b) <= (atol+rtol*abs(b))
@fn("isclose")
def f_isclose(a, b, rtol=1e-5, atol=1e-8, **k): return _close(a, b, rtol, atol)
@fn("allclose")
def f_allclose(a, b, rtol=1e-5, atol=1e-8, **k): return f_all(_close(a, b, rtol, atol))
@fn("array_equal")
def f_array_equal(a, b, **k):
    a, b = toarr(a), toarr(b)
    if a.shape != b.shape: return False
    return f_all(a == b)
@fn("iscomplexobj")
def f_iscomplexobj(a):
    return any(isinstance(v, (SymComplex, complex)) for v in toarr(a).ravel().tolist())
@fn("isrealobj")
def f_isrealobj(a): return not f_iscomplexobj(a)
@fn("real")
def f_real(a): return a.real
@fn("imag")
def f_imag(a): return a.imag
@fn("angle")
def f_angle(a, deg=False): return ufunc_dispatch(np.arctan2, "__call__", (toarr(a).imag, toarr(a).real), {})
def _sortkey(v): return v
@fn("sort")
def f_sort(a, axis=-1, **k):
    a = toarr(a)
    if axis is None: a = a.reshape(-1); axis = 0
    o = np.moveaxis(base(a).astype(object), axis, -1).copy()
    for I in np.ndindex(o.shape[:-1]):
        vs = o[I].tolist()
        # sorting network on min/max terms: no forks
        n = len(vs)
        for i in range(n):
            for j in range(n-1-i):
                lo, hi = s_min(vs[j], vs[j+1]), s_max(vs[j], vs[j+1])
                vs[j], vs[j+1] = lo, hi
        for t, v in enumerate(vs): o[I+(t,)] = v
    return wrap(np.moveaxis(o, -1, axis))
@fn("argsort")
def f_argsort(a, axis=-1, kind=None, **k):
    a = toarr(a)
    if axis is None: a = a.reshape(-1); axis = 0
    m = np.moveaxis(base(a), axis, -1)
    o = np.zeros(m.shape, int)
    for I in np.ndindex(m.shape[:-1]):
        vs = m[I].tolist()
        idx = sorted(range(len(vs)), key=functools.cmp_to_key(lambda i, j: -1 if bool(vs[i] < vs[j]) else (1 if bool(vs[j] < vs[i]) else 0)))
        o[I] = idx
    return wrap(np.moveaxis(o, -1, axis))
@fn("lexsort")
def f_lexsort(keys, axis=-1):
    ks = [base(toarr(k)).tolist() for k in keys]
    def cmp(i, j):
        for k in ks[::-1]:
            if bool(k[i] < k[j]): return -1
            if bool(k[j] < k[i]): return 1
        return 0
    return wrap(np.array(sorted(range(len(ks[0])), key=functools.cmp_to_key(cmp)), int))
@fn("argmin")
def f_argmin(a, axis=None, **k): return _argm(a, axis, lambda x, y: bool(x < y))
@fn("argmax")
def f_argmax(a, axis=None, **k): return _argm(a, axis, lambda x, y: bool(x > y))
def _argm(a, axis, better):
    a = base(toarr(a))
    if axis is None: a = a.reshape(-1); axis = 0
    m = np.moveaxis(a, axis, -1); o = np.zeros(m.shape[:-1], int)
    for I in np.ndindex(o.shape):
        vs = m[I].tolist(); b = 0
        for i in range(1, len(vs)):
            if better(vs[i], vs[b]): b = i
        o[I] = b
    return int(o) if o.ndim == 0 else wrap(o)
@fn("unique")
def f_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    vs = base(toarr(a)).ravel().tolist()
    order = f_argsort(toarr(vs) if vs else np.zeros(0), kind="stable").tolist() if vs else []
    u, first, inv, cnt = [], [], [0]*len(vs), []
    for i in order:
        if u and bool(u[-1] == vs[i]): cnt[-1] += 1
        else: u.append(vs[i]); first.append(i); cnt.append(1)
        inv[i] = len(u)-1
    res = [toarr(u) if u else np.zeros(0).view(SymArr)]
    if return_index: res.append(wrap(np.array(first, int)))
    if return_inverse: res.append(wrap(np.array(inv, int)))
    if return_counts: res.append(wrap(np.array(cnt, int)))
    return res[0] if len(res) == 1 else tuple(res)
@fn("searchsorted")
def f_searchsorted(a, v, side="left", sorter=None):
    A = base(toarr(a)).tolist(); V = toarr(v)
    if sorter is not None: A = [A[int(i)] for i in base(toarr(sorter)).tolist()]
    before = (lambda y, x: y < x) if side == "left" else (lambda y, x: y <= x)
    def one(x):
        n = 0
        for y in A:
            c = before(y, x)
            n = n + (c.asint() if isinstance(c, SymBool) else int(bool(c)))
        return n
    if bool(conj_all([y <= z for y, z in zip(A[:-1], A[1:])])):
        r = [one(x) for x in V.ravel().tolist()]
    else:
        # not sorted: what numpy's bisection does
        r, lo, hi, last, n = [], 0, len(A), None, len(A)
        for x in V.ravel().tolist():
            if last is None or bool(before(last, x) if side == "left" else last <= x): hi = n
            else: lo, hi = 0, hi+1 if hi < n else n
            last = x
            while lo < hi:
                mid = lo+((hi-lo) >> 1)
                if bool(before(A[mid], x)): lo = mid+1
                else: hi = mid
            r.append(lo)
    r = objarr(r, V.shape) if r else np.zeros(V.shape, int)
    n = native(r)
    if n is not None: r = n
    return scalarize(r) if r.ndim == 0 else wrap(r)
@fn("digitize")
def f_digitize(x, bins, right=False): return f_searchsorted(bins, x, side="left" if right else "right")
@fn("bincount")
def f_bincount(x, weights=None, minlength=0):
    xs = [v.__index__() if isinstance(v, Sym) else int(v) for v in base(toarr(x)).ravel().tolist()]
    n = max(max(xs)+1 if xs else 0, int(minlength))
    o = [0]*n if weights is None else [0.0]*n
    ws = [1]*len(xs) if weights is None else base(toarr(weights)).ravel().tolist()
    for i, w in zip(xs, ws): o[i] = o[i]+w
    if weights is None: return wrap(np.array(o, int))
    return wrap(objarr(o, (n,)))
@fn("interp")
def f_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None: raise Unsupported("interp with a period")
    XP, FP = base(toarr(xp)).tolist(), base(toarr(fp)).tolist(); X = toarr(x)
    def one(v):
        r = FP[-1] if right is None else right
        if right is not None: r = ite(v == XP[-1], FP[-1], r)
        for i in range(len(XP)-2, -1, -1):
            seg = FP[i] + (FP[i+1]-FP[i])*((v-XP[i])/(XP[i+1]-XP[i]))
            r = ite(v < XP[i+1], seg, r)
        return ite(v < XP[0], FP[0] if left is None else left, r)
    r = objarr([one(v) for v in X.ravel().tolist()], X.shape)
    return scalarize(r) if r.ndim == 0 else wrap(r)
@fn("einsum")
def f_einsum(*a, **k):
    k.pop("optimize", None)
    ops = [base(toarr(x)).astype(object) for x in a[1:]]
    r = np.einsum(a[0], *ops, **{kk: v for kk, v in k.items() if kk != "out"})
    if k.get("out") is not None:
        k["out"][...] = r; return k["out"]
    return wrap(r) if isinstance(r, np.ndarray) else r
@fn("dot")
def f_dot(a, b, out=None):
    a, b = base(toarr(a)).astype(object), base(toarr(b)).astype(object)
    r = np.dot(a, b)
    return wrap(r) if isinstance(r, np.ndarray) else r
@fn("inner", "vdot")
def f_inner(a, b): return f_sum(toarr(a)*toarr(b))
@fn("tensordot")
def f_tensordot(a, b, axes=2):
    r = np.tensordot(base(toarr(a)).astype(object), base(toarr(b)).astype(object), axes)
    return wrap(r) if isinstance(r, np.ndarray) else r
@fn("cross")
def f_cross(a, b, axis=-1, **k):
    a, b = np.moveaxis(base(toarr(a)), axis, 0), np.moveaxis(base(toarr(b)), axis, 0)
    r = np.array([a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]], object)
    return wrap(np.moveaxis(r, 0, axis))
@fn("norm")
def f_norm(a, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2): raise Unsupported("norm")
    return ufunc_dispatch(np.sqrt, "__call__", (f_sum(toarr(a)**2, axis, keepdims=keepdims),), {})
@fn("det")
def f_det(a):
    a = base(toarr(a))
    def d(m):
        n = len(m)
        if n == 1: return m[0, 0]
        return builtins.sum(((-1)**j*m[0, j]*d(np.delete(np.delete(m, 0, 0), j, 1)) for j in range(n)), 0)
    r = np.empty(a.shape[:-2], object)
    for I in np.ndindex(r.shape): r[I] = d(a[I])
    return scalarize(r) if r.ndim == 0 else wrap(r)
@fn("inv")
def f_inv(a):
    a = base(toarr(a)); o = np.empty(a.shape, object); n = a.shape[-1]
    for I in np.ndindex(a.shape[:-2]):
        m = a[I]; D = f_det(m)
        for i in range(n):
            for j in range(n):
                mi = np.delete(np.delete(m, i, 0), j, 1)
                o[I+(j, i)] = (-1)**(i+j)*(f_det(mi) if n > 1 else 1)/D
    return wrap(o)
@fn("solve")
def f_solve(a, b): return matmul(f_inv(a), b)
EIGS = []          # known decompositions (A, E, V), A = V E V'
@fn("eigh")
def f_eigh(a, UPLO="L"):
    """eigenvalues and -vectors of symbolic symmetric matrices: those of a diagonal matrix, of one with a
    decomposition the harness has registered, or of a multiple of one"""
    a = base(toarr(a)); n = a.shape[-1]
    E, V = np.empty(a.shape[:-1], object), np.empty(a.shape, object)
    zero = lambda x: not is_symb(x) and x == 0
    for I in np.ndindex(a.shape[:-2]):
        m = a[I]
        if builtins.all(zero(m[i, j]) for i in range(n) for j in range(n) if i != j):
            E[I], V[I] = [m[i, i] for i in range(n)], np.eye(n).astype(object)
            continue
        if not builtins.any(is_symb(x) for x in m.ravel()):
            E[I], V[I] = np.linalg.eigh(m.astype(float)); continue
        for A, e, v in EIGS:
            if A.shape != m.shape: continue
            for s in (1, m[0, 0]/A[0, 0]):
                if builtins.all(zero(m[i, j]-s*A[i, j]) for i in range(n) for j in range(n)):
                    E[I], V[I] = [s*x for x in e], v; break
            else: continue
            break
        else: raise Unsupported("eigh of an unknown symbolic matrix")
    return types.SimpleNamespace(eigenvalues=wrap(E), eigenvectors=wrap(V)) if False else (wrap(E), wrap(V))
@fn("copyto")
def f_copyto(dst, src, where=True, **k):
    if where is True: dst[...] = src
    else: dst[...] = f_where(where, src, dst)
@fn("isin", "in1d")
def f_isin(a, b, **k):
    bs = base(toarr(b)).ravel().tolist(); A = toarr(a)
    return wrap(boolize(objarr([disj_all([x == y for y in bs]) for x in A.ravel().tolist()], A.shape)))
@fn("gradient")
def f_gradient(*a, **k): raise Unsupported("gradient")
@fn("convolve")
def f_convolve(a, b, mode="full"):
    A, B = base(toarr(a)).tolist(), base(toarr(b)).tolist()
    full = [0]*(len(A)+len(B)-1)
    for i, x in enumerate(A):
        for j, y in enumerate(B): full[i+j] = full[i+j]+x*y
    r = objarr(full, (len(full),))
    if mode == "same":
        n = max(len(A), len(B)); o = (len(full)-n)//2; r = r[o:o+n]
    elif mode == "valid":
        m = min(len(A), len(B)); r = r[m-1:len(full)-m+1]
    return wrap(r)
@fn("broadcast_to")
def f_broadcast_to(a, shape, subok=False): return _keepnom(wrap(np.broadcast_to(base(toarr(a)), _shape(shape))), "broadcast_to", (a,))
@fn("full_like")
def f_fl(a, v, **k): return s_full_like(a, v)
@fn("zeros_like")
def f_zl(a, **k): return snp.zeros_like(a, **k)
@fn("ones_like")
def f_ol(a, **k): return snp.ones_like(a, **k)
@fn("empty_like")
def f_el(a, **k): return snp.empty_like(a, **k)
@fn("sinc")
def f_sinc(x):
    def one(v):
        if not is_symb(v): return float(np.sinc(float(v)))
        return s_uf("sinc", v)
    X = toarr(x); r = objarr([one(v) for v in X.ravel().tolist()], X.shape)
    return scalarize(r) if r.ndim == 0 else wrap(r)
@fn("linspace")
def f_linspace(*a, **k): return s_linspace(*a, **k)

# numpy functions that would swallow a symbolic *list* (no dispatch on lists): route through toarr
def _viaarr(name, which=(0,)):
    f = getattr(np, name)
    def g(*args, **kw):
        args = list(args)
        for i in which:
            if i < len(args) and isinstance(args[i], (list, tuple)): 
                if _uses_sym_deep(args[i]): args[i] = toarr(args[i])
            elif i < len(args) and type(args[i]) is np.ndarray: args[i] = args[i].view(SymArr)
        if any(is_symb(a) or isinstance(a, SymArr) and isinstance(a, np.ndarray) and type(a) is not np.ndarray for a in args):
            return function_dispatch(f, tuple(args), kw)
        return wrap_any(f(*[_strip(a) for a in args], **kw))
    g.__name__ = name
    setattr(snp, name, g)

def wrap_any(r):
    if isinstance(r, np.ndarray): return wrap(r)
    if isinstance(r, list): return [wrap_any(v) for v in r]
    if isinstance(r, tuple) and type(r) is tuple: return tuple(wrap_any(v) for v in r)
    return r

for _n in ["sum", "prod", "mean", "max", "min", "amax", "amin", "any", "all", "round", "around", "sort", "argsort", "argmin", "argmax", "unique",
           "median", "cumsum", "cumprod", "diff", "clip", "var", "std", "nonzero", "count_nonzero", "repeat", "tile", "roll", "flip",
           "reshape", "ravel", "transpose", "moveaxis", "rollaxis", "swapaxes", "squeeze", "expand_dims", "take", "split", "array_split", "copy",
           "average", "bincount", "flatnonzero", "argwhere", "sinc", "ptp", "nan_to_num", "real", "imag", "fix", "trace", "diagonal", "percentile"]:
    if hasattr(np, _n): _viaarr(_n)
for _n in ["where", "isclose", "allclose", "array_equal", "searchsorted", "digitize", "interp", "dot", "inner", "outer", "cross", "isin", "full_like", "convolve", "kron"]:
    if hasattr(np, _n): _viaarr(_n, (0, 1, 2))
for _n in ["concatenate", "stack", "vstack", "hstack", "dstack", "column_stack"]:
    def _mk(_n):
        f = getattr(np, _n)
        def g(seq, *a, **k):
            seq = [toarr(s) for s in seq]
            objs = [s for s in seq if s.dtype == OBJ]
            if objs and _dtkind(k.get("dtype")) in "fcO": k.pop("dtype", None)
            r = f([base(s).astype(object) if objs and s.dtype != OBJ else base(s) for s in seq], *a, **k)
            return wrap(r)
        g.__name__ = _n
        setattr(snp, _n, g)
        FN[_n] = g
    _mk(_n)
def _mkuf(name):
    uf = getattr(np, name)
    class W:
        """ufunc whose list arguments may hold symbolic scalars"""
        __name__ = name
        nin, nout = uf.nin, uf.nout
        def __call__(self, *args, **kw):
            args = [toarr(a) if isinstance(a, (list, tuple)) else a for a in args]
            if any(is_symb(a) or isinstance(a, np.ndarray) for a in args):
                if len(args) > uf.nin and uf.nout == 1: kw, args = dict(kw, out=args[uf.nin]), args[:uf.nin]
                return ufunc_dispatch(uf, "__call__", args, kw)
            return uf(*args, **kw)
        def __getattr__(self, n):
            if n in ("reduce", "accumulate", "outer", "at", "reduceat"):
                def m(*args, **kw):
                    args = [toarr(a) if isinstance(a, (list, tuple)) and n != "at" else a for a in args]
                    return ufunc_dispatch(uf, n, tuple(args), kw)
                return m
            return getattr(uf, n)
    return W()
for _n in list(UF)+["matmul", "divmod", "abs"]:
    if hasattr(np, _n): setattr(snp, _n, _mkuf({"abs": "absolute"}.get(_n, _n)))
@_def("broadcast_arrays")
def s_broadcast_arrays(*a, subok=False): return [wrap(x) for x in np.broadcast_arrays(*[base(toarr(v)) for v in a])]
@_def("broadcast_to")
def s_broadcast_to(a, shape, subok=False): return f_broadcast_to(a, shape)
@_def("broadcast")
def s_broadcast(*a): return np.broadcast(*[base(toarr(v)) for v in a])
@_def("atleast_1d")
def s_at1(*a): 
    r = [toarr(x) if toarr(x).ndim >= 1 else toarr(x).reshape(1) for x in a]; return r[0] if len(r) == 1 else r
@_def("atleast_2d")
def s_at2(*a):
    r = []
    for x in a:
        x = toarr(x); r.append(x if x.ndim >= 2 else x.reshape((1,)*(2-x.ndim)+x.shape))
    return r[0] if len(r) == 1 else r
@_def("meshgrid")
def s_meshgrid(*a, **k): return [wrap(x) for x in np.meshgrid(*[base(toarr(v)) for v in a], **k)]
@_def("einsum")
def s_einsum(*a, **k):
    if _uses_sym(a): return f_einsum(*a, **k)
    return wrap_any(np.einsum(*[_strip(x) for x in a], **k))
def _txtdigits(fmt):
    import re
    m = re.fullmatch(r"%\d*(?:\.(\d+))?([eEgf])", fmt if isinstance(fmt, str) else "")
    return int(m.group(1) or 6) if m and m.group(2) != "f" else None
@_def("savetxt")
def s_savetxt(fname, X, fmt="%.18e", **k):
    """text files keep their numbers exactly, provided the format has at least six digits"""
    from . import io
    d = _txtdigits(fmt)
    if d is None or d < 6 or k: raise Unsupported("savetxt with format %s" % (fmt,))
    x = toarr(X)
    io.VFS[fname] = ("txt", np.array(base(x if x.ndim > 1 else x.reshape(-1, 1)), dtype=object, copy=True))
@_def("loadtxt")
def s_loadtxt(fname, ndmin=0, **k):
    from . import io
    if fname not in io.VFS:
        return wrap_any(np.loadtxt(fname, ndmin=ndmin, **k))
    if k: raise Unsupported("loadtxt with options")
    r = wrap(np.array(io.VFS[fname][1], dtype=object, copy=True))
    if ndmin < 2: r = r.reshape([n for n in r.shape if n != 1])
    return r
@_def("iscomplexobj")
def s_iscomplexobj(a):
    if isinstance(a, np.ndarray) and a.dtype == OBJ: return f_iscomplexobj(a)
    if isinstance(a, SymComplex): return True
    return np.iscomplexobj(a)
@_def("isrealobj")
def s_isrealobj(a): return not s_iscomplexobj(a)
@_def("ndim")
def s_ndim(a): return toarr(a).ndim
@_def("shape")
def s_shapef(a): return toarr(a).shape
@_def("size")
def s_sizef(a, axis=None): return toarr(a).size if axis is None else toarr(a).shape[axis]
@_def("vectorize")
class s_vectorize:
    def __init__(self, f, **k): self.f = f
    def __call__(self, *a):
        bs = np.broadcast_arrays(*[base(toarr(x)) for x in a])
        return wrap(objarr([self.f(*v) for v in zip(*[b.ravel().tolist() for b in bs])], bs[0].shape))
class _R:
    def __getitem__(self, x): return wrap(np.r_[x])
snp.r_ = _R()

# scalar types: calling them on symbolic values must keep the value
def _scalar(name, kind):
    t = getattr(np, name)
    class M(type):
        def __instancecheck__(cls, x): return isinstance(x, t)
        def __call__(cls, x=0, *a, **k):
            if is_symb(x): return cast(x, t)
            if isinstance(x, np.ndarray) and x.dtype == OBJ: return toarr(x).astype(t)
            return t(x, *a, **k)
    return t
def s_builtin_min(*a, key=None, default=None, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(isinstance(x, Sym) for x in xs): return functools.reduce(s_min, xs)
    if default is not None and not xs: return default
    return builtins.min(xs, key=key) if key else builtins.min(xs)
def s_builtin_max(*a, key=None, default=None, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(isinstance(x, Sym) for x in xs): return functools.reduce(s_max, xs)
    if default is not None and not xs: return default
    return builtins.max(xs, key=key) if key else builtins.max(xs)
def s_builtin_round(x, nd=None):
    if is_symb(x):
        if nd: raise Unsupported("round to digits")
        return s_rint(x)
    return builtins.round(x) if nd is None else builtins.round(x, nd)
def _unbox(x):
    if isinstance(x, np.ndarray) and x.dtype == OBJ and x.size == 1: return x.ravel().tolist()[0]
    return x
def s_builtin_int(x=0, *a):
    x = _unbox(x)
    if isinstance(x, SymBool): return x.asint()
    if isinstance(x, Sym): return s_trunc(x)
    return builtins.int(x, *a)
def s_builtin_float(x=0.0):
    x = _unbox(x)
    if is_symb(x): return cast(x, builtins.float)
    return builtins.float(x)
def s_builtin_complex(re=0, im=0):
    re, im = _unbox(re), _unbox(im)
    if is_symb(re) or is_symb(im): return SymComplex(re, im) if not isinstance(re, SymComplex) else re
    return builtins.complex(re, im)
def s_builtin_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        import numbers
        for q in ts:
            if q in (builtins.int, np.integer, numbers.Integral) and x.isint: return True
            if q in (builtins.float, np.floating, np.float64) and not x.isint: return True
            if q in (np.number, numbers.Number, numbers.Real): return True
    return builtins.isinstance(x, t)
def s_builtin_sum(xs, start=0):
    return builtins.sum(xs, start)
