"""Discrete Fourier transforms of symbolic arrays.

What numpy.fft and ducc0.fft/nufft compute is written out here as finite sums (their
definition); everything pixell does before and after - which transform is chosen, axes,
lengths, normalisation, ordering, phases - is pixell's own code.
"""
import math, types, cmath
from fractions import Fraction
import numpy as np
from . import snp as S
from .core import Sym, SymComplex, SymBool, Unsupported, is_symb, cast, s_cos, s_sin, PI
from .snp import base, toarr, wrap, objarr, fn, snp, OBJ, s_iscomplexobj, SymArr

_EX = {0: 1, 1: Fraction(1, 2), 2: Fraction(-1, 2), 3: -1}
def cosfrac(k, n):
    """cos(2 pi k/n), exact where it is rational"""
    k %= n
    for num, den, v in ((0, 1, 1.0), (1, 4, 0.0), (1, 2, -1.0), (3, 4, 0.0), (1, 6, 0.5), (5, 6, 0.5), (1, 3, -0.5), (2, 3, -0.5)):
        if k*den == num*n: return v
    return math.cos(2*math.pi*k/n)
def sinfrac(k, n): return cosfrac(4*k-n, 4*n)

def _cmulsum(vals, cs):
    """sum of complex values times complex constants"""
    re, im = 0.0, 0.0
    z = lambda x: not is_symb(x) and x == 0
    for v, (c, s) in zip(vals, cs):
        v = SymComplex.lift(v)
        if not z(v.re):
            if c: re = re+v.re*c
            if s: im = im+v.re*s
        if not z(v.im):
            if s: re = re-v.im*s
            if c: im = im+v.im*c
    return SymComplex(re, im)

def _along(a, axis, m, coef):
    """out[k] = sum_j a[j]*coef(k, j) along one axis, m outputs"""
    a = np.moveaxis(base(a), axis, -1)
    if a.dtype != OBJ: a = a.astype(object)
    out = np.empty(a.shape[:-1]+(m,), object)
    n = a.shape[-1]
    co = [[coef(k, j) for j in range(n)] for k in range(m)]
    for I in np.ndindex(a.shape[:-1]):
        vs = a[I].tolist()
        for k in range(m): out[I+(k,)] = _cmulsum(vs, co[k])
    return np.moveaxis(out, -1, axis)

def _real(a): return objarr([SymComplex.lift(v).re for v in a.ravel().tolist()], a.shape)
def _cplx(a):
    a = base(toarr(a))
    return objarr([v if isinstance(v, SymComplex) else SymComplex.lift(v) for v in a.ravel().tolist()], a.shape)
def _simp(a):
    """complex constants as python complex numbers"""
    return objarr([complex(v.re, v.im) if isinstance(v, SymComplex) and not is_symb(v.re) and not is_symb(v.im) else v for v in a.ravel().tolist()], a.shape)

def _axes(axes, nd):
    if axes is None: return list(range(nd))
    if isinstance(axes, (int, np.integer)): axes = (axes,)
    r = []
    for x in axes:
        x = int(x)
        if x < -nd or x >= nd: raise ValueError("axis %d out of bounds" % x)
        r.append(x % nd)
    if len(set(r)) != len(r): raise ValueError("repeated axis")
    return r

def dft(a, axes, sign):
    a = _cplx(a)
    for ax in axes:
        n = a.shape[ax]
        a = _along(a, ax, n, lambda k, j: (cosfrac(k*j, n), sign*sinfrac(k*j, n)))
    return _simp(a)

def rdft(a, axes):
    a = _cplx(a)
    ax = axes[-1]; n = a.shape[ax]
    a = _along(a, ax, n//2+1, lambda k, j: (cosfrac(k*j, n), -sinfrac(k*j, n)))
    for ax in axes[:-1]:
        n2 = a.shape[ax]
        a = _along(a, ax, n2, lambda k, j: (cosfrac(k*j, n2), -sinfrac(k*j, n2)))
    return _simp(a)

def irdft(a, axes, n):
    """unnormalised inverse real transform to length n along the last axis"""
    a = _cplx(a)
    for ax in axes[:-1]:
        n2 = a.shape[ax]
        a = _along(a, ax, n2, lambda k, j: (cosfrac(k*j, n2), sinfrac(k*j, n2)))
    ax = axes[-1]
    m = a.shape[ax]
    if m < n//2+1:
        pad = [(0, 0)]*a.ndim; pad[ax] = (0, n//2+1-m)
        z = np.empty([n//2+1 if i == ax else x for i, x in enumerate(a.shape)], object); z.fill(0.0)
        z[tuple(slice(0, m) if i == ax else slice(None) for i in range(a.ndim))] = a
        a = z
    a = np.take(a, range(n//2+1), axis=ax)
    w = lambda j: 1 if j == 0 or 2*j == n else 2
    # the real part: the imaginary part of the mean and of the Nyquist mode does not enter
    a = _along(a, ax, n, lambda k, j: (w(j)*cosfrac(k*j, n), w(j)*sinfrac(k*j, n)))
    return _real(a)

# ------------------------------------------------------------ numpy.fft
def _np(name, f):
    S.FN[name] = f
    def g(a, *r, **k):
        a = toarr(a)
        if a.dtype == OBJ: return wrap(f(a, *r, **k))
        return wrap(getattr(np.fft, name)(base(a), *r, **k))
    g.__name__ = name
    setattr(fftmod, name, g)
class _Mod(types.ModuleType):
    def __getattr__(self, a): return getattr(np.fft, a)
fftmod = _Mod("numpy.fft")
snp.fft = fftmod

def _norm(norm, n, inverse):
    if norm in (None, "backward"): return Fraction(1, n) if inverse else 1
    if norm == "forward": return 1 if inverse else Fraction(1, n)
    raise Unsupported("ortho transforms")
def _scale(r, f):
    if f == 1: return wrap(r)
    return wrap(objarr([v*float(f) if not is_symb(v) else v*f for v in r.ravel().tolist()], r.shape))
def _resize(a, s, axes):
    a = base(toarr(a))
    if s is None: return a
    for ax, n in zip(axes, s):
        n = int(n); m = a.shape[ax]
        if n <= m: a = np.take(a, range(n), axis=ax)
        else:
            z = np.empty([n if i == ax else x for i, x in enumerate(a.shape)], object); z.fill(0.0)
            z[tuple(slice(0, m) if i == ax else slice(None) for i in range(a.ndim))] = a
            a = z
    return a
def _sz(a, axes): 
    r = 1
    for x in axes: r *= a.shape[x]
    return r
def n_fftn(a, s=None, axes=None, norm=None, out=None):
    ax = _axes(axes, np.ndim(a)); a = _resize(a, s, ax); return _scale(dft(a, ax, -1), _norm(norm, _sz(a, ax), False))
def n_ifftn(a, s=None, axes=None, norm=None, out=None):
    ax = _axes(axes, np.ndim(a)); a = _resize(a, s, ax); return _scale(dft(a, ax, 1), _norm(norm, _sz(a, ax), True))
def n_rfftn(a, s=None, axes=None, norm=None, out=None):
    if s_iscomplexobj(a): raise TypeError("ufunc 'rfft_n_even' did not contain a loop with signature matching types complex128")
    ax = _axes(axes, np.ndim(a)); a = _resize(a, s, ax); return _scale(rdft(a, ax), _norm(norm, _sz(a, ax), False))
def n_irfftn(a, s=None, axes=None, norm=None, out=None):
    ax = _axes(axes, np.ndim(a)); a = base(toarr(a))
    n = int(s[-1]) if s is not None else 2*(a.shape[ax[-1]]-1)
    if s is not None: a = _resize(a, s[:-1], ax[:-1])
    r = irdft(a, ax, n); return _scale(r, _norm(norm, _sz(r, ax), True))
for _n, _f in (("fftn", n_fftn), ("ifftn", n_ifftn), ("rfftn", n_rfftn), ("irfftn", n_irfftn)): _np(_n, _f)
def _one(f, two=False):
    def g(a, n=None, axis=-1, norm=None, out=None): return f(a, None if n is None else (n,), (axis,), norm)
    def g2(a, s=None, axes=(-2, -1), norm=None, out=None): return f(a, s, axes, norm)
    return g2 if two else g
for _n, _f in (("fft", n_fftn), ("ifft", n_ifftn), ("rfft", n_rfftn), ("irfft", n_irfftn)):
    _np(_n, _one(_f)); _np(_n+"2", _one(_f, True))
def _shift(inv):
    def f(x, axes=None):
        x = toarr(x); ax = _axes(axes, x.ndim)
        r = np.roll(base(x), [-(x.shape[i]//2) if inv else x.shape[i]//2 for i in ax], ax)
        return S._rewrap(r, S.pickcls([x]), "roll")
    return f
_np("fftshift", _shift(False)); _np("ifftshift", _shift(True))
def _fftfreq(n, d=1.0, **k):
    r = np.fft.fftfreq(int(n))
    return wrap(r.astype(object)/d) if is_symb(d) else wrap(np.fft.fftfreq(int(n), float(d) if not isinstance(d, np.ndarray) else d))
def _rfftfreq(n, d=1.0, **k):
    r = np.fft.rfftfreq(int(n))
    return wrap(r.astype(object)/d) if is_symb(d) else wrap(np.fft.rfftfreq(int(n), float(d)))
fftmod.fftfreq = _fftfreq; fftmod.rfftfreq = _rfftfreq

# ------------------------------------------------------------ ducc0
ducc0 = types.ModuleType("ducc0")
ducc0.__version__ = "0.34"
class _Sub(types.ModuleType):
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        def g(*x, **k): raise Unsupported("ducc0.%s.%s" % (self.__name__, a))
        return g
for _n in ("fft", "nufft", "sht", "misc", "healpix", "totalconvolve"): setattr(ducc0, _n, _Sub(_n))
ducc0.nufft.experimental = _Sub("nufft.experimental")
ducc0.sht.experimental = _Sub("sht.experimental")

def _store(out, r, kind):
    r = wrap(r)
    if out is None: return r
    if tuple(out.shape) != r.shape: raise RuntimeError("ducc0: dimension mismatch %s %s" % (tuple(out.shape), r.shape))
    # (numbers that happen to be whole look like integers here: not held against a real array)
    if S.effdtype(out).kind != kind and not (kind == "f" and S.effdtype(out).kind == "i"): raise RuntimeError("ducc0: output array has the wrong type")
    out[...] = r
    return out
def _inorm(inorm, n):
    if inorm == 0: return 1
    if inorm == 2: return Fraction(1, n)
    raise Unsupported("inorm")
def d_c2c(a, axes=None, forward=True, inorm=0, out=None, nthreads=1):
    a = toarr(a); ax = _axes(axes, a.ndim)
    return _store(out, _scale(dft(a, ax, -1 if forward else 1), _inorm(inorm, _sz(a, ax))), "c")
def d_r2c(a, axes=None, forward=True, inorm=0, out=None, nthreads=1):
    a = toarr(a); ax = _axes(axes, a.ndim)
    if s_iscomplexobj(a): raise RuntimeError("ducc0: r2c of complex data")
    r = rdft(a, ax)
    if not forward: r = base(np.conjugate(wrap(r)))
    return _store(out, _scale(r, _inorm(inorm, _sz(a, ax))), "c")
def d_c2r(a, axes=None, lastsize=0, forward=True, inorm=0, out=None, nthreads=1, allow_overwriting_input=False):
    a = toarr(a); ax = _axes(axes, a.ndim)
    if not s_iscomplexobj(a): raise RuntimeError("ducc0: c2r of real data")
    n = int(lastsize) or 2*a.shape[ax[-1]]-1
    if a.shape[ax[-1]] != n//2+1: raise RuntimeError("ducc0: bad lastsize")
    x = np.conjugate(a) if forward else a
    r = irdft(x, ax, n)
    return _store(out, _scale(r, _inorm(inorm, _sz(r, ax))), "f")
def _trig(kind):
    def f(a, type, axes=None, inorm=0, out=None, nthreads=1, ortho=None):
        a = toarr(a); ax = _axes(axes, a.ndim)
        if inorm: raise Unsupported("inorm in dct")
        if s_iscomplexobj(a): raise Unsupported("dct of complex data")
        r = base(a)
        if r.dtype != OBJ: r = r.astype(object)
        for x in ax:
            n = a.shape[x]
            if kind == "c":
                if type == 1:
                    if n < 2: raise RuntimeError("ducc0: DCT-I needs at least two points")
                    co = lambda k, j: (1 if j in (0, n-1) else 2)*cosfrac(j*k, 2*(n-1))
                elif type == 2: co = lambda k, j: 2*cosfrac((2*j+1)*k, 4*n)
                elif type == 3: co = lambda k, j: (1 if j == 0 else 2)*cosfrac(j*(2*k+1), 4*n)
                else: co = lambda k, j: 2*cosfrac((2*j+1)*(2*k+1), 8*n)
            else:
                if type == 1: co = lambda k, j: 2*sinfrac((j+1)*(k+1), 2*(n+1))
                elif type == 2: co = lambda k, j: 2*sinfrac((2*j+1)*(k+1), 4*n)
                elif type == 3: co = lambda k, j: (1 if j == n-1 else 2)*sinfrac((j+1)*(2*k+1), 4*n)
                else: co = lambda k, j: 2*sinfrac((2*j+1)*(2*k+1), 8*n)
            r = _real(_along(r, x, n, lambda k, j: (co(k, j), 0)))
        return _store(out, r, "f")
    return f
ducc0.fft.c2c, ducc0.fft.r2c, ducc0.fft.c2r, ducc0.fft.dct, ducc0.fft.dst = d_c2c, d_r2c, d_c2r, _trig("c"), _trig("s")
ducc0.fft.good_size = lambda n, real=False: __import__("ducc0").fft.good_size(int(n), real)

def _phase(x):
    """exp(i x) as (cos, sin)"""
    if is_symb(x): return s_cos(x), s_sin(x)
    return math.cos(x), math.sin(x)
def _modes(shape, fft_order):
    ks = []
    for n in shape:
        k = [j-n//2 for j in range(n)]
        if fft_order: k = [j if j < (n+1)//2 else j-n for j in range(n)]
        ks.append(k)
    return ks
def _coords(coord, periodicity, nd):
    P = periodicity if isinstance(periodicity, (tuple, list, np.ndarray)) else (periodicity,)*nd
    c = base(toarr(coord))
    if c.shape[1] != nd or len(P) != nd: raise RuntimeError("ducc0: dimension mismatch")
    out = []
    for p in range(c.shape[0]):
        out.append([c[p, d]*(2*math.pi/float(P[d])) for d in range(nd)])
    return out
def d_u2nu(*, grid, coord, forward=True, epsilon=1e-12, nthreads=1, verbosity=0, sigma_min=1.1, sigma_max=2.6, periodicity=2*math.pi, out=None, fft_order=False):
    g = toarr(grid)
    if not s_iscomplexobj(g): raise RuntimeError("ducc0: the grid must be complex")
    g = _cplx(g); sg = -1 if forward else 1
    ks = _modes(g.shape, fft_order)
    res = []
    for x in _coords(coord, periodicity, g.ndim):
        vs, cs = [], []
        for I in np.ndindex(g.shape):
            c, s = _phase(sum(ks[d][I[d]]*x[d] for d in range(g.ndim)))
            vs.append(g[I]); cs.append((c, sg*s))
        res.append(_cmulsum2(vs, cs))
    return _store(out, _simp(objarr(res, (len(res),))), "c")
def d_nu2u(*, points, coord, out, forward=True, epsilon=1e-12, nthreads=1, verbosity=0, sigma_min=1.1, sigma_max=2.6, periodicity=2*math.pi, fft_order=False):
    p = toarr(points)
    if p.ndim != 1: raise RuntimeError("ducc0: points must be one-dimensional")
    if not s_iscomplexobj(p): raise RuntimeError("ducc0: the points must be complex")
    p = _cplx(p).tolist(); sg = -1 if forward else 1
    ks = _modes(out.shape, fft_order); X = _coords(coord, periodicity, out.ndim)
    if len(X) != len(p): raise RuntimeError("ducc0: dimension mismatch")
    r = np.empty(out.shape, object)
    for I in np.ndindex(out.shape):
        cs = []
        for x in X:
            c, s = _phase(sum(ks[d][I[d]]*x[d] for d in range(out.ndim)))
            cs.append((c, sg*s))
        r[I] = _cmulsum2(p, cs)
    return _store(out, _simp(r), "c")
def _cmulsum2(vs, cs):
    acc = SymComplex(0.0, 0.0)
    for v, (c, s) in zip(vs, cs): acc = acc+v*SymComplex(c, s)
    return acc
ducc0.nufft.u2nu, ducc0.nufft.nu2u = d_u2nu, d_nu2u
class _IncU2NU:
    def __init__(self, grid, epsilon, nthreads=1, forward=True, periodicity=2*math.pi, fft_order=False):
        self.a = dict(grid=grid, forward=forward, periodicity=periodicity, fft_order=fft_order)
    def get_points(self, coord, out=None): return d_u2nu(coord=coord, out=out, **self.a)
ducc0.nufft.experimental.incremental_u2nu = _IncU2NU
