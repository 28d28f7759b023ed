"""scipy pieces for symbolic data. Anything else falls through to scipy itself."""
import types, importlib
import numpy as np
from . import core
from .core import Unsupported, is_symb, conj_all
from . import snp as S


class Pkg(types.ModuleType):
    def __init__(self, name, **parts):
        super().__init__(name)
        self.__dict__["_real"] = None
        self.__dict__.update(parts)
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        if self.__dict__["_real"] is None: self.__dict__["_real"] = importlib.import_module(self.__name__)
        return getattr(self.__dict__["_real"], a)


class cKDTree:
    """neighbour queries by comparing every pair: same result as the tree, indices in increasing order"""
    def __init__(self, data, *a, **k): self.data = S.toarr(data)
    def query_ball_tree(self, other, r, p=2., eps=0):
        if p != 2 or eps: raise Unsupported("cKDTree options")
        return [[j for j in range(len(other.data)) if bool(_d2(x, other.data[j]) <= r*r)] for x in self.data]
    def query_ball_point(self, x, r, **k):
        if k: raise Unsupported("cKDTree options")
        x = S.toarr(x)
        if x.ndim == 1: return [j for j in range(len(self.data)) if bool(_d2(x, self.data[j]) <= r*r)]
        return [self.query_ball_point(v, r) for v in x]

def _d2(a, b):
    t = 0
    for u, v in zip(list(a), list(b)): t = (u-v)*(u-v)+t
    return t


def _basis(f, arr, const=False):
    """f is linear (or affine) in arr: apply it to each basis vector and combine"""
    arr = S.toarr(arr)
    flat = [x for x in arr.reshape(-1)]
    base = np.asarray(f(np.zeros(arr.shape)))
    out = [v if const else 0 for v in base.reshape(-1).tolist()]
    for i, v in enumerate(flat):
        e = np.zeros(len(flat)); e[i] = 1
        col = (np.asarray(f(e.reshape(arr.shape)))-base).reshape(-1)
        for j, c in enumerate(col):
            if c != 0: out[j] = out[j]+core.Fraction(c)*v if is_symb(v) else out[j]+float(c)*v
    return S.toarr(out).reshape(base.shape)

def _symany(a):
    a = S.toarr(a)
    return a.dtype == object and any(is_symb(x) for x in a.reshape(-1))

def spline_filter(input, order=3, output=None, mode="mirror"):
    import scipy.ndimage as nd
    if not _symany(input): return nd.spline_filter(_plain(input), order=order, mode=mode)
    return _basis(lambda a: nd.spline_filter(a, order=order, mode=mode), input)

def _plain(a):
    a = S.toarr(a)
    if a.dtype != object: return np.asarray(a)
    return np.array([x for x in a.reshape(-1)]).reshape(a.shape)

def _fold(x, n, mode):
    """the coordinate inside the array that x stands for, or None if it is outside"""
    if mode in ("constant",):
        return None if bool(x < 0) or bool(x > n-1) else x
    if mode == "nearest":
        if bool(x < 0): return 0
        return n-1 if bool(x > n-1) else x
    if mode == "grid-wrap":
        return x-n*int(core.s_floor(x/n))
    if mode == "mirror":
        if n == 1: return 0
        p = 2*(n-1)
        x = x-p*int(core.s_floor(x/p))
        return p-x if bool(x > n-1) else x
    if mode == "wrap":
        p = n-1
        if bool(x < 0) or bool(x > p):
            if p == 0: return 0
            x = x-p*int(core.s_floor(x/p))
        return x
    raise Unsupported("border %s with symbolic coordinates" % mode)

def map_coordinates(input, coordinates, output=None, order=3, mode="constant", cval=0.0, prefilter=True):
    import scipy.ndimage as nd
    if not _symany(coordinates):
        co = _plain(coordinates).astype(float)
        if not _symany(input) and not is_symb(cval):
            return nd.map_coordinates(_plain(input), co, order=order, mode=mode, cval=cval, prefilter=prefilter)
        if is_symb(cval):
            w = _plain(nd.map_coordinates(np.zeros(S.toarr(input).shape), co, order=order, mode=mode, cval=1.0, prefilter=prefilter))
            r = map_coordinates(input, coordinates, None, order, mode, 0.0, prefilter)
            return S.toarr([(a+core.Fraction(float(b))*cval if b else a) for a, b in zip([v for v in S.toarr(r).reshape(-1)], w.reshape(-1).tolist())]).reshape(r.shape)
        return _basis(lambda a: nd.map_coordinates(a, co, order=order, mode=mode, cval=cval, prefilter=prefilter), input, const=True)
    if order not in (0, 1): raise Unsupported("spline order %d with symbolic coordinates" % order)
    a = S.toarr(input); co = S.toarr(coordinates)
    sh = co.shape[1:]; co = co.reshape(co.shape[0], -1)
    out = []
    for k in range(co.shape[1]):
        xs = [_fold(co[d, k], a.shape[d], mode) for d in range(len(co))]
        if any(x is None for x in xs): out.append(cval); continue
        pts = [((), 1)]
        for d, x in enumerate(xs):
            n = a.shape[d]
            if order == 0:
                i = int(core.s_floor(x+core.Fraction(1, 2))); opt = [(i, 1)]
            else:
                i = int(core.s_floor(x)); f = x-i
                opt = [(i, 1-f), (i+1, f)]
            res = []
            for i, w in opt:
                if i >= n:
                    if mode == "grid-wrap": i -= n
                    else: i = n-1 if order == 0 else max(n-2, 0)
                res.append((i, w))
            pts = [(I+(i,), w*v) for I, w in pts for i, v in res]
        t = 0
        for I, w in pts: t = w*a[I]+t
        out.append(t)
    return S.toarr(out).reshape(sh)

ndimage = Pkg("scipy.ndimage", map_coordinates=map_coordinates, spline_filter=spline_filter)

def simpson(y, x=None, dx=1.0, axis=-1):
    import scipy.integrate as si
    if not _symany(y): return si.simpson(_plain(y), x=None if x is None else _plain(x), dx=dx, axis=axis)
    if _symany(x) if x is not None else False: raise Unsupported("simpson at symbolic positions")
    y = S.toarr(y)
    if y.ndim != 1: raise Unsupported("simpson with several dimensions")
    w = [float(si.simpson(np.eye(len(y))[i], x=None if x is None else _plain(x).astype(float), dx=dx)) for i in range(len(y))]
    t = 0
    for a, b in zip(y, w): t = t+core.Fraction(b)*a
    return t
integrate = Pkg("scipy.integrate", simpson=simpson)

spatial = Pkg("scipy.spatial", cKDTree=cKDTree)
scipy = Pkg("scipy", spatial=spatial, ndimage=ndimage, integrate=integrate)
def _njit(f=None, **k): return f if callable(f) else (lambda g: g)
numba = Pkg("numba", njit=_njit, jit=_njit, vectorize=None, prange=range)
PARTS = {"numba": numba, "scipy": scipy, "scipy.spatial": spatial, "scipy.ndimage": ndimage, "scipy.integrate": integrate}
