"""ducc0.sht for symbolic coefficients and pixels.

Every ducc0 transform is a linear operator that is fixed by its concrete arguments (ring positions,
band limits, layout, spin). The operator's matrix is read off by calling the real ducc0 on unit
vectors, and is then applied to the symbolic values. What is symbolic is thus the whole space of
coefficients or pixel values; ducc0's own numerics are taken as given, as numpy's are.
"""
import numpy as np
from fractions import Fraction
from .core import Sym, SymComplex, Unsupported
from . import core, snp as S
from .snp import toarr, objarr, is_symb, base
from .fourier import ducc0

_cache = {}

def conc(v):
    """a concrete argument of ducc0"""
    if v is None or isinstance(v, (str, bool, int, float, np.integer, np.floating)): return v
    if isinstance(v, Sym):
        if not v.isconst(): raise Unsupported("a symbolic argument of a ducc0 transform")
        c = v.const()
        return int(c) if v.isint else float(c)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            dt = S.effdtype(v)
            r = np.array([conc(e) for e in base(v).reshape(-1)], dtype=dt if dt.kind in "iuf" else float).reshape(v.shape)
            return r
        return np.asarray(v)
    if isinstance(v, (list, tuple)): return type(v)(conc(e) for e in v)
    raise Unsupported("ducc0 argument of type %s" % type(v).__name__)

def rnd(c):
    """a float as a rational with a bounded denominator"""
    return Fraction(round(c*2**52), 2**52)

def key(v):
    if isinstance(v, np.ndarray): return (v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (list, tuple)): return tuple(key(e) for e in v)
    return (type(v).__name__, v)

def check(cond, msg):
    if not cond: raise RuntimeError("ducc0: "+msg)

def linop(fname, iname, oname):
    icplx, ocplx = iname == "alm", oname == "alm"
    def f(**kw):
        import ducc0 as real
        func = real.sht.experimental.__dict__[fname] if hasattr(real.sht, "experimental") else getattr(real.sht, fname)
        x = kw.pop(iname); out = kw.pop(oname, None)
        x = toarr(x)
        cplx = S.effdtype(x).kind == "c"
        check(cplx == icplx, "%s must be %s" % (iname, "complex" if icplx else "real"))
        if out is not None:
            check(isinstance(out, np.ndarray), "bad output array")
            check(S.effdtype(out).kind == ("c" if ocplx else "f"), "%s must be %s" % (oname, "complex" if ocplx else "real"))
            oshape = tuple(out.shape)
        else: oshape = None
        kw = {k: conc(v) for k, v in kw.items()}
        for k in ("nphi", "ringstart", "mstart"):        # the stand-in for numpy does not tell uint64 from int
            if kw.get(k) is not None: kw[k] = np.asarray(kw[k]).astype(np.uint64)
        ck = (fname, x.shape, oshape)+tuple((k, key(v)) for k, v in sorted(kw.items()))
        if ck not in _cache: _cache[ck] = matrix(func, x.shape, oshape, kw, iname, oname, icplx, ocplx)
        shp, rows = _cache[ck]
        vals = []
        for e in base(x).reshape(-1):
            if icplx:
                e = SymComplex.lift(e)
                vals += [e.re, e.im]
            else: vals.append(e)
        vals = [core.asfloat(v) if isinstance(v, Sym) else v for v in vals]
        flat = []
        old = base(out).reshape(-1) if out is not None else None
        for i, row in enumerate(rows):
            if row is None: flat.append(old[i]); continue
            v = [lincomb(r, vals) for r in row]
            flat.append(SymComplex(v[0], v[1]) if ocplx else v[0])
        if out is None: return S.objarr(flat, shp).view(S.SymArr)
        out[...] = S.objarr(flat, shp)
        return out
    return f

def lincomb(row, vals):
    acc = {}; c0 = Fraction(0)
    for j, c in row:
        v = vals[j]
        if isinstance(v, Sym):
            for m, k in v.p.items(): acc[m] = acc.get(m, 0)+k*c
        else:
            acc[()] = acc.get((), 0)+Fraction(float(v))*c if not isinstance(v, Fraction) else acc.get((), 0)+v*c
    acc = {m: k for m, k in acc.items() if k}
    if all(not isinstance(v, Sym) or v.isconst() for v in vals): return float(acc.get((), 0))
    return Sym(acc, False)

def matrix(func, ishape, oshape, kw, iname, oname, icplx, ocplx):
    n = int(np.prod(ishape))
    cols = []; shp = oshape; touched = None
    def call(x):
        k = dict(kw); k[iname] = x
        if oshape is not None: k[oname] = np.full(oshape, np.nan, complex if ocplx else float)
        r = func(**k)
        return np.array(k[oname] if oshape is not None else r)
    for i in range(n):
        for u in ((1, 1j) if icplx else (1,)):
            x = np.zeros(n, complex if icplx else float); x[i] = u
            r = call(x.reshape(ishape)); shp = r.shape
            cols.append(r.reshape(-1))
    if not cols:
        r = call(np.zeros(ishape, complex if icplx else float)); shp = r.shape
    rows = []
    for o in range(int(np.prod(shp))):
        cs = [c[o] for c in cols]
        if any(np.isnan(c) for c in cs): rows.append(None); continue
        parts = ([c.real for c in cs], [c.imag for c in cs]) if ocplx else (cs,)
        rows.append([[(j, rnd(float(c))) for j, c in enumerate(p) if abs(c) > 1e-14] for p in parts])
    return shp, rows

_ops = [("synthesis", "alm", "map"), ("adjoint_synthesis", "map", "alm"), ("synthesis_2d", "alm", "map"), ("adjoint_synthesis_2d", "map", "alm"),
    ("analysis_2d", "map", "alm"), ("adjoint_analysis_2d", "alm", "map"), ("synthesis_general", "alm", "map"), ("adjoint_synthesis_general", "map", "alm")]
for n_, i_, o_ in _ops: setattr(ducc0.sht.experimental, n_, linop(n_, i_, o_))

def gridweights(name, n):
    import ducc0 as real
    return real.sht.experimental.get_gridweights(conc(name), int(conc(n)))
ducc0.sht.experimental.get_gridweights = gridweights

def rotate_alm(alm, lmax, psi, theta, phi, nthreads=1, mmax_in=None, mmax_out=None):
    import ducc0 as real
    x = toarr(alm)
    check(x.ndim == 1, "rotate_alm: dimension mismatch")
    check(S.effdtype(x).kind == "c", "alm must be complex")
    lmax, psi, theta, phi = int(conc(lmax)), float(conc(psi)), float(conc(theta)), float(conc(phi))
    check(x.size == (lmax+1)*(lmax+2)//2, "rotate_alm: bad number of coefficients")
    ck = ("rot", x.size, lmax, psi, theta, phi)
    if ck not in _cache:
        _cache[ck] = matrix(lambda alm: real.sht.rotate_alm(alm, lmax=lmax, psi=psi, theta=theta, phi=phi, nthreads=1), x.shape, None, {}, "alm", "out", True, True)
    shp, rows = _cache[ck]
    vals = []
    for e in base(x).reshape(-1):
        e = SymComplex.lift(e); vals += [e.re, e.im]
    return S.objarr([SymComplex(lincomb(r[0], vals), lincomb(r[1], vals)) for r in rows], shp).view(S.SymArr)
ducc0.sht.rotate_alm = rotate_alm

def get_deflected_angles(**kw):
    """positions and rotations for concrete deflections: ducc0's own"""
    import ducc0
    f = {}
    for k, v in kw.items():
        if isinstance(v, (np.ndarray, list)): v = conc(v)
        f[k] = v
    f["deflect"] = np.ascontiguousarray(f["deflect"], float)
    f["theta"], f["phi0"], f["dphi"] = [np.asarray(f[k], float) for k in ("theta", "phi0", "dphi")]
    f["nphi"] = np.asarray(f["nphi"]).astype(np.uint64); f["ringstart"] = np.asarray(f["ringstart"]).astype(np.uint64)
    return S.toarr(ducc0.misc.get_deflected_angles(**f))
ducc0.misc.get_deflected_angles = get_deflected_angles
