"""A model of astropy.wcs.WCS for symbolic execution.

 plain ("" ctype): world = (pix+1-crpix)*cdelt + crval, no wrapping
 CAR with crval[1]==0: exact, including wcslib's longitude wrapping (|crval|<=180)
 CEA with crval[1]==0: same longitudes, dec through sin/arcsin as uninterpreted functions
 everything else: an uninterpreted invertible function of the intermediate coordinates and
 of (ctype, crval, lonpole, pv)
The model is validated against the real astropy on every concrete replay.
"""
import math, copy
from fractions import Fraction
import numpy as np
from . import core, snp as S
from .core import Sym, Unsupported, is_symb, ite, s_floor, s_trunc, s_uf, s_sin, PI, E

D2R = PI/180
R2D = 180/PI


def _arr(v):
    a = S.toarr(v)
    a = S.base(a).astype(object).copy()
    if a.shape != (2,): raise ValueError("wcs array must have length 2")
    return S.objarr([_real(x) for x in a.tolist()], (2,)).view(S.SymArr)

def _real(x):
    return core.asfloat(x) if is_symb(x) else float(x)


class SymPrm:
    def __init__(self):
        self._cdelt = _arr([1.0, 1.0]); self._crpix = _arr([0.0, 0.0]); self._crval = _arr([0.0, 0.0])
        self.ctype = ["", ""]; self.cunit = ["", ""]
        self.lonpole = math.nan; self.latpole = 90.0; self._pv = []
        self.bounds = (True, True); self.radesys = ""; self.equinox = math.nan
    @property
    def ctype(self): return self._ctype
    @ctype.setter
    def ctype(self, v):
        self._ctype = [str(x) for x in v]
        if self._ctype[0] and not getattr(self, "cunit", [""])[0]: self.cunit = ["deg", "deg"]
    cdelt = property(lambda s: s._cdelt, lambda s, v: setattr(s, "_cdelt", _arr(v)))
    crpix = property(lambda s: s._crpix, lambda s, v: setattr(s, "_crpix", _arr(v)))
    crval = property(lambda s: s._crval, lambda s, v: setattr(s, "_crval", _arr(v)))
    def set_pv(self, pv): self._pv = [tuple(p) for p in pv]
    def get_pv(self): return list(self._pv)
    def bounds_check(self, p2w=True, w2p=True): self.bounds = (p2w, w2p)
    def has_cd(self): return False
    def has_pc(self): return False
    def has_pci_ja(self): return False
    def has_cdi_ja(self): return False
    @property
    def pc(self): return np.eye(2).view(S.SymArr)
    def get_pc(self): return self.pc
    def get_cdelt(self): return self._cdelt
    def set(self): pass
    def copy(self):
        r = SymPrm.__new__(SymPrm)
        for k, v in self.__dict__.items():
            r.__dict__[k] = v.copy() if isinstance(v, (np.ndarray, list)) else v
        return r
    def compare(self, o, cmp=0, tolerance=0.0):
        """1 = WCSCOMPARE_ANCILLARY: everything but ancillary; crpix etc. compared within tolerance"""
        if list(self.ctype) != list(o.ctype) or len(self._pv) != len(o._pv): return False
        def close(a, b):
            if tolerance == 0: return a == b
            a, b = Sym.lift(a), Sym.lift(b)
            d = a-b
            tol = core.snap(tolerance)
            if not is_symb(d): return abs(d) <= tol*0+tolerance or d == 0
            return core.b_and(d <= tol, d >= -tol)
        ok = []
        for x, y in ((self._crpix, o._crpix), (self._crval, o._crval), (self._cdelt, o._cdelt)):
            ok += [close(a, b) for a, b in zip(x.tolist(), y.tolist())]
        for p, q in zip(self._pv, o._pv):
            ok += [p[:2] == q[:2], close(p[2], q[2])]
        la, lb = self.lonpole, o.lonpole
        if not (la != la and lb != lb): ok.append(close(la, lb))
        r = core.conj_all(ok)
        return bool(r)


CYL = ("CAR", "CEA", "MER")

class _Meta(type):
    """pixell installs its own string form on the class; it formats numbers, which symbolic terms are not"""
    def __setattr__(cls, k, v):
        if k not in ("__repr__", "__str__"): type.__setattr__(cls, k, v)

class SymWCS(metaclass=_Meta):
    def __repr__(self): return "wcs"
    def __init__(self, header=None, naxis=None, *a, **k):
        self.wcs = SymPrm()
        self.naxis = 2
        if header is not None: self._from_header(header)
    def _from_header(self, h):
        p = self.wcs
        if not hasattr(h, "get"): raise Unsupported("wcs from header text")
        p.ctype = [h.get("CTYPE1", ""), h.get("CTYPE2", "")]
        p.cunit = [h.get("CUNIT1", p.cunit[0]), h.get("CUNIT2", p.cunit[1])]
        p.crpix = [h.get("CRPIX1", 0.0), h.get("CRPIX2", 0.0)]
        p.crval = [h.get("CRVAL1", 0.0), h.get("CRVAL2", 0.0)]
        p.cdelt = [h.get("CDELT1", 1.0), h.get("CDELT2", 1.0)]
        if "LONPOLE" in h:
            v = h["LONPOLE"]
            p.lonpole = math.nan if not is_symb(v) and v == (0.0 if p.ctype[0][-3:] in CYL else 180.0) else v
        p._pv = sorted((int(k[2]), int(k.split("_")[1]), h[k]) for k in h if k.startswith("PV"))
    def to_header(self, relax=None, key=None):
        p = self.wcs
        from .io import Header
        h = Header(dict(WCSAXES=2, CRPIX1=p.crpix[0], CRPIX2=p.crpix[1], CDELT1=p.cdelt[0], CDELT2=p.cdelt[1],
                   CRVAL1=p.crval[0], CRVAL2=p.crval[1]))
        if p.ctype[0]:
            h.update(dict(CUNIT1="deg", CUNIT2="deg", CTYPE1=p.ctype[0], CTYPE2=p.ctype[1], LATPOLE=p.latpole))
            h["LONPOLE"] = p.lonpole if p.lonpole == p.lonpole else 0.0 if p.ctype[0][-3:] in CYL else 180.0
            for i, m, v in p._pv: h["PV%d_%d" % (i, m)] = v
            h["RADESYS"] = "ICRS"
        h["MJDREF"] = 0.0
        return h
    def deepcopy(self):
        r = SymWCS.__new__(type(self))
        r.wcs = self.wcs.copy(); r.naxis = self.naxis
        return r
    def sub(self, axes):
        if axes != 2: raise Unsupported("wcs.sub(%r)" % (axes,))
        return self.deepcopy()
    def copy(self):
        r = SymWCS.__new__(type(self)); r.wcs = self.wcs; r.naxis = self.naxis; return r
    def __deepcopy__(self, memo): return self.deepcopy()
    def __copy__(self): return self.copy()
    def fix(self, *a, **k): return {}
    @property
    def celestial(self): return self

    # ---------------------------------------------------------------- transforms
    def _kind(self):
        p = self.wcs
        if not p.ctype[0]: return "plain"
        t = p.ctype[0][-3:]
        if t in ("CAR", "CEA", "MER"):
            c1 = p.crval[1]
            if bool(c1 == 0) and p.lonpole != p.lonpole: return t
        return "opaque"

    def _lam(self):
        for i, m, v in self.wcs._pv:
            if (i, m) == (2, 1): return v
        return 1

    def _p2w(self, x, y, org):
        p = self.wcs
        u = (_R(x)+(1-org)-p.crpix[0])*p.cdelt[0]
        v = (_R(y)+(1-org)-p.crpix[1])*p.cdelt[1]
        kind = self._kind()
        if kind == "plain": return u+p.crval[0], v+p.crval[1]
        if kind in ("CAR", "CEA", "MER"):
            lon = wraplon(u, p.crval[0])
            if kind == "CAR":
                if p.bounds[0] and bool((v > 90) | (v < -90)): return math.nan, math.nan
                return lon, v
            if kind == "CEA":
                s = v*self._lam()*D2R
                if bool((s > 1) | (s < -1)): return math.nan, math.nan
                return lon, S.UF["arcsin"](s)*R2D
            return lon, 2*S.UF["arctan"](S.UF["exp"](v*D2R))*R2D-90
        return self._opaque("fwd", u, v)

    def _w2p(self, lon, lat, org):
        p = self.wcs
        kind = self._kind()
        lon, lat = _R(lon), _R(lat)
        if kind == "plain": u, v = lon-p.crval[0], lat-p.crval[1]
        elif kind in ("CAR", "CEA", "MER"):
            if p.bounds[1] and bool((lat > 90) | (lat < -90)): return math.nan, math.nan
            u = wrap180(lon-p.crval[0])
            if kind == "CAR": v = lat
            elif kind == "CEA": v = s_sin_any(lat*D2R)*R2D/self._lam()
            else: v = S.UF["log"](S.UF["tan"]((90+lat)/2*D2R))*R2D
        else: u, v = self._opaque("inv", lon, lat)
        return u/p.cdelt[0]+p.crpix[0]-(1-org), v/p.cdelt[1]+p.crpix[1]-(1-org)

    def _opaque(self, what, a, b):
        p = self.wcs
        e = E()
        par = [p.crval[0], p.crval[1]]+([p.lonpole] if p.lonpole == p.lonpole else [])+[v for _, _, v in p._pv]
        tag = "%s_%s" % (p.ctype[0][-3:], "p" if p.lonpole == p.lonpole else "n")
        pk = tuple(Sym.lift(x).key() for x in par)
        tbl = e.__dict__.setdefault("opq", {})
        ka = (tag, pk, Sym.lift(a).key(), Sym.lift(b).key())
        r = tbl.get((what,)+ka)
        if r is not None: return r
        # zenithal projections: the reference point is the origin of the intermediate plane
        if p.ctype[0][-3:] in ("TAN", "ZEA", "ARC", "SIN"):
            if what == "inv" and Sym.lift(a).p == Sym.lift(p.crval[0]).p and Sym.lift(b).p == Sym.lift(p.crval[1]).p: return _R(0), _R(0)
        rng = [(-360, 360), (-90, 90)] if what == "fwd" else [(None, None)]*2
        r = (s_uf("%s_%s_0" % (what, tag), a, b, *par, rng=rng[0]), s_uf("%s_%s_1" % (what, tag), a, b, *par, rng=rng[1]))
        tbl[(what,)+ka] = r
        other = "inv" if what == "fwd" else "fwd"
        tbl[(other, tag, pk, Sym.lift(r[0]).key(), Sym.lift(r[1]).key())] = (_R(a), _R(b))
        return r

    def _apply(self, f, args):
        if len(args) == 2:
            a, org = S.toarr(args[0]), int(args[1])
            if a.ndim != 2 or a.shape[1] != 2: raise ValueError("expected an [n,2] array")
            o = np.empty(a.shape, object)
            for i in range(a.shape[0]): o[i, 0], o[i, 1] = f(a[i, 0], a[i, 1], org)
            return o.view(S.SymArr)
        x, y, org = args
        xs, ys = np.broadcast_arrays(S.base(S.toarr(x)), S.base(S.toarr(y)))
        r = [f(a, b, int(org)) for a, b in zip(xs.ravel().tolist(), ys.ravel().tolist())]
        return [S.objarr([v[0] for v in r], xs.shape).view(S.SymArr), S.objarr([v[1] for v in r], xs.shape).view(S.SymArr)]
    def wcs_pix2world(self, *args): return self._apply(self._p2w, args)
    def wcs_world2pix(self, *args): return self._apply(self._w2p, args)
    all_pix2world = wcs_pix2world
    all_world2pix = wcs_world2pix
    def __repr__(self): return "SymWCS"


def _R(x):
    """as an exact real"""
    s = Sym.lift(x)
    if s is None: raise Unsupported("wcs of %r" % (x,))
    return Sym(dict(s.p), False)

def wraplon(u, crval):
    """wcslib's sphx2s for the cylindrical case with the pole at the pole"""
    c = _R(crval)
    lon = u+c
    pos = c >= 0
    if is_symb(pos): pos = bool(pos)
    # whole turns are kept as integer terms
    lon = lon-360*(ite(lon < 0, -1, 0) if pos else ite(lon > 0, 1, 0))
    return lon-360*ite(lon > 360, 1, ite(lon < -360, -1, 0))

def wrap180(d):
    d = d-360*s_trunc(d/360)
    return d-360*ite(d > 180, 1, ite(d < -180, -1, 0))

def s_sin_any(x):
    if is_symb(x): return s_sin(x)
    return math.sin(x)
