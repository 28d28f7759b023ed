"""shared helpers of the harnesses"""
from fractions import Fraction
from symx.ctx import case

F = Fraction

def symwcs(C, kind, tag="", sx=None, sy=None, cd=(F(1, 8), 4), cp=50, cv=170, cdx=None, cdy=None):
    """a wcs of the given projection with symbolic scale, reference pixel and reference value.
    kind: "" (plain), CAR, CEA, TAN, ... ; pixel directions are inputs unless given"""
    sx = sx if sx is not None else C.choice(tag+"sx", [-1, 1])
    sy = sy if sy is not None else C.choice(tag+"sy", [1, -1])
    cdx = C.real(tag+"cdx", *cd) if cdx is None else cdx
    cdy = C.real(tag+"cdy", *cd) if cdy is None else cdy
    cpx, cpy = C.real(tag+"cpx", -cp, cp), C.real(tag+"cpy", -cp, cp)
    cvx = C.real(tag+"cvx", -cv, cv)
    cvy = 0 if kind in ("CAR", "CEA", "MER") else C.real(tag+"cvy", -80, 80)
    return C.wcs(kind, [cvx, cvy], [sx*cdx, sy*cdy], [cpx, cpy])

def lin(w, y, x):
    """linear (intermediate) world coordinates in degrees of a pixel coordinate, from the wcs parameters alone"""
    p = w.wcs
    return (p.crval[1]+(y+1-p.crpix[1])*p.cdelt[1], p.crval[0]+(x+1-p.crpix[0])*p.cdelt[0])

def same_pos(C, w1, y1, x1, w2, y2, x2, label, period=None):
    """two pixel coordinates in two wcses are the same point of the sky"""
    a, b = lin(w1, y1, x1), lin(w2, y2, x2)
    C.same(tuple(w1.wcs.ctype), tuple(w2.wcs.ctype), label+":projection")
    C.eq(a[0], b[0], label+":y")
    if period: C.eqmod(a[1], b[1], period, label+":x")
    else: C.eq(a[1], b[1], label+":x")

def sgn(x): return 1 if x > 0 else -1 if x < 0 else 0
