"""spherical harmonics written down from their definition, for use as an oracle"""
import math, cmath
from functools import lru_cache
from math import factorial as fac, sqrt, pi

@lru_cache(None)
def wig(l, m, s, th):
    """spin-weighted harmonic sYlm(theta, 0) (Goldberg's formula)"""
    if l < abs(s) or l < abs(m): return 0.0
    c, sn = math.cos(th/2), math.sin(th/2)
    t = 0.0
    for r in range(0, l-s+1):
        if r+s-m < 0 or r+s-m > l+s: continue
        a, b = 2*l-(2*r+s-m), 2*r+s-m        # powers of sin and cos
        # (-1)^(l-r-s) C(l-s,r) C(l+s,r+s-m) cot^(2r+s-m), times sin^(2l)
        k = math.comb(l-s, r)*math.comb(l+s, r+s-m)*(-1)**(l-r-s)
        t += k*sn**a*c**b
    return (-1)**m*sqrt(fac(l+m)*fac(l-m)*(2*l+1)/(4*pi*fac(l+s)*fac(l-s)))*t

def ylm(l, m, dec, ra, s=0):
    return wig(l, m, s, pi/2-dec)*cmath.exp(1j*m*ra)

def tri(lmax, mmax=None):
    """the standard order of the coefficients: (l,m) with m slowest"""
    mmax = lmax if mmax is None else mmax
    return [(l, m) for m in range(mmax+1) for l in range(m, lmax+1)]

# rows: for each output value a list of (component, l, m, weight of real part, weight of imaginary part)
def row0(lm, dec, ra):
    """a scalar field at a position"""
    r = []
    for i, (l, m) in enumerate(lm):
        y = ylm(l, m, dec, ra)
        f = 1 if m == 0 else 2
        r.append((0, i, f*y.real, -f*y.imag if m else 0.0))
    return [r]

def row_s(lm, dec, ra, s):
    """a spin-s field from its E and B coefficients: Q+iU = -sum (E+iB) sYlm over all m"""
    q, u = [], []
    for i, (l, m) in enumerate(lm):
        if l < s: continue
        for c in (0, 1):                     # E, B
            for part in (0, 1):              # real, imaginary
                a = 1j if part else 1
                if m == 0 and part: continue
                v = (1j if c else 1)*a*ylm(l, m, dec, ra, s)
                if m: v += (1j if c else 1)*(-1)**m*a.conjugate()*ylm(l, -m, dec, ra, s) if part else (1j if c else 1)*(-1)**m*ylm(l, -m, dec, ra, s)
                v = -v
                q.append((c, i, v.real if not part else 0.0, v.real if part else 0.0))
                u.append((c, i, v.imag if not part else 0.0, v.imag if part else 0.0))
    return [q, u]

def row_d(lm, dec, ra):
    """the declination derivative and the (1/cos dec) right ascension derivative of a scalar field"""
    th = pi/2-dec
    a, b = [], []
    for i, (l, m) in enumerate(lm):
        y = ylm(l, m, dec, ra)
        dth = m*math.cos(th)/math.sin(th)*y+(sqrt((l-m)*(l+m+1))*cmath.exp(-1j*ra)*ylm(l, m+1, dec, ra) if m < l else 0)
        dph = 1j*m*y/math.sin(th)
        f = 1 if m == 0 else 2
        a.append((0, i, -f*dth.real, f*dth.imag if m else 0.0))
        b.append((0, i, f*dph.real, -f*dph.imag if m else 0.0))
    return [a, b]

def evaluate(row, alm):
    """the value of a row for coefficients alm[component][index]"""
    t = 0
    for c, i, re, im in row:
        e = alm[c][i]
        if abs(re) > 1e-14: t = t+re*e.real
        if abs(im) > 1e-14: t = t+im*e.imag
    return t

def project(rows, vals, ncomp, n, lm):
    """the adjoint: coefficients sum_p conj(Y) v of values vals, one per row; [component][index] of (re,im).
    Coefficients with m>0 stand for two harmonics, so their part of the row counts half."""
    out = [[[0, 0] for _ in range(n)] for _ in range(ncomp)]
    for row, v in zip(rows, vals):
        for c, i, re, im in row:
            f = 1 if lm[i][1] == 0 else 0.5
            if abs(re) > 1e-14: out[c][i][0] = out[c][i][0]+f*re*v
            if abs(im) > 1e-14: out[c][i][1] = out[c][i][1]+f*im*v
    return out
