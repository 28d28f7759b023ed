"""independent discrete Fourier sums for the Fourier harnesses"""
import math, cmath
from .common import *

def tab(n, m, sign, off=0):
    return [[cmath.exp(sign*2j*math.pi*((k*j) % n)/n) for j in range(m)] for k in range(n)]

def ft1(C, a, axis, sign):
    """sum_j a_j exp(sign 2 pi i j k/n) along one axis"""
    np = C.np
    a = np.moveaxis(np.asarray(a)+0j, axis, 0)
    n = a.shape[0]; t = tab(n, n, sign)
    out = []
    for k in range(n):
        acc = 0
        for j in range(n): acc = acc + a[j]*t[k][j]
        out.append(acc)
    return np.moveaxis(np.stack(out), 0, axis)

def ft(C, a, axes, sign):
    for ax in axes: a = ft1(C, a, ax, sign)
    return a

def freqs(n): return [i if i < (n+1)//2 else i-n for i in range(n)]

def prod(x):
    r = 1
    for v in x: r *= int(v)
    return r

def inner(C, a, b):
    """sum conj(a) b"""
    np = C.np
    return np.sum(np.conj(np.asarray(a)+0j)*(np.asarray(b)+0j))
