from .common import *
PRELOAD = ["utils", "wcsutils", "enmap"]
BOUNDS = "arrays of up to 4 samples per axis in 1 or 2 dimensions with 0-2 leading dimensions, any contents; any coordinates up to 2 samples (wrap: 2 periods) outside the array for nearest neighbour and linear interpolation, listed coordinates for cubic splines; projections between any two separable geometries whose pixels are related by a scale of 1, -1, 2 or 1/2 and any offset, blocks of 1, 2 or all rows"
ASSUMPTIONS = ["scipy.ndimage's spline filter and evaluation are taken from scipy (linear in the data); coordinates exactly half way between two pixels, and within one pixel outside a map with constant border, are not claimed"]

def idx(i, n, border):
    """the sample that stands for sample i, None: outside"""
    if border == "nearest": return min(max(i, 0), n-1)
    if border == "wrap": return i % n
    if border == "mirror":
        if n == 1: return 0
        i %= 2*(n-1)
        return 2*(n-1)-i if i > n-1 else i
    return i if 0 <= i < n else None

def samples(C, i, f, n, order, border):
    """[(index, weight)] of the samples making up coordinate i+f, None: outside"""
    if border == "constant" and (i < 0 or i > n-1 or (i == n-1 and not bool(f == 0))): return None
    if order == 0: return [(idx(i if bool(f < C.rat(1, 2)) else i+1, n, border), 1)]
    if bool(f == 0): return [(idx(i, n, border), 1)]
    return [(idx(i, n, border), 1-f), (idx(i+1, n, border), f)]

def value(C, d, pt, order, border, cval):
    """value of d (last axes) at pt [(i,f),...]"""
    S = [samples(C, i, f, n, order, border) for (i, f), n in zip(pt, d.shape)]
    if any(s is None for s in S): return cval
    t = 0
    if len(S) == 1:
        for i, w in S[0]: t = t+w*d[i]
    else:
        for i, w in S[0]:
            for j, v in S[1]: t = t+w*v*d[i, j]
    return t

def coord(C, tag, n, border, ends=True):
    k = 1 if border == "constant" else 2*n if border == "wrap" and C.tier == "thorough" else n if border == "wrap" else 2
    lo, hi = (-k-1, n-1+k) if border == "constant" else (-k, n-1+k)
    i = C.pick(tag+"i", lo, hi)
    f = C.real(tag+"f", 0, 1); C.assume(f < 1)
    C.away(f, C.rat(1, 2))
    if border == "constant":
        if i in (-1, n-1): C.assume(f == 0) if i == n-1 else C.assume(False)
    return i, f

MODES = [("nn", 3, 0), ("spline", 0, 0), ("lin", 3, 1), ("linear", 0, 1), ("spline", 1, 1), ("nearest", 1, 0)]
@case(params=["nearest", "wrap", "mirror", "constant"], budget=(40, 300), max_paths=(4000, 40000))
def local1(C, border):
    """nearest neighbour and linear interpolation in one dimension, all ways to ask for it"""
    u, np = C.px.utils, C.np
    mode, order, o = C.choice("mode", MODES)
    n = C.choice("n", C.q([1, 3] if mode == "lin" else [3], [1, 2, 3, 4]))
    pre = C.choice("pre", C.q([(2,)] if mode in ("nn", "lin") else [()], [(), (2,), (2, 1)]))
    d = C.data("d", pre+(n,))
    d0 = C.np.array(d)
    cval = C.real("cval", -9, 9)
    i, f = coord(C, "x", n, border)
    C.feasible()
    x = i+f
    inds = C.arr([[x, 0, n-1]])
    how = C.choice("how", ["interpol", "interpolator", "out", "ip"])
    kw = dict(mode=mode, order=order, border=border, cval=cval)
    if how == "interpol": r = u.interpol(d, inds, **kw)
    elif how == "interpolator":
        ip = u.interpolator(d, npre=len(pre), **kw)
        r = ip(inds); r2 = ip(inds)
        C.eq(r, r2, "an interpolator can be used again")
    elif how == "ip": r = u.interpol(d, inds, ip=u.interpolator(d, len(pre), **kw))
    else:
        out = C.junk(pre+(3,)); r = u.interpol(d, inds, out=out, **kw)
        C.eq(r, out, "out is filled")
    C.same(tuple(r.shape), pre+(3,), "shape")
    for I in ([()] if not pre else [(k,) for k in range(2)] if len(pre) == 1 else [(k, 0) for k in range(2)]):
        C.eq(r[I+(0,)], value(C, d0[I], [(i, f)], o, border, cval), "interpolated value")
        C.eq(r[I+(1,)], d0[I+(0,)], "value at a sample")
        C.eq(r[I+(2,)], d0[I+(n-1,)], "value at the last sample")
    C.eq(d, d0, "the array is not changed")

@case(params=[(b, o) for b in ("nearest", "wrap", "mirror", "constant") for o in (0, 1)], budget=(40, 300), max_paths=(4000, 40000))
def local2(C, border, o):
    """the same in two dimensions: separable"""
    u, np = C.px.utils, C.np
    ny, nx = C.choice("n", C.q([(2, 3)], [(2, 3), (1, 4), (3, 2)]))
    d = C.data("d", (2, ny, nx))
    cval = C.real("cval", -9, 9)
    py, px = coord(C, "y", ny, border), coord(C, "x", nx, border)
    C.feasible()
    inds = C.arr([[py[0]+py[1]], [px[0]+px[1]]])
    if C.choice("grid", C.q([o == 0], [False, True])): inds = inds.reshape(2, 1, 1)
    r = u.interpol(d, inds, mode="spline", order=o, border=border, cval=cval)
    C.same(tuple(r.shape), (2,)+tuple(inds.shape[1:]), "shape")
    for k in range(2): C.eq(r[k].reshape(-1)[0], value(C, d[k], [py, px], o, border, cval), "interpolated value")

@case(params=[("nearest", 3), ("wrap", 3), ("mirror", 3), ("wrap", 2), ("mirror", 5)], budget=(30, 100))
def spline(C, border, order):
    """higher splines reproduce the samples, follow the border condition and treat every leading entry alike"""
    u, np = C.px.utils, C.np
    n = C.choice("n", [4, 5])
    d = C.data("d", (2, n))
    d0 = np.array(d)
    mode = "cub" if order == 3 and C.choice("cub", [False, True]) else "spline"
    kw = dict(mode=mode, order=order, border=border)
    r = u.interpol(d, np.arange(n)[None]*1.0, **kw)
    C.eq(r, d0, "splines pass through the samples", tol=1e-9)
    x = C.choice("x", [0.25, 1.5, n-1.25])
    p = {"wrap": [x+n, x-n], "mirror": [-x, 2*(n-1)-x], "nearest": [x]}[border]
    r = u.interpol(d, C.arr([[x]+p]), **kw)
    for k in range(len(p)): C.eq(r[:, 0], r[:, k+1], "periodic and mirrored continuation", tol=1e-9)
    if border == "nearest":
        r = u.interpol(d, C.arr([[-1.0, -7.5, n, n+3.25]]), **kw)
        for k, v in enumerate([0, 0, n-1, n-1]): C.eq(r[:, k], d0[:, v], "edge value continues", tol=1e-9)
    for k in range(2): C.eq(u.interpol(d[k], C.arr([[x]]), **kw), u.interpol(d, C.arr([[x]]), **kw)[k], "leading entries are independent", tol=1e-9)
    one = u.interpol(d*0+1, C.arr([[x]]), **kw)
    C.eq(one, np.ones((2, 1)), "a constant stays constant", tol=1e-9)
    C.eq(d, d0, "the array is not changed")

def sky(C, w, kind, y, x):
    p = lin(w, y, x)
    s = C.pi/180
    return p[0]*s, p[1]*s

@case(params=[(k, b, o) for k in ("", "CAR") for b in ("constant", "nearest", "mirror", "wrap") for o in (0, 1)], budget=(40, 300), max_paths=(4000, 40000))
def at(C, kind, border, o):
    """at: the interpolated map at a position on the sky or at a pixel coordinate"""
    e, np = C.px.enmap, C.np
    ny, nx = 2, C.choice("nx", C.q([3], [2, 3, 4]))
    w = symwcs(C, kind, cd=(F(1, 8), 4), cp=10, cv=150, **C.q(dict(sx=-1, sy=1), {}))
    d = C.data("d", (2, ny, nx)); m = e.ndmap(d, w)
    mode, order = ("spline", o) if C.choice("spl", C.q([False], [False, True])) else (["nn", "lin"][o], 3)
    cval = C.real("cval", -9, 9)
    py, px = coord(C, "y", ny, border), coord(C, "x", nx, border)
    C.feasible()
    y, x = py[0]+py[1], px[0]+px[1]
    how = C.choice("unit", C.q(["func", "pix"] if o else ["meth"], ["meth", "func", "pix"]))
    if how == "pix":
        r = m.at(C.arr([[y], [x]]), mode=mode, order=order, border=border, cval=cval, unit="pix")
    else:
        dec, ra = sky(C, w, kind, y, x)
        f = m.at if how == "meth" else lambda *a, **k: e.at(m, *a, **k)
        r = f(C.arr([[dec], [ra]]), mode=mode, order=order, border=border, cval=cval)
    for k in range(2): C.eq(r[k].reshape(-1)[0], value(C, d[k], [py, px], o, border, cval), "value at the position")

SCALE = [F(1), F(-1), F(2), F(1, 2)]
@case(params=[(k, b, o) for k in ("", "CAR") for b in ("constant", "nearest", "wrap") for o in (0, 1)], budget=(60, 400), max_paths=(4000, 40000))
def project(C, kind, border, o):
    """project: every output pixel is the interpolated input map at that place of the sky"""
    e, np = C.px.enmap, C.np
    ny, nx = C.choice("shape", C.q([(3, 2)], [(3, 2), (2, 3)]))
    w = symwcs(C, kind, cd=(F(1, 8), 4), cp=10, cv=120, sx=-1 if kind else 1, sy=1)
    d = C.data("d", (2, ny, nx)); m = e.ndmap(d, w); d0 = np.array(d)
    cval = C.real("cval", -9, 9)
    a = [C.choice("a"+t, C.q(([F(-1), F(1, 2)] if kind else [F(1), F(2)]) if t == "y" else [F(1)], SCALE)) for t in "yx"]
    # input pixel coordinate of output pixel (0,0)
    b = []
    for t, n in zip("yx", (ny, nx)):
        i = C.pick("b"+t, *(C.q((-1, n-1) if kind else (-2, n), (-5, n+4)) if t == "y" else (C.q((-1, 0), (-3, n+1)))))
        f = C.choice("g"+t, [F(1, 8), F(3, 8), F(5, 8)][:C.q(1, 3)] if t == "y" else [F(1, 8)]) if not (t == "y" and C.tier == "thorough" and kind == "") else C.real("f", F(1, 32), F(7, 32))
        b.append((i, f))
    oy, ox = C.choice("oshape", C.q([(3, 1), (1, 2)] if a[0] == 1 else [(3, 1)], [(3, 1), (1, 2), (4, 2), (2, 3)]))
    p = w.wcs
    at0 = [i+f for i, f in b]
    ow = C.wcs(kind, list(p.crval), [p.cdelt[0]*a[1], p.cdelt[1]*a[0]], [1-(at0[1]+1-p.crpix[0])/a[1], 1-(at0[0]+1-p.crpix[1])/a[0]])
    want = []
    for Y in range(oy):
        for X in range(ox):
            pt = []
            for (i, f), s, k in zip(b, a, (Y, X)):
                g = f+s*k
                if C.sym or True:
                    j = 0
                    while bool(g >= 1): g, j = g-1, j+1
                    while bool(g < 0): g, j = g+1, j-1
                C.away(g, C.rat(1, 2))
                pt.append((i+j, g))
            # within a pixel outside the map the border condition is scipy's choice
            want.append(None if border == "constant" and any(i in (-1, n-1) and not bool(g == 0) for (i, g), n in zip(pt, (ny, nx))) else
                [value(C, d[k], pt, o, border, cval) for k in range(2)])
    C.feasible()
    bs = C.choice("bsize", [1, 2, 1000] if oy > 2 else [1000])
    pre = C.choice("opre", C.q([()] if o else [(5,)], [(), (5,)]))
    r = e.project(m, pre+(oy, ox), ow, mode="spline", order=o, border=border, cval=cval, bsize=bs)
    C.same(tuple(r.shape), (2, oy, ox), "shape")
    C.check(C.px.wcsutils.equal(r.wcs, ow), "output geometry")
    for Y in range(oy):
        for X in range(ox):
            if want[Y*ox+X] is None: continue
            for k in range(2): C.eq(r[k, Y, X], want[Y*ox+X][k], "projected value")
    C.eq(d, d0, "the input is not changed")

@case(params=["constant", "nearest"], budget=(40, 200))
def samegrid(C, border):
    """projecting onto compatible pixels copies them, for the same, a different shape or an offset grid, forced or not"""
    e, np = C.px.enmap, C.np
    kind = C.choice("kind", ["CAR", ""])
    w = symwcs(C, kind, cd=(F(1, 8), 4), cp=10, cv=120, sx=-1, sy=1)
    ny, nx = 2, 3
    d = C.data("d", (ny, nx)); m = e.ndmap(d, w)
    oy, ox = C.choice("oshape", [(2, 3), (3, 3), (2, 2), (1, 5)])
    dy, dx = C.choice("off", [(0, 0), (1, -1), (-1, 1), (0, 4)])
    p = w.wcs
    ow = C.wcs(kind, list(p.crval), list(p.cdelt), [p.crpix[0]-dx, p.crpix[1]-dy])
    cval = C.real("cval", -9, 9)
    o = C.choice("order", [0, 1, 3])
    force = border != "constant" and o < 3 and C.choice("force", [False, True]) and not (dy or dx)
    same = (oy, ox) == (ny, nx) and not (dy or dx)
    if o == 3 and border != "constant" and not same: o = 1
    r = e.project(m, (oy, ox), ow, order=o, border=border, cval=cval, force=force)
    C.check(r is not m, "a new map")
    C.same(tuple(r.shape), (oy, ox), "shape")
    for y in range(oy):
        for x in range(ox):
            i, j = y+dy, x+dx
            if border == "nearest": i, j = min(max(i, 0), ny-1), min(max(j, 0), nx-1)
            C.eq(r[y, x], d[i, j] if 0 <= i < ny and 0 <= j < nx else cval, "pixel value")
    r[0, 0] = 99
    C.eq(m[0, 0], d[0, 0], "the input is independent of the result")

@case(params=["CAR"], budget=(40, 200))
def cubic(C, kind):
    """cubic projection: block size does not matter, pixels on top of input pixels keep their value"""
    e, np = C.px.enmap, C.np
    ny, nx = 4, 4
    w = C.wcs(kind, [0, 0], [-0.5, 0.5], [2, 2])
    d = C.data("d", (ny, nx)); m = e.ndmap(d, w)
    border = C.choice("border", ["nearest", "mirror", "wrap"])
    ow = C.wcs(kind, [0, 0], [-0.25, 0.25], [3, C.choice("cpy", [3, 4])])
    oy, ox = 5, 4
    r = e.project(m, (oy, ox), ow, order=3, border=border)
    for bs in C.q([1, 2], [1, 2, 3, 4]): C.eq(e.project(m, (oy, ox), ow, order=3, border=border, bsize=bs), r, "blocks do not matter", tol=1e-7)
    for y in range(oy):
        for x in range(ox):
            i, j = (y+1-ow.wcs.crpix[1])/2+1, (x+1-ow.wcs.crpix[0])/2+1
            i, j = F(float(i)), F(float(j))
            if i.denominator == 1 and j.denominator == 1 and 0 <= i < ny and 0 <= j < nx:
                C.eq(r[y, x], d[int(i), int(j)], "value on top of a pixel", tol=1e-7)
    ip = C.px.utils.interpolator(m, npre=0, order=3, border=border)
    C.eq(e.project(m, (oy, ox), ow, ip=ip, bsize=C.choice("bs", [2, 1000])), r, "an interpolator of the map gives the same", tol=1e-7)
    C.eq(m.at(e.posmap((oy, ox), ow), order=3, border=border), r, "same as at", tol=1e-7)

@case(params=["argmax", "argmin"], budget=(30, 100))
def extrema(C, what):
    """position of the largest or smallest pixel of every component"""
    e, np = C.px.enmap, C.np
    kind = C.choice("kind", ["", "CAR"])
    w = symwcs(C, kind, cp=10, cv=120, sx=-1, sy=1)
    pre = C.choice("pre", C.q([(), (2,)], [(), (2,), (1, 2)]))
    ny, nx = 1 if pre else 2, 2
    d = C.data("d", pre+(ny, nx)); m = e.ndmap(d, w)
    unit = C.choice("unit", ["pix", "coord"])
    near = lambda v: C.and_(v < 1e-9, v > -1e-9)
    r = getattr(m, what)(unit=unit) if what == "argmax" and C.choice("meth", [False, True]) else getattr(e, what)(m, unit=unit)
    C.same(tuple(r.shape), pre+(2,), "shape")
    for I in ([()] if not pre else [(k,) for k in range(2)] if len(pre) == 1 else [(0, k) for k in range(2)]):
        hit = []
        for y in range(ny):
            for x in range(nx):
                P = (y, x) if unit == "pix" else sky(C, w, kind, y, x)
                best = C.and_(*[(d[I+(y, x)] >= d[I+(b, a)]) if what == "argmax" else (d[I+(y, x)] <= d[I+(b, a)]) for b in range(ny) for a in range(nx)])
                hit.append(C.and_(best, near(r[I+(0,)]-P[0]), C.or_(*[near(r[I+(1,)]-P[1]+k*2*C.pi) for k in ((0,) if unit == "pix" else (-1, 0, 1))])))
        C.check(C.or_(*hit), "an extremal pixel")
