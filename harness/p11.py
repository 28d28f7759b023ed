from .fourier import *
PRELOAD = ["fft", "enmap"]
BOUNDS = "maps of 1-5 x 1-5 pixels, plain and CAR geometries at the listed pixel sizes; data unconstrained reals in [-100,100]; shifts at listed whole and fractional offsets; binning over every listed geometry"
ASSUMPTIONS = ["numpy.fft and ducc0.fft compute the discrete sums they document; exp, sinc and cos of constants are taken from the platform's libm"]

def emap(C, kind, sh, tag="d", cd=None, cp=(3, 20), cplx=False):
    cd = cd or ([-0.5, 0.25] if kind else [0.5, -0.25])
    w = C.wcs(kind, [10, 0] if kind else [1, 2], cd, list(cp))
    d = C.data(tag, sh, cplx=cplx)
    return d, w, C.px.enmap.ndmap(C.arr(d).copy(), w)

def ls(m):
    """(ly, lx) of every row and column from the map's signed extent"""
    ey, ex = [float(v) for v in m.extent(signed=True)]
    return [k*2*math.pi/ey for k in freqs(m.shape[-2])], [k*2*math.pi/ex for k in freqs(m.shape[-1])]

GEO = [("CAR", (2, 3)), ("CAR", (3, 4)), ("", (3, 3)), ("", (1, 4)), ("CAR", (5, 2))]
@case(budget=(40, 200))
def lcoords(C):
    """laxes, lmap, modlmap, lrmap, lpixshape, lwcs, pix2l and l2pix all describe the same Fourier grid: multiples of 2 pi / extent, in fft order, signed"""
    e, np = C.px.enmap, C.np
    kind, sh = C.choice("g", GEO)
    cd = C.choice("cd", [None, (0.5, 0.5), (-0.125, -1.0)])
    d, w, m = emap(C, kind, sh, cd=list(cd) if cd else None)
    ey, ex = [float(v) for v in m.extent(signed=True)]
    if kind == "":
        C.eq(m.extent(signed=True), C.arr([sh[0]*w.wcs.cdelt[1]*math.pi/180, sh[1]*w.wcs.cdelt[0]*math.pi/180]), "signed extent of a flat map")
    C.eq(e.extent(sh, w), C.arr([abs(ey), abs(ex)]), "unsigned extent")
    C.eq(C.arr(C.px.wcsutils.is_plain(w)), kind == "", "plain")
    if kind: C.check(C.and_(ey*w.wcs.cdelt[1] > 0, ex*w.wcs.cdelt[0] > 0), "sign of the extent")
    ly, lx = ls(m)
    a = e.laxes(sh, m.wcs)
    C.eq(a[0], C.arr(ly), "laxes y"); C.eq(a[1], C.arr(lx), "laxes x")
    L = m.lmap()
    C.same(tuple(L.shape), (2,)+sh, "lmap shape")
    C.eq(L[0], np.zeros(sh)+C.arr(ly)[:, None], "lmap y"); C.eq(L[1], np.zeros(sh)+C.arr(lx)[None, :], "lmap x")
    C.eq(m.modlmap(), C.arr([[math.hypot(y, x) for x in lx] for y in ly]), "modlmap")
    C.eq(e.modlmap(sh, m.wcs, min=200.0), C.arr([[max(200.0, math.hypot(y, x)) for x in lx] for y in ly]), "modlmap floor")
    C.eq(e.lrmap(sh, m.wcs), C.arr(L)[:, :, :sh[1]//2+1], "lrmap")
    C.eq(e.lpixshape(sh, m.wcs, signed=True), C.arr([2*math.pi/ey, 2*math.pi/ex]), "lpixshape")
    C.eq(e.lpixshape(sh, m.wcs), C.arr([abs(2*math.pi/ey), abs(2*math.pi/ex)]), "lpixshape unsigned")
    C.eq(e.lpixsize(sh, m.wcs), abs(4*math.pi**2/(ey*ex)), "lpixsize")
    y, x = C.pick("y", 0, sh[0]-1), C.pick("x", 0, sh[1]-1)
    C.eq(e.pix2l(sh, m.wcs, [y, x]), C.arr([ly[y], lx[x]]), "pix2l")
    C.eq(e.l2pix(sh, m.wcs, [ly[y], lx[x]]), C.arr([y, x]), "l2pix")
    lw = e.lwcs(sh, m.wcs)
    # lwcs describes the fftshifted grid
    sy, sx = (y+sh[0]//2) % sh[0], (x+sh[1]//2) % sh[1]
    got = lin(lw, sy, sx)
    C.eq(got[0], ly[y], "lwcs y", tol=F(1, 10000)); C.eq(got[1], lx[x], "lwcs x", tol=F(1, 10000))

@case(budget=(30, 200))
def loversample(C):
    """oversampled Fourier axes cover the same cells evenly: the mean of each group of oversampled values is the original value"""
    e = C.px.enmap
    kind, sh = C.choice("g", [("CAR", (3, 4)), ("", (4, 5))])
    n = C.choice("n", [2, 3])
    d, w, m = emap(C, kind, sh)
    ly, lx = ls(m)
    oy, ox = e.laxes(sh, m.wcs, oversample=n)
    ey, ex = [float(v) for v in m.extent(signed=True)]
    for o, k, ext in ((oy, freqs(sh[0]), ey), (ox, freqs(sh[1]), ex)):
        C.same(len(o), n*len(k), "length")
        N = len(k)
        for i in range((n*N+1)//2):
            C.eq(o[i], (2*math.pi/ext)*(i/n+(-1+1/n)/2), "oversampled value")

@case(budget=(40, 200))
def shifts(C):
    """fftshift puts the zero frequency in the middle, ifftshift undoes it; fractional_shift moves the map and its geometry together"""
    e, np = C.px.enmap, C.np
    kind, sh = C.choice("g", GEO+[("CAR", (2, 3, 4))])
    d, w, m = emap(C, kind, sh)
    ny, nx = sh[-2:]
    o = e.fftshift(m)
    C.eq(m, d, "input unchanged")
    for y in range(ny):
        for x in range(nx): C.eq(o[..., (y+ny//2) % ny, (x+nx//2) % nx], C.arr(d)[..., y, x], "fftshift")
    C.eq(e.ifftshift(o), d, "ifftshift undoes fftshift"); C.eq(e.fftshift(e.ifftshift(m)), d, "fftshift undoes ifftshift")
    m2 = m.copy(); r = e.fftshift(m2, inplace=True); C.eq(m2, o, "in place")
    off = C.choice("off", [(1, -2), (0, 1), (3, 0)])
    s = e.fractional_shift(m, list(off))
    C.eq(s, np.roll(C.arr(d), off, (-2, -1)), "whole shift rolls"); C.eq(m, d, "input unchanged")
    same_pos(C, s.wcs, off[0], off[1], w, 0, 0, "position"); same_pos(C, m.wcs, 0, 0, w, 0, 0, "input geometry unchanged")
    s = e.fractional_shift(m, list(off), keepwcs=True); same_pos(C, s.wcs, 0, 0, w, 0, 0, "keepwcs")
    if ny % 2 and nx % 2:
        s = e.fractional_shift(e.fractional_shift(m, [0.25, -0.5]), [0.75, 1.5])
        C.eq(s, np.roll(C.arr(d), (1, 1), (-2, -1)), "fractions add up"); same_pos(C, s.wcs, 1, 1, w, 0, 0, "position after two shifts")

RS = [((3, 3), (5, 3)), ((3, 3), (5, 7)), ((5, 3), (3, 1)), ((4, 2), (2, 4)), ((2, 4), (6, 2)), ((3, 4), (4, 3)), ((1, 3), (3, 3)), ((2, 3, 3), (5, 5))]
@case(params=["CAR", ""], budget=(50, 300))
def resample(C, kind):
    """Fourier resampling covers the same sky with the new pixels; modes both grids have keep their amplitude and position on the sky"""
    e, np = C.px.enmap, C.np
    sh, osh = C.choice("c", RS)
    corner = C.choice("corner", [True, False])
    d, w, m = emap(C, kind, sh, cp=(2.5, 3))
    o = e.resample(m, osh, corner=corner)
    C.same(tuple(o.shape), tuple(sh[:-2])+osh, "shape"); C.eq(m, d, "input unchanged")
    # geometry: corner: same outer edge; otherwise the first pixel centre stays
    r = [osh[i]/sh[-2:][i] for i in range(2)]
    def opos(y, x):
        return ((y+0.5)*r[0]-0.5, (x+0.5)*r[1]-0.5) if corner else (y*r[0], x*r[1])
    for (y, x) in ((0, 0), (2, 5)): same_pos(C, o.wcs, *opos(y, x), w, y, x, "same sky")
    # evaluate both Fourier series at the same points of the sky, using only modes below both Nyquist frequencies
    Fi, Fo = ft(C, d, (-2, -1), -1), ft(C, o, (-2, -1), -1)
    sy, sx = sh[-2:]
    for ky in freqs(osh[0]):
        for kx in freqs(osh[1]):
            cy, cx = min(sy, osh[0]), min(sx, osh[1])
            if 2*abs(ky) == cy or 2*abs(kx) == cx: continue
            fo = Fo[..., ky % osh[0], kx % osh[1]]
            if 2*abs(ky) > cy or 2*abs(kx) > cx: C.eq(fo, C.arr(fo)*0, "no new modes", tol=F(1, 10000)); continue
            # phase: value at sky position s is F exp(2 pi i k p); p = pixel/n
            p0 = opos(0, 0)
            ph = cmath.exp(2j*math.pi*(ky*p0[0]/osh[0]+kx*p0[1]/osh[1]))
            C.eq(C.arr(fo)*(ph/(osh[0]*osh[1])), C.arr(Fi[..., ky % sy, kx % sx])*(1.0/(sy*sx)), "mode kept in place", tol=F(1, 10000))
    if kind == "CAR":
        f = osh[0]/sy
        if osh[0]*sx == osh[1]*sy and corner:
            o2 = e.upgrade_fft(m, f) if f >= 1 else e.downgrade_fft(m, 1/f)
            C.eq(o2, o, "upgrade_fft/downgrade_fft")
    for norm, on in (("pix", True), ("plain", False), ("phys", "phys")):
        if norm == "phys" and kind: continue
        o3 = e.ifft(e.resample_fft(e.fft(m, normalize=on), osh, corner=corner, norm=norm), normalize=on).real
        C.eq(o3 if on else o3*(1.0/(osh[0]*osh[1])), o, "in Fourier units "+norm, tol=F(1, 10000))

@case(params=["CAR", ""], budget=(50, 300))
def calculus(C, kind):
    """grad, div and laplace are the derivatives of the Fourier series: i l times each mode, minus l^2 times each mode"""
    e, np = C.px.enmap, C.np
    sh = C.choice("sh", [(3, 3), (2, 3, 5), (4, 3), (3, 2)])
    d, w, m = emap(C, kind, sh)
    ly, lx = ls(m)
    sc = 1.0/max(abs(v) for v in ly+lx)      # keep numbers of order one
    Ly = np.zeros(sh[-2:])+C.arr(ly)[:, None]; Lx = np.zeros(sh[-2:])+C.arr(lx)[None, :]
    n = sh[-1]*sh[-2]
    F_ = ft(C, d, (-2, -1), -1)
    def back(x): return (ft(C, x, (-2, -1), 1)*(1.0/n)).real
    gy, gx = back(F_*Ly*1j), back(F_*Lx*1j)
    g = e.grad(m)
    C.same(tuple(g.shape), (2,)+sh, "grad shape")
    C.eq(g[0]*sc, gy*sc, "grad y"); C.eq(g[1]*sc, gx*sc, "grad x"); C.eq(m, d, "input unchanged")
    lap = back(-F_*(Ly**2+Lx**2))
    C.eq(e.laplace(m)*sc**2, lap*sc**2, "laplace")
    if len(sh) == 2:
        v, _, mv = emap(C, kind, (2,)+sh, tag="v")
        Fv = ft(C, v, (-2, -1), -1)
        C.eq(e.div(mv)*sc, back((Fv[0]*Ly+Fv[1]*Lx)*1j)*sc, "div")
        if sh[0] % 2 and sh[1] % 2: C.eq(e.div(g)*sc**2, lap*sc**2, "div of grad is laplace")
    gp = e.grad_pix(m); ext = [float(x) for x in m.extent(signed=True)]
    C.eq(gp[0]*sc, C.arr(g[0])*(sc*sh[-2]/ext[0]), "grad_pix y"); C.eq(gp[1]*sc, C.arr(g[1])*(sc*sh[-1]/ext[1]), "grad_pix x")

@case(params=["CAR", ""], budget=(50, 300))
def filters(C, kind):
    """smooth_gauss multiplies each mode with the Gaussian beam (or its complement); apply_window multiplies with the pixel window and unapply_window undoes it"""
    e, np = C.px.enmap, C.np
    sh = C.choice("sh", [(3, 3), (2, 3, 4), (2, 5)])
    d, w, m = emap(C, kind, sh)
    ly, lx = ls(m)
    F_ = ft(C, d, (-2, -1), -1); n = sh[-1]*sh[-2]
    def back(x): return (ft(C, x, (-2, -1), 1)*(1.0/n)).real
    s = C.choice("s", [0.005, 0.02, -0.01, 0])
    B = C.arr([[math.exp(-0.5*s*s*(y*y+x*x)) for x in lx] for y in ly])
    if s < 0: B = 1-B
    C.eq(e.smooth_gauss(m, s), back(F_*B), "smoothed"); C.eq(m, d, "input unchanged")
    order = C.choice("order", [0, 1, None]); pw = C.choice("pow", [1.0, 2.0, -1.0])
    def win(k, n):
        f = k/n
        sinc = 1.0 if f == 0 else math.sin(math.pi*f)/(math.pi*f)
        return 1.0 if order is None else sinc if order == 0 else sinc**2/((2+math.cos(2*math.pi*f))/3)
    Wn = C.arr([[(win(ky, sh[-2])*win(kx, sh[-1]))**pw for kx in freqs(sh[-1])] for ky in freqs(sh[-2])])
    a = e.apply_window(m, pow=pw, order=order)
    C.eq(a, back(F_*Wn), "window applied"); C.eq(m, d, "input unchanged")
    C.eq(e.unapply_window(a, pow=pw, order=order), d, "window undone")
    C.eq(e.apply_window(e.fft(m), pow=pw, order=order, nofft=True), e.fft(a), "in Fourier space") if sh[-1] % 2 and sh[-2] % 2 else None

@case(budget=(50, 300))
def binning(C):
    """lbin and rbin: each bin holds the mean of the pixels whose multipole or distance lies in it"""
    e, np = C.px.enmap, C.np
    which = C.choice("which", ["l", "r"])
    kind, sh = C.choice("g", [("", (3, 4)), ("", (2, 4, 3))] if which == "r" else [("CAR", (4, 4)), ("", (2, 3, 4))])
    brel = C.choice("brel", [1.0, 1.3])
    d, w, m = emap(C, kind, sh, cp=(1, 1))
    if which == "l":
        r = np.asarray(m.modlmap()); rv = [[math.hypot(y, x) for x in ls(m)[1]] for y in ls(m)[0]]
        bs = min(abs(ls(m)[1][1]), abs(ls(m)[0][1]))*brel
        out, c, nh = e.lbin(m, brel=brel, return_nhit=True)
        edges = e.lbin(m, brel=brel, return_bins=True)[1]
    else:
        cen = (2*math.pi/180, 1*math.pi/180)
        rv = [[math.hypot((2+y*-0.25)*math.pi/180-cen[0], (1+x*0.5)*math.pi/180-cen[1]) for x in range(sh[-1])] for y in range(sh[-2])]
        bs = 0.26*math.pi/180*brel
        out, c, nh = e.rbin(m, center=cen, bsize=0.26*math.pi/180, brel=brel, return_nhit=True)
        edges = e.rbin(m, center=cen, bsize=0.26*math.pi/180, brel=brel, return_bins=True)[1]
    flat = [(rv[y][x], y, x) for y in range(sh[-2]) for x in range(sh[-1])]
    nb = out.shape[-1]
    C.check(nb >= int(max(f[0] for f in flat)/bs-1e-6), "bins reach the largest radius")
    for b in range(nb):
        # points on a bin edge may fall on either side by rounding
        sure = [f for f in flat if b+1e-9 < f[0]/bs < b+1-1e-9 or (b == 0 and f[0] == 0)]
        edge = [f for f in flat if abs(f[0]/bs-b) <= 1e-9 and f[0] != 0 or abs(f[0]/bs-(b+1)) <= 1e-9]
        if edge: continue
        C.eq(nh[b], len(sure), "hits")
        if not sure: continue
        C.eq(out[..., b], sum(C.arr(d)[..., y, x] for _, y, x in sure)*(1.0/len(sure)), "mean of the bin")
        C.eq(c[b]/bs, sum(f[0] for f in sure)/len(sure)/bs, "mean radius of the bin")
        C.eq(edges[1][b]/bs, b, "lower edge"); C.eq(edges[2][b]/bs, b+1, "upper edge")

@case(budget=(40, 200))
def ps2d(C):
    """calc_ps2d is the real part of h1 conj(h2) for every broadcast pair of components"""
    e, np = C.px.enmap, C.np
    form = C.choice("form", ["auto", "cross", "teb", "tebcross"])
    if form in ("auto", "cross"):
        d, w, m = emap(C, "CAR", (2, 2), cplx=True); g, _, h = emap(C, "CAR", (2, 2), tag="g", cplx=True)
        o = e.calc_ps2d(m) if form == "auto" else e.calc_ps2d(m, h)
        b = d if form == "auto" else g
        C.eq(o, C.arr(d).real*C.arr(b).real+C.arr(d).imag*C.arr(b).imag, "spectrum")
    else:
        d, w, m = emap(C, "CAR", (3, 1, 2), cplx=True); g, _, h = emap(C, "CAR", (3, 1, 2), tag="g", cplx=True)
        if form == "teb": h, g = m, d
        o = e.calc_ps2d(m[:, None], h[None, :])
        C.same(tuple(o.shape), (3, 3, 1, 2), "shape")
        for i in range(3):
            for j in range(3): C.eq(o[i, j], C.arr(d)[i].real*C.arr(g)[j].real+C.arr(d)[i].imag*C.arr(g)[j].imag, "spectrum")
    C.eq(m, d, "input unchanged")

@case(params=["CAR"], budget=(40, 200))
def rotate(C, kind):
    """rotate_pol rotates the chosen pair by spin*angle, leaves the rest, and is undone by the opposite angle"""
    e, np = C.px.enmap, C.np
    sh, comps, axis = C.choice("c", [((3, 1, 2), [-2, -1], -3), ((3, 2, 1), [0, 2], 0), ((2, 3), [1, 2], -1), ((2, 2, 2, 1), [0, 1], 1)])
    spin = C.choice("spin", [0, 1, 2, -2])
    d = C.data("d", sh); m = C.arr(d).copy()
    if len(sh) > 2: m = e.ndmap(m, C.wcs(kind, [10, 0], [-0.5, 0.25], [1, 1]))
    a = C.real("a", -4, 4)
    o = e.rotate_pol(m, a, comps=comps, spin=spin, axis=axis)
    C.eq(m, d, "input unchanged")
    c, s = np.cos(spin*a), np.sin(spin*a)
    ax = axis % len(sh); pre = (slice(None),)*ax
    q, u = C.arr(d)[pre+(comps[0],)], C.arr(d)[pre+(comps[1],)]
    C.eq(o[pre+(comps[0],)], q*c-u*s, "first component"); C.eq(o[pre+(comps[1],)], q*s+u*c, "second component")
    for i in range(sh[ax]):
        if i not in [x % sh[ax] for x in comps]: C.eq(o[pre+(i,)], C.arr(d)[pre+(i,)], "others untouched")
    C.eq(e.rotate_pol(o, -a, comps=comps, spin=spin, axis=axis), d, "undone", tol=F(1, 1000))
