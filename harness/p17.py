from .common import *
PRELOAD = ["utils", "wcsutils", "enmap"]
BOUNDS = "maps of 1-3 x 1-2 pixels; CAR and CEA with any pixel size 1/8..20 degrees of either sign, any reference pixel and longitude, rows possibly reaching past the poles; flat geometries; distances for positions in general place"
ASSUMPTIONS = ["sine, cosine and arcsine are real functions with sin^2+cos^2=1 and sin(arcsin x)=x, and the sine grows between the poles; areas of non-cylindrical projections (contour integrals over the projection's own curves) are not claimed"]

def D(C): return C.pi/180
def geo(C, kind, ny=None, nx=None, beyond=False):
    """a wcs whose pixel rows lie on the sky, except that the outermost edges may pass the poles if beyond"""
    if ny is None: ny, nx = C.choice("shape", C.q([(1, 2), (2, 1)], [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)]))
    w = symwcs(C, kind, cd=(F(1, 8), 20))
    p = w.wcs
    if kind == "CAR":
        for y in (0, ny-1):
            d = (y+1-p.crpix[1])*p.cdelt[1]
            C.assume(d < 89, d > -89)
        if not beyond:
            for y in (F(-1, 2), ny-F(1, 2)):
                d = (C.rat(y.numerator, y.denominator)+1-p.crpix[1])*p.cdelt[1]
                C.assume(d < 90, d > -90)
        C.feasible()
    if kind == "CEA":
        for y in (F(-1, 2), ny-F(1, 2)):
            d = (C.rat(y.numerator, y.denominator)+1-p.crpix[1])*p.cdelt[1]*D(C)
            C.assume(d < F(99, 100), d > -F(99, 100))
        C.feasible()
    C.assume(nx*abs(p.cdelt[0]) <= 360)
    return w, ny, nx

def edge(C, w, kind, y):
    """dec of the lower edge of row y in radians, capped at the poles"""
    np = C.np; p = w.wcs
    d = (y-C.rat(1, 2)+1-p.crpix[1])*p.cdelt[1]
    if kind == "CEA":
        v = np.arcsin(d*D(C)); C.assume(v < C.pi/2, v > -C.pi/2)
        return v
    if bool(d > 90): return C.pi/2
    if bool(d < -90): return -C.pi/2
    if bool(d == 90): C.assume(np.sin(d*D(C)) >= 1)
    if bool(d == -90): C.assume(np.sin(d*D(C)) <= -1)
    return d*D(C)

def grow(C, p, s):
    """sign of the step in dec; the sine grows with dec"""
    sy = 1 if bool(p.cdelt[1] > 0) else -1
    for a, b in zip(s[:-1], s[1:]): C.assume((b-a)*sy > 0)
    return sy

@case(params=[("CAR", False), ("CAR", True), ("CEA", False)], budget=(60, 300))
def cyl(C, kind, beyond):
    """pixel areas of cylindrical maps: width in RA times the difference in sin(dec) between its edges; everything else adds up to that"""
    e, np = C.px.enmap, C.np
    w, ny, nx = geo(C, kind, beyond=beyond)
    p = w.wcs; shape = (ny, nx)
    pre = (3,) if ny == 2 else ()
    ed = [edge(C, w, kind, y) for y in range(ny+1)]
    s = [np.sin(v) for v in ed]
    sy = grow(C, p, s); grow(C, p, ed)
    dra = abs(p.cdelt[0])*D(C)
    want = [dra*(s[y+1]-s[y])*sy for y in range(ny)]
    a = e.pixsizemap(pre+shape, w)
    C.same((tuple(a.shape), a.wcs is not None), (shape, True), "shape of the areas")
    for y in range(ny):
        for x in range(nx): C.eq(a[y, x], want[y], "pixel area", tol=1e-6)
    b = e.pixsizemap(pre+shape, w, broadcastable=True)
    C.check(tuple(b.shape) in ((ny, 1), (ny, nx)), "broadcastable shape")
    C.eq(np.broadcast_to(b, shape), a, "broadcastable areas")
    tot = sum(want)*nx
    ar = e.area(pre+shape, w)
    C.eq(ar, tot, "area of the map", tol=1e-6)
    C.eq(e.pixsize(pre+shape, w)*(ny*nx), tot, "mean pixel area", tol=1e-6)
    ps = e.pixshapemap(pre+shape, w)
    C.same(tuple(ps.shape), (2,)+shape, "shape of the pixel shapes")
    pss = e.pixshapemap(pre+shape, w, signed=True)
    sx = 1 if bool(p.cdelt[0] > 0) else -1
    for y in range(ny):
        for x in range(nx):
            C.eq(ps[0, y, x], (ed[y+1]-ed[y])*sy, "pixel height")
            C.eq(ps[0, y, x]*ps[1, y, x], want[y], "height times width is the area", tol=1e-6)
            C.eq(pss[0, y, x], ed[y+1]-ed[y], "signed height"); C.eq(pss[1, y, x], sx*ps[1, y, x], "signed width")
    ext = e.extent(pre+shape, w); exs = e.extent(pre+shape, w, signed=True)
    C.eq(ext[0], (ed[ny]-ed[0])*sy, "extent in dec"); C.eq(exs[0], ed[ny]-ed[0], "signed extent in dec")
    C.eq(ext[0]*ext[1], tot, "product of the extents is the area", tol=1e-6)
    C.eq(exs[1], sx*ext[1], "signed extent in ra")
    sh = e.pixshape(pre+shape, w)
    C.eq(sh[0]*ny, ext[0], "mean pixel height"); C.eq(sh[1]*nx, ext[1], "mean pixel width")
    if not beyond:
        bd = e.pixshapebounds(pre+shape, w)
        C.same(tuple(bd.shape), (2, 2), "shape of the bounds")
        for y in range(ny):
            for k in range(2): C.check(C.and_(bd[0, k] <= ps[k, y, 0]+F(1, 10**9), bd[1, k] >= ps[k, y, 0]-F(1, 10**9)), "bounds contain every pixel")
        for k in range(2):
            for i in range(2): C.check(C.or_(*[abs(bd[i, k]-ps[k, y, 0]) <= F(1, 10**9) for y in range(ny)]), "bounds are reached")
    m = e.zeros(pre+shape, w) if C.sym else e.zeros(pre+shape, w)
    C.eq(m.pixsizemap(), a, "method"); C.eq(m.area(), ar, "area method"); C.eq(m.pixshapemap(), ps, "shape method"); C.eq(m.extent(signed=True), exs, "extent method"); C.eq(m.pixsize()*(ny*nx), ar, "mean area method"); C.eq(m.pixshape(), sh, "mean shape method")

@case(params=["CAR"], budget=(60, 300))
def general(C, kind):
    """the general pixel areas and shapes (any projection) give the same for cylindrical maps"""
    e, np = C.px.enmap, C.np
    w, ny, nx = geo(C, kind)
    p = w.wcs; shape = (ny, nx)
    C.assume(nx*abs(p.cdelt[0]) <= 90, abs(p.crpix[0]*p.cdelt[0]) <= 60, p.crval[0] >= 100, p.crval[0] <= 140); C.feasible()
    a = e.pixsizemap(shape, w, separable=False)
    s = [np.sin(edge(C, w, kind, y)) for y in range(ny+1)]
    sy = grow(C, p, s)
    C.same(tuple(a.shape), shape, "shape")
    for y in range(ny):
        for x in range(nx): C.eq(a[y, x], abs(p.cdelt[0])*D(C)*(s[y+1]-s[y])*sy, "pixel area", tol=1e-6)

@case(budget=(30, 100))
def flat(C):
    """areas and extents of flat geometries"""
    e, np = C.px.enmap, C.np
    ny, nx = C.pick("ny", 1, 3), C.pick("nx", 1, 3)
    w = symwcs(C, "", cd=(F(1, 8), 20)); p = w.wcs
    shape = (ny, nx); d = D(C)
    cy, cx = abs(p.cdelt[1])*d, abs(p.cdelt[0])*d
    a = e.pixsizemap((2,)+shape, w)
    C.eq(a, np.zeros(shape)+cy*cx, "pixel area")
    C.eq(e.area((2,)+shape, w), cy*cx*ny*nx, "area")
    C.eq(e.pixsize(shape, w), cy*cx, "mean pixel area")
    C.eq(e.extent((2,)+shape, w), C.arr([cy*ny, cx*nx]), "extent")
    C.eq(e.extent(shape, w, signed=True), C.arr([p.cdelt[1]*d*ny, p.cdelt[0]*d*nx]), "signed extent")
    for sg in (False, True):
        ps = e.pixshapemap((2,)+shape, w, signed=sg)
        C.same(tuple(ps.shape), (2,)+shape, "shape")
        C.eq(ps[0], np.zeros(shape)+(p.cdelt[1]*d if sg else cy), "pixel height"); C.eq(ps[1], np.zeros(shape)+(p.cdelt[0]*d if sg else cx), "pixel width")
    C.eq(e.pixshape(shape, w), C.arr([cy, cx]), "pixel shape")

@case(params=["", "CAR"], budget=(60, 300), check_ms=40000)
def modrmap(C, kind):
    """distance of every pixel from the reference point: flat, or along the great circle"""
    e, np = C.px.enmap, C.np
    if kind: w, ny, nx = geo(C, kind, C.q(2, 2), C.q(1, 2))
    else: w = symwcs(C, ""); ny, nx = C.pick("ny", 1, 2), C.pick("nx", 1, 2)
    shape = (ny, nx); p = w.wcs
    if kind: C.assume(nx*abs(p.cdelt[0]) <= 90, abs(p.crpix[0]*p.cdelt[0]) <= 60, p.crval[0] >= 100, p.crval[0] <= 140); C.feasible()
    ref = [C.real("rd", -1, 1), C.real("rr", -1, 1)]
    form = C.choice("ref", ["point", "center"])
    m = e.modrmap(shape, w, ref=ref) if form == "point" else e.modrmap(shape, w)
    C.same(tuple(m.shape), shape, "shape")
    if form == "center": ref = [v*D(C) for v in lin(w, C.rat(ny-1, 2), C.rat(nx-1, 2))]
    for y in range(ny):
        for x in range(nx):
            dec, ra = [v*D(C) for v in lin(w, y, x)]
            r = m[y, x]
            C.check(r >= 0, "not negative")
            if not kind: C.eq(r*r, (dec-ref[0])*(dec-ref[0])+(ra-ref[1])*(ra-ref[1]), "squared distance", tol=1e-6)
            else:
                dot = np.sin(dec)*np.sin(ref[0])+np.cos(dec)*np.cos(ref[0])*np.cos(ra-ref[1])
                C.eq(np.cos(r), dot, "cosine of the distance", tol=1e-6)
                C.check(r <= C.pi+F(1, 10**9), "at most half a turn")
