from .common import *
import math
PRELOAD = ["enmap"]
BOUNDS = "boxes and points anywhere within +-60 degrees in dec and 150 degrees in ra and pixel sizes 1/8..4 degrees, all real and symbolic; full-sky and band geometries with 2-400 (symbolic) rows and columns when given by shape, and with a few exact divisions of the sky when given by resolution; thumbnails with symbolic radius or size; projections plain, CAR, MER and TAN/ZEA/ARC/SIN around their reference point"

def boxpos(C, form):
    """a box (dec,ra in degrees) with its directions"""
    y1, x1 = C.real("y1", -40, 40), C.real("x1", -100, 100)
    h, w = C.real("h", 4, 20), C.real("w", 4, 40)
    sy, sx = C.choice("sy", [1, -1]), C.choice("sx", [1, -1])
    return y1, x1, y1+sy*h, x1+sx*w, sy, sx, h, w

def unit(C):
    deg = C.choice("deg", [False, True])
    return deg, (1 if deg else C.px.utils.degree)

def pixof(C, w, dec, ra):
    """pixel coordinate (from 0) of a linear coordinate"""
    p = w.wcs
    return (dec-p.crval[1])/p.cdelt[1]+p.crpix[1]-1, (ra-p.crval[0])/p.cdelt[0]+p.crpix[0]-1

def isint(C, v, label, tol=F(1, 10**6)):
    C.eq(v, C.floor(v+F(1, 2)), label, tol=tol)

@case(params=[(p, f) for p in ("car", "plain", "mer") for f in (False, True)], budget=(40, 200))
def box_res(C, proj, force):
    """geometry from a box and a resolution"""
    e, np = C.px.enmap, C.np
    deg, u = unit(C)
    if proj == "plain": u = u if deg else C.px.utils.degree
    if proj == "mer":
        y1, x1, y2, x2, sy, sx, h, wd = boxpos(C, "")
    else: y1, x1, y2, x2, sy, sx, h, wd = boxpos(C, "")
    two = C.choice("two", [False, True])
    ry = C.choice("ry", [F(1, 2), F(2, 3), 1]); rx = C.choice("rx", [F(1, 4), F(1, 3)]) if two else ry
    if proj != "mer": C.away(h, ry, F(ry)/2); 
    C.away(wd, rx, F(rx)/2)
    s, w = e.geometry(C.arr([[y1*u, x1*u], [y2*u, x2*u]]), res=C.arr([ry*u, rx*u]) if two else ry*u, proj=proj, deg=deg, force=force, pre=(3,))
    p = w.wcs
    C.eq(p.cdelt, C.arr([sx*rx, sy*ry]), "pixel size and direction follow the box")
    C.same(len(s), 3, "leading axes"); C.eq(s[0], 3, "leading axes")
    if proj != "mer": C.eq(s[1], C.floor(h/ry+F(1, 2)), "rows")
    C.eq(s[2], C.floor(wd/rx+F(1, 2)), "columns")
    if proj == "mer": return
    cy, cx = pixof(C, w, y1, x1)           # first corner of the box in pixels
    if force: C.eq(C.arr([cy, cx]), C.arr([-F(1, 2), -F(1, 2)]), "the box starts at the edge of the first pixel")
    else:
        C.check(C.and_(cy >= -1-F(1, 10**6), cy <= F(1, 10**6)), "starts within half a pixel in dec"); C.check(C.and_(cx >= -1-F(1, 10**6), cx <= F(1, 10**6)), "starts within half a pixel in ra")
        if proj == "car":
            zy, zx = pixof(C, w, 0, 0)
            isint(C, zy, "dec=0 is at a pixel centre")
            # ra=0 counted along the sky
            isint(C, zx, "ra=0 is at a pixel centre")

@case(params=["car", "plain"], budget=(40, 200))
def box_shape(C, proj):
    """geometry from a box and a shape: the box is divided evenly"""
    e, np = C.px.enmap, C.np
    deg, u = unit(C)
    y1, x1, y2, x2, sy, sx, h, wd = boxpos(C, "")
    ny, nx = C.pick("ny", 2, 5), C.choice("nx", [3, 7, 10])
    s, w = e.geometry(C.arr([[y1*u, x1*u], [y2*u, x2*u]]), shape=(ny, nx), proj=proj, deg=deg, force=True)
    C.same(tuple(int(v) for v in s), (ny, nx), "shape")
    C.eq(w.wcs.cdelt, C.arr([sx*wd/nx, sy*h/ny]), "pixel size")
    a, b = lin(w, -F(1, 2), -F(1, 2)), lin(w, ny-F(1, 2), nx-F(1, 2))
    C.eq(a[0], y1, "first corner, dec"); C.eq(a[1], x1, "first corner, ra"); C.eq(b[0], y2, "last corner, dec"); C.eq(b[1], x2, "last corner, ra")

@case(params=["car", "plain", "tan", "zea", "arc", "sin"], budget=(40, 200))
def point(C, proj):
    """geometry from a centre, a resolution and a shape"""
    e, np = C.px.enmap, C.np
    deg, u = unit(C)
    y, x = C.real("y", -60, 60), C.real("x", -150, 150)
    ry = C.choice("ry", [F(1, 2), F(2, 3)]); rx = C.choice("rx", [F(1, 2), F(1, 3)])
    ny, nx = C.choice("n", [(4, 5), (5, 4), (7, 7)])
    force = C.choice("force", [False, True])
    one = C.choice("one", [True, False])
    dirs = [1, 1] if proj == "plain" else [1, -1]
    s, w = e.geometry(C.arr([y*u, x*u]), res=ry*u if one else C.arr([ry*u, rx*u]), shape=(ny, nx), proj=proj, deg=deg, force=force)
    if one: want = [dirs[1]*ry, dirs[0]*ry]
    else: want = [rx, ry]
    C.eq(w.wcs.cdelt, C.arr(want), "pixel size and default directions")
    C.same(tuple(int(v) for v in s), (ny, nx), "shape")
    cy, cx = pixof(C, w, y if proj in ("car", "plain") else w.wcs.crval[1], x if proj in ("car", "plain") else w.wcs.crval[0])
    my, mx = F(ny-1, 2), F(nx-1, 2)
    if proj in ("tan", "zea", "arc", "sin"):
        C.eq(w.wcs.crval, C.arr([x, y]), "centred on the position")
        # the reference point is a pixel centre at most half a pixel from the middle
        isint(C, w.wcs.crpix[0], "reference point at a pixel centre"); isint(C, w.wcs.crpix[1], "reference point at a pixel centre")
        C.check(C.and_(cy-my <= F(1, 2)+F(1, 10**6), my-cy <= F(1, 2)+F(1, 10**6), cx-mx <= F(1, 2)+F(1, 10**6), mx-cx <= F(1, 2)+F(1, 10**6)), "position in the middle to half a pixel")
    elif force or proj == "plain":
        C.eq(C.arr([cy, cx]), C.arr([my, mx]), "position exactly in the middle")
    else:
        C.check(C.and_(cy-my <= F(1, 2)+F(1, 10**6), my-cy <= F(1, 2)+F(1, 10**6), cx-mx <= F(1, 2)+F(1, 10**6), mx-cx <= F(1, 2)+F(1, 10**6)), "position in the middle to half a pixel")
        zy, zx = pixof(C, w, 0, 0)
        isint(C, zy, "dec=0 is at a pixel centre"); isint(C, zx, "ra=0 is at a pixel centre")

@case(budget=(40, 200))
def refpoint(C):
    """geometries built with the same resolution and reference point are on one grid"""
    e, np, wu = C.px.enmap, C.np, C.px.wcsutils
    deg, u = unit(C)
    r = C.choice("r", [F(1, 2), F(3, 4)])
    y, x = C.real("y", -40, 40), C.real("x", -100, 100)
    fy, fx = C.real("fy", -3, 3), C.real("fx", -20, 20)
    y2, x2 = C.real("y2", -40, 40), C.real("x2", -100, 100)
    ref = C.choice("ref", [True, False])
    kw = dict(ref=C.arr([fy*u, fx*u]).tolist() if not C.sym else [fy*u, fx*u]) if ref else {}
    s1, w1 = e.geometry(C.arr([y*u, x*u]), res=r*u, shape=(4, 5), proj="car", deg=deg, **kw)
    s2, w2 = e.geometry(C.arr([y2*u, x2*u]), res=r*u, shape=(4, 5), proj="car", deg=deg, **kw)
    for w in (w1, w2):
        zy, zx = pixof(C, w, fy if ref else 0, fx if ref else 0)
        isint(C, zy, "reference dec is at a pixel centre"); isint(C, zx, "reference ra is at a pixel centre")

@case(params=["cc", "fejer1"], budget=(40, 200))
def fullsky(C, variant):
    """fullsky_geometry: the pixels tile the sky exactly, with poles at pixel centres (cc) or edges (fejer1)"""
    e, np, D = C.px.enmap, C.np, C.px.utils.degree
    by = C.choice("by", ["shape", "res"])
    yo = 1 if variant == "cc" else 0
    if by == "shape":
        ny, nx = C.int("ny", 2, 400), C.int("nx", 2, 400)
        s, w = e.fullsky_geometry(shape=(ny, nx), variant=variant, dims=(2,))
    else:
        n = C.choice("n", [1, 4, 9, 180]); ny, nx = n+yo, 2*n
        two = C.choice("two", [False, True])
        if two: nx = 3*n
        res = C.pi*C.rat(1, n) if C.sym else C.pi/n
        s, w = e.fullsky_geometry(res=C.arr([res, 2*C.pi/nx if not C.sym else C.pi*C.rat(2, nx)]) if two else res, variant=variant, dims=(2,))
    C.same(len(s), 3, "leading axes"); C.eq(s[0], 2, "leading axes"); C.eq(s[1], ny, "rows"); C.eq(s[2], nx, "columns")
    p = w.wcs
    C.check(p.cdelt[0]*nx*-1 > F(359999999, 10**6) if C.sym else abs(p.cdelt[0]*nx+360) < 1e-6, "goes once around, ra decreasing")
    if C.sym: C.check(C.and_(p.cdelt[0]*nx <= -360+F(1, 10**6)), "goes once around, ra decreasing")
    a, b = lin(w, 0, 0), lin(w, ny-1, nx-1)
    # height of a row is 180/(ny-yo)
    half = 0 if yo else C.rat(90)/ny
    C.eq((a[0]+90-half)*ny, 0, "first row at the south pole"); C.eq((b[0]-90+half)*ny, 0, "last row at the north pole")
    # pixels symmetric up to the wrap: first column at +180 or half a pixel from it, staying within one turn of the reference
    par = C.floor(nx*C.rat(1, 2) if C.sym else nx/2)
    C.check(C.and_(p.crpix[0]-par >= F(1, 2)-F(1, 10**6), p.crpix[0]-par <= F(1, 2)+F(1, 10**6)), "reference in the middle")
    C.eq((p.crval[0]+p.cdelt[0]*F(1, 2))*nx, 0, "ra=0 is at a pixel centre")

@case(params=["cc", "fejer1"], budget=(50, 200))
def band(C, variant):
    """band_geometry: the rows of the full sky between the two declinations"""
    e, np, D = C.px.enmap, C.np, C.px.utils.degree
    yo = 1 if variant == "cc" else 0
    n = C.choice("n", [9, 20])
    ny, nx = n+yo, 2*n
    cut = C.choice("cut", ["one", "two"])
    if cut == "one":
        d2 = C.real("d2", 5, 70); d1 = -d2
        arg = d2*D
    else:
        d1, wd = C.real("d1", -70, 50), C.real("wd", 20, 60)
        d2 = d1+wd; C.assume(d2 <= 75)
        arg = C.arr([d1*D, d2*D])
    fs, fw = e.fullsky_geometry(shape=(ny, nx), variant=variant)
    r1, r2 = (d1+90)*C.rat(n, 180)-(0 if yo else C.rat(1, 2)), (d2+90)*C.rat(n, 180)-(0 if yo else C.rat(1, 2))
    C.away(r1, 1, F(1, 2)); C.away(r2, 1, F(1, 2))
    i1, i2 = C.floor(r1+F(1, 2)), C.floor(r2+F(1, 2))
    by = C.choice("by", ["shape", "res"])
    if by == "shape": s, w = e.band_geometry(arg, shape=(ny, nx), variant=variant, dims=(3,))
    else: s, w = e.band_geometry(arg, res=C.pi*C.rat(1, n) if C.sym else C.pi/n, variant=variant, dims=(3,))
    C.same(len(s), 3, "leading axes"); C.eq(s[1], i2-i1, "rows"); C.eq(s[2], nx, "columns")
    same_pos(C, w, 0, 0, fw, i1, 0, "position"); same_pos(C, w, 1, 1, fw, i1+1, 1, "position")

@case(params=["tan", "car", "plain"], budget=(40, 200))
def thumbnail(C, proj):
    """thumbnail_geometry: odd size with (0,0) at the centre of the middle pixel"""
    e, np, D = C.px.enmap, C.np, C.px.utils.degree
    form = C.choice("form", ["res+shape", "r+res", "r+shape"])
    dirs = [1, 1] if proj == "plain" else [1, -1]
    if form == "r+res":
        ry, rx = C.choice("res", [(F(1, 2), F(1, 2)), (F(1, 3), F(1, 2)), (F(1, 3), F(1, 3))])
        if proj == "tan": return
        ay = C.real("r", 1, 5); ax = C.real("r2", 1, 3) if ry != rx or C.choice("both", [False, True]) else ay
        s, w = e.thumbnail_geometry(r=(ay*D if ax is ay else C.arr([ay*D, ax*D])), res=ry*D if ry == rx else C.arr([ry*dirs[0]*D, rx*dirs[1]*D]), proj=proj, dims=(2,))
        cd = [rx*dirs[1], ry*dirs[0]]
        C.away(ay, ry, F(ry)/2); C.away(ax, rx, F(rx)/2)
        ny, nx = 2*C.floor(ay/ry+F(1, 2))+1, 2*C.floor(ax/rx+F(1, 2))+1
    elif form == "res+shape":
        res = C.real("res", F(1, 10), 1); ny, nx = C.int("ny", 2, 60), C.int("nx", 2, 60)
        s, w = e.thumbnail_geometry(res=res*D, shape=(ny, nx), proj=proj, dims=(2,))
        ny, nx = C.floor(ny*C.rat(1, 2) if C.sym else ny/2)*2+1, C.floor(nx*C.rat(1, 2) if C.sym else nx/2)*2+1
        cd = [res*dirs[1], res*dirs[0]]
    else:
        ny, nx = C.choice("n", [(4, 7), (5, 5), (8, 3)])
        if proj == "tan": return
        ay = C.real("r", 1, 5); ax = C.real("r2", 1, 5) if C.choice("both", [False, True]) else ay
        s, w = e.thumbnail_geometry(r=ay*D if ax is ay else C.arr([ay*D, ax*D]), shape=(ny, nx), proj=proj, dims=(2,))
        ny, nx = ny//2*2+1, nx//2*2+1
        cd = [2*ax/(nx-1)*dirs[1], 2*ay/(ny-1)*dirs[0]]
    C.same(len(s), 3, "leading axes"); C.eq(s[1], ny, "rows are odd"); C.eq(s[2], nx, "columns are odd")
    C.eq(w.wcs.crval, C.arr([0, 0]), "centred on the origin"); C.eq(C.arr([w.wcs.crpix[0]*2, w.wcs.crpix[1]*2]), C.arr([nx+1, ny+1]), "origin at the middle pixel"); C.eq(w.wcs.cdelt, C.arr(cd), "pixel size")

RULES = {"safe": "hh,hh", "fejer1": "00,hh", "cc": "00,00", "any": "**,**"}
@case(params=["safe", "fejer1", "cc", "any", "h0,0h", "0*,h*", "*h,*0"], budget=(40, 200))
def pixelization(C, variant):
    """geometry2 full sky: pixel centres or edges at the sky's edges as the variant says; by shape or by resolution"""
    e, np, D = C.px.enmap, C.np, C.px.utils.degree
    rule = RULES.get(variant, variant)
    by = C.choice("by", ["res", "shape"])
    off = {"0": 0, "h": F(1, 2), "*": None}
    l, r, b, t = [off[rule[i]] for i in (0, 1, 3, 4)]
    if by == "res":
        n = C.choice("n", [4, 9, 30]); rx = ry = F(180, n)
        if variant == "h0,0h": rx = F(360, 2*n+F(1, 2)); ry = F(180, n+F(1, 2))
        if variant == "h0,0h": s, w = e.geometry2(res=C.arr([ry*D, rx*D*-1]), variant=variant, pre=(2,))
        else: s, w = e.geometry2(res=ry*D, variant=variant, pre=(2,))
        nx, ny = s[2], s[1]
    else:
        ny, nx = C.int("ny", 3, 400), C.int("nx", 3, 400)
        s, w = e.geometry2(shape=(ny, nx), variant=variant, pre=(2,))
        C.eq(s[1], ny, "rows"); C.eq(s[2], nx, "columns")
        l, r = F(1, 2) if l is None else l, F(1, 2) if r is None else r
        b, t = F(1, 2) if b is None else b, F(1, 2) if t is None else t
    C.same(len(s), 3, "leading axes")
    p = w.wcs
    C.check(C.and_(p.cdelt[0] < 0, p.cdelt[1] > 0), "directions")
    if by == "res": C.eq(p.cdelt, C.arr([-rx, ry]), "pixel size")
    def edge(v, o, want, label, mod=None):
        if o is None: return
        if mod: C.eqmod(v, want, mod, label)
        else: C.eq(v, want, label, tol=F(1, 10**5))
    if b is not None: edge(lin(w, -b, 0)[0], b, -90, "bottom edge")
    if t is not None: edge(lin(w, ny-1+t, 0)[0], t, 90, "top edge")
    if l is not None and variant != "any" : edge(lin(w, 0, -l)[1], l, 180, "left edge", 360)
    if r is not None and variant != "any":
        last = nx if (l == 0 and r == 0) else nx-1+r
        edge(lin(w, 0, last)[1], r, -180, "right edge", 360)
    if l is not None and r is not None and variant != "any":
        tot = nx if l+r in (0, 1) else nx-1+l+r
        C.eq(p.cdelt[0]*tot, -360, "covers the sky once", tol=F(1, 10**5))

@case(budget=(40, 200))
def crop2(C):
    """geometry2 with a box or a centre: pixels of the full-sky grid nearest the request"""
    e, np, D = C.px.enmap, C.np, C.px.utils.degree
    deg, u = unit(C)
    var = C.choice("variant", ["fejer1", "safe"])
    r = C.choice("r", [1, 2])
    o = 0 if var == "fejer1" else F(1, 2)
    form = C.choice("form", ["box", "point"])
    y, x = C.real("y", -40, 40), C.real("x", -100, 100)
    if form == "box":
        hy, hx = C.real("h", 5, 20), C.real("w", 5, 40)
        sx = C.choice("sx", [-1, 1])
        for v in (y, y+hy): C.away(v, r, 0)
        for v in (x, x+sx*hx): C.away(v, r, (o+F(1, 2))*r)
        s, w = e.geometry2(C.arr([[y*u, x*u], [(y+hy)*u, (x+sx*hx)*u]]), res=r*u, variant=var, deg=deg)
        a, b = lin(w, -F(1, 2), -F(1, 2)), lin(w, s[0]-F(1, 2), s[1]-F(1, 2))
        C.eq(w.wcs.cdelt, C.arr([sx*r, r]), "directions follow the box")
        for got, want in ((a[0], y), (b[0], y+hy), (a[1], x), (b[1], x+sx*hx)):
            d = got-want
            d = d-360*C.floor(d/360+F(1, 2)) if not C.sym else d-360*C.floor(d*C.rat(1, 360)+F(1, 2))
            C.check(C.and_(d <= r+F(1, 1000), d >= -r-F(1, 1000)), "corner within a pixel")
    else:
        ny, nx = C.choice("n", [(4, 5), (5, 4)])
        C.away(y, r, 0); C.away(x, r, (o+F(1, 2))*r)
        s, w = e.geometry2(C.arr([y*u, x*u]), res=r*u, shape=(ny, nx), variant=var, deg=deg)
        C.same(tuple(int(v) for v in s), (ny, nx), "shape"); C.eq(w.wcs.cdelt, C.arr([-r, r]), "default directions")
        a = lin(w, ny//2, nx//2)
        for got, want in ((a[0], y), (a[1], x)):
            d = got-want
            d = d-360*C.floor(d/360+F(1, 2)) if not C.sym else d-360*C.floor(d*C.rat(1, 360)+F(1, 2))
            C.check(C.and_(d <= r*F(1, 2)+F(1, 1000), d >= -r*F(1, 2)-F(1, 1000)), "position within half a pixel of the middle pixel")
    # rows are rows of the full sky
    isint(C, (lin(w, 0, 0)[0]+90)*F(1, r)-F(1, 2), "rows on the full-sky grid")
    isint(C, (lin(w, 0, 0)[1]-180)*F(1, r)-o, "columns on the full-sky grid")

@case(params=["CAR", "CEA"], budget=(40, 200))
def recenter(C, kind):
    """moving the reference point along the equator never moves pixels"""
    e, wu = C.px.enmap, C.px.wcsutils
    w = symwcs(C, kind, cp=60)
    p = [w.wcs.crpix[0]+0, w.wcs.crval[0]+0]
    ny, nx = C.int("ny", 1, 60), C.int("nx", 1, 700)
    x, ra = C.real("x", -200, 200), C.real("ra", -200, 200)
    for o in (wu.recenter_cyl_x(w, x), wu.recenter_cyl_ra(w, ra), e.recenter_cyl((ny, nx), w)[1]):
        same_pos(C, o, 0, 0, w, 0, 0, "position"); same_pos(C, o, 3, 100, w, 3, 100, "position")
    C.eq(wu.recenter_cyl_x(w, x).wcs.crpix[0], x, "reference pixel as asked")
    C.eq(wu.recenter_cyl_ra(w, ra).wcs.crval[0], ra, "reference ra as asked")
    C.eq(e.recenter_cyl((ny, nx), w)[1].wcs.crpix[0]*2, nx+1, "reference in the middle")
    C.eq(C.arr([w.wcs.crpix[0], w.wcs.crval[0]]), C.arr(p), "input unchanged")
    s, o = e.recenter_geo((ny, nx), w, mode=C.choice("mode", ["auto", True, False]))
    same_pos(C, o, 2, 50, w, 2, 50, "recenter_geo position")

@case(budget=(40, 200))
def fixwcs(C):
    """fix_wcs: same pixels, reference point in the middle"""
    wu = C.px.wcsutils
    w = symwcs(C, "CAR", cdx=C.choice("cdx", [1, F(1, 2), 5]), cdy=1, cp=900)
    o = wu.fix_wcs(w)
    same_pos(C, o, 0, 0, w, 0, 0, "position"); same_pos(C, o, 3, 100, w, 3, 100, "position")
    w2 = symwcs(C, "TAN", tag="t")
    C.raises(ValueError, lambda: wu.fix_wcs(w2), "refuses non-separable projections")

WIDTH = {"cea": (360, 360/math.pi), "mer": (360, 360), "arc": (360, 360), "zea": (720/math.pi,)*2, "sin": (360/math.pi,)*2, "tan": (360, 360), "mol": (720*2**.5/math.pi, 360*2**.5/math.pi), "ait": (720*2**.5/math.pi, 360*2**.5/math.pi), "car": (360, 180)}
@case(params=list(WIDTH), budget=(30, 150))
def projections2(C, proj):
    """geometry2 full sky in every projection: the projection plane's own extent divided into pixels around the reference point, which is where asked"""
    e, np = C.px.enmap, C.np
    deg, u = unit(C)
    by = C.choice("by", ["res", "shape"]); var = C.choice("variant", ["safe", "any"]) if by == "shape" else "safe"
    name = C.choice("name", [proj, proj.upper()+":"+var])
    if name == proj: kw = dict(variant=var)
    else: kw = {}
    ref = C.choice("ref", [None, "given"])
    if ref: fy, fx = (0 if proj in ("cea", "mer", "car") else C.real("fy", -80, 80)), C.real("fx", -170, 170); kw["ref"] = [fy*u, fx*u]
    else: fy, fx = 90 if proj in ("arc", "zea", "sin", "tan") else 0, 0
    W = WIDTH[proj]
    if by == "shape":
        ny, nx = C.int("ny", 3, 300), C.int("nx", 3, 300)
        s, w = e.geometry2(shape=(ny, nx), proj=name, deg=deg, **kw)
        C.eq(s[0], ny, "rows"); C.eq(s[1], nx, "columns")
        C.eq(w.wcs.cdelt[0]*nx, -W[0], "width", tol=F(1, 10**4)); C.eq(w.wcs.cdelt[1]*ny, W[1], "height", tol=F(1, 10**4))
    else:
        n = C.choice("n", [6, 25]); ry, rx = W[1]/n, W[0]/(2*n)
        s, w = e.geometry2(res=C.arr([ry*u, -rx*u]), proj=name, deg=deg, **kw)
        C.eq(s[0], n, "rows"); C.eq(s[1], 2*n, "columns")
        C.eq(w.wcs.cdelt, C.arr([-rx, ry]), "pixel size")
    p = w.wcs; ny, nx = s
    C.same([str(v) for v in p.ctype], ["RA---"+proj.upper(), "DEC--"+proj.upper()], "projection")
    # the reference point, moved along the equator for cylindrical projections, is in the middle
    C.eq(p.crval[1], fy, "reference declination"); C.eq(p.crpix[1]*2, ny+1, "reference row", tol=F(1, 10**4))
    dx = p.crpix[0]-(nx+1)*F(1, 2)
    if proj in ("cea", "mer", "car"): C.eqmod(p.crval[0]-dx*p.cdelt[0]-fx, 0, 360, "reference right ascension", tol=F(1, 10**3))
    else: C.eq(p.crval[0], fx, "reference right ascension"); C.eq(dx, 0, "reference column", tol=F(1, 10**4))

@case(params=["tan", "zea", "car"], budget=(30, 150))
def mid2(C, proj):
    """geometry2 with ref=mid: the projection is centred on the box's middle or on the given point"""
    e, np = C.px.enmap, C.np
    deg, u = unit(C)
    fy, fx = C.real("fy", -60, 60), C.real("fx", -150, 150)
    if proj == "car": fy = 0
    r = C.choice("r", [F(1, 2), 1])
    ny, nx = C.choice("n", [(4, 6), (5, 7)])
    s, w = e.geometry2(C.arr([fy*u, fx*u]), res=r*u, shape=(ny, nx), proj=proj, variant="safe" if proj in ("tan", "car") else None, deg=deg, ref="mid")
    p = w.wcs
    C.same(tuple(int(v) for v in s), (ny, nx), "shape"); C.eq(p.crval[1], fy, "reference declination")
    y, x = p.crpix[1]-1, p.crpix[0]-1
    if proj == "car": x = x+(fx-p.crval[0])/p.cdelt[0]
    else: C.eq(p.crval[0], fx, "reference right ascension")
    t = F(1, 1000)+(1 if proj == "zea" else F(1, 2))
    C.check(C.and_(y-F(ny-1, 2) <= t, F(ny-1, 2)-y <= t), "in the middle row to half a pixel")
    k = x-F(nx-1, 2); k = k-C.floor(k*r/360+F(1, 2))*360/r if proj == "car" else k
    C.check(C.and_(k <= t, -k <= t), "in the middle column to half a pixel")
