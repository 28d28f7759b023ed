from .common import *
PRELOAD = ["enmap"]
BOUNDS = "pairs of geometries on one pixel grid, offset by -40..40 pixels (symbolic), sizes up to 60 (symbolic) for geometries and 3x4 for maps, reference point and pixel size real, reference value of the second geometry moved freely; plain, CAR and CEA; skies 8-12 pixels around for the wrapped overlap"

def pair(C, kind, oy, ox, cdx=None, cdy=None, moved=True):
    """two wcses on one grid: pixel (0,0) of the second is pixel (oy,ox) of the first"""
    w1 = symwcs(C, kind, sx=C.choice("sx", [-1, 1]), sy=C.choice("sy", [1, -1]), cp=20, cdx=cdx, cdy=cdy)
    p = w1.wcs
    w2 = w1.deepcopy()
    mx = C.real("mx", -30, 30) if moved else 0   # move the reference point along the equator; same grid
    my = C.real("my", -30, 30) if moved and kind == "" else 0
    w2.wcs.crpix = [p.crpix[0]-ox+mx, p.crpix[1]-oy+my]
    w2.wcs.crval = [p.crval[0]+mx*p.cdelt[0], p.crval[1]+my*p.cdelt[1]]
    return w1, w2

@case(params=["CAR", "", "CEA"], budget=(40, 200))
def compat(C, kind):
    """is_compatible and pixbox_of: same grid is recognized, and the offset is right; other grids are refused"""
    e, np, wu = C.px.enmap, C.np, C.px.wcsutils
    oy, ox = C.int("oy", -40, 40), C.int("ox", -40, 40)
    ny, nx = C.int("ny", 1, 60), C.int("nx", 1, 60)
    w1, w2 = pair(C, kind, oy, ox, cdx=C.choice("cdx", [F(1, 2), 2, F(1, 3)]), cdy=C.choice("cdy", [F(1, 2), 1]))
    C.check(wu.is_compatible(w1, w2), "same grid is compatible")
    b = e.pixbox_of(w1, (3, ny, nx), w2)
    C.eq(b, C.arr([[oy, ox], [oy+ny, ox+nx]]), "pixel box")
    same_pos(C, w2, 0, 0, w1, b[0, 0], b[0, 1], "position")
    # a fraction of a pixel off
    f = C.real("f", F(1, 100), F(99, 100))
    ax = C.choice("ax", [0, 1])
    w3 = w2.deepcopy()
    cp = [w3.wcs.crpix[0]+(f if ax == 0 else 0), w3.wcs.crpix[1]+(f if ax == 1 else 0)]
    w3.wcs.crpix = cp
    C.check(C.not_(wu.is_compatible(w1, w3)), "fractional offset is not compatible")
    # other pixel size
    g = C.real("g", F(101, 100), 4)
    w4 = w2.deepcopy()
    w4.wcs.cdelt = [w2.wcs.cdelt[0]*(g if ax == 0 else 1), w2.wcs.cdelt[1]*(g if ax == 1 else 1)]
    C.check(C.not_(wu.is_compatible(w1, w4)), "other pixel size is not compatible")
    w5 = w2.deepcopy()
    w5.wcs.cdelt = [w2.wcs.cdelt[0]*(-1 if ax == 0 else 1), w2.wcs.cdelt[1]*(-1 if ax == 1 else 1)]
    C.check(C.not_(wu.is_compatible(w1, w5)), "other pixel direction is not compatible")
    C.raises(AssertionError, lambda: e.pixbox_of(w1, (ny, nx), w5), "pixbox_of refuses")
    if kind:
        w6 = w2.deepcopy(); k2 = "CEA" if kind == "CAR" else "CAR"
        w6.wcs.ctype = ["RA---"+k2, "DEC--"+k2]
        C.check(C.not_(wu.is_compatible(w1, w6)), "other projection is not compatible")

@case(params=["CAR", ""], budget=(40, 200))
def union_geo(C, kind):
    """union_geometry is the smallest box with all pixels of all geometries"""
    e, np = C.px.enmap, C.np
    oy, ox = C.int("oy", -40, 40), C.int("ox", -40, 40)
    ny, nx, my, mx = C.ints("n", 4, 1, 60)
    w1, w2 = pair(C, kind, oy, ox, cdx=F(1, 2), cdy=F(1, 2))
    p1 = [w1.wcs.crpix[0]+0, w1.wcs.crpix[1]+0]
    third = C.choice("third", [False, True])
    geos = [((ny, nx), w1), ((my, mx), w2)]
    if third: geos.append(((1, 1), w2.deepcopy()))
    s, w = e.union_geometry(geos)
    def mn(a, b): return C.ite(a < b, a, b)
    def mx_(a, b): return C.ite(a > b, a, b)
    y0, x0, y1, x1 = mn(0, oy), mn(0, ox), mx_(ny, oy+my), mx_(nx, ox+mx)
    C.eq(s[-2], y1-y0, "height"); C.eq(s[-1], x1-x0, "width"); same_pos(C, w, 0, 0, w1, y0, x0, "position"); same_pos(C, w, 5, 3, w1, y0+5, x0+3, "position")
    C.eq(w1.wcs.crpix, p1, "input unchanged")

@case(params=["CAR", ""], budget=(50, 300))
def union_map(C, kind):
    """map_union: every pixel is the sum of the input pixels at its place"""
    e, np = C.px.enmap, C.np
    oy, ox = C.choice("oy", C.q([-3, 0, 1], [-3, -1, 0, 1, 4])), C.pick("ox", *C.q((-3, 3), (-6, 6)))
    pre = C.choice("pre", [(), (2,)])
    n1, n2 = C.choice("n", [((2, 3), (2, 2)), ((1, 2), (3, 4)), ((3, 3), (1, 1))])
    w1, w2 = pair(C, kind, oy, ox, cdx=1, cdy=1)
    d1, d2 = C.data("a", pre+n1), C.data("b", pre+n2)
    m1, m2 = e.ndmap(C.arr(d1).copy(), w1), e.ndmap(C.arr(d2).copy(), w2)
    o = e.map_union(m1, m2)
    y0, x0, y1, x1 = min(0, oy), min(0, ox), max(n1[0], oy+n2[0]), max(n1[1], ox+n2[1])
    C.same(tuple(o.shape), pre+(y1-y0, x1-x0), "shape")
    ref = np.zeros(pre+(y1-y0, x1-x0))
    ref[..., -y0:-y0+n1[0], -x0:-x0+n1[1]] = d1
    ref[..., oy-y0:oy-y0+n2[0], ox-x0:ox-x0+n2[1]] = ref[..., oy-y0:oy-y0+n2[0], ox-x0:ox-x0+n2[1]]+C.arr(d2)
    C.eq(o, ref, "values"); same_pos(C, o.wcs, -y0, -x0, w1, 0, 0, "position")
    C.eq(m1, d1, "first input unchanged"); C.eq(m2, d2, "second input unchanged"); same_pos(C, m2.wcs, 0, 0, w1, oy, ox, "second geometry unchanged")

@case(params=["", "CAR"], budget=(50, 300))
def overlap(C, kind):
    """overlap on maps that do not reach around the sky: exactly the common pixels"""
    e, np = C.px.enmap, C.np
    oy, ox = C.int("oy", -40, 40), C.int("ox", -40, 40)
    ny, nx, my, mx = C.ints("n", 4, 1, 40)
    w1, w2 = pair(C, kind, oy, ox, cdx=F(1, 2), cdy=F(1, 2))
    def mn(a, b): return C.ite(a < b, a, b)
    def mx_(a, b): return C.ite(a > b, a, b)
    ly, lx = mx_(0, oy), mx_(0, ox)
    hy, hx = mn(ny, oy+my), mn(nx, ox+mx)
    for form in ("geo", "box"):
        if form == "geo": s, w = e.overlap((3, ny, nx), w1, (my, mx), w2)
        else:
            box = C.arr([[oy, ox], [oy+my, ox+mx]])
            s, w = e.overlap((3, ny, nx), w1, box)
            C.eq(box, C.arr([[oy, ox], [oy+my, ox+mx]]), "box not modified")
        C.same(len(s), 2, "two pixel axes")
        none = C.or_(hy <= ly, hx <= lx)
        C.check(C.implies(none, s[0]*s[1] == 0), "nothing in common")
        C.check(C.implies(C.not_(none), C.and_(s[0] == hy-ly, s[1] == hx-lx)), "size")
        off = [w1.wcs.crpix[1]-w.wcs.crpix[1], w1.wcs.crpix[0]-w.wcs.crpix[0]]
        C.check(C.implies(C.not_(none), C.and_(off[0] == ly, off[1] == lx) if C.sym else (abs(off[0]-ly) < 1e-6 and abs(off[1]-lx) < 1e-6)), "position")

@case(budget=(50, 300))
def overlap_wrap(C):
    """overlap on a map on a sky w pixels around: no common pixel is lost and nothing outside the other geometry is added"""
    e, np = C.px.enmap, C.np
    W = C.choice("W", [8, 12])
    w1 = symwcs(C, "CAR", sx=-1, sy=1, cp=20, cdx=F(360, W), cdy=1)
    nx = C.choice("nx", [3, W-2, W]); ny = 4
    ox, mx = C.int("ox", -3*W, 3*W), C.int("mx", 1, W)
    s, w = e.overlap((ny, nx), w1, C.arr([[0, ox], [2, ox+mx]]))
    off = w1.wcs.crpix[0]-w.wcs.crpix[0]
    q = C.int("q", 0, W-1)
    p = ox+q                       # a pixel of the second geometry
    C.assume(q < mx)
    r = p-C.floor(p*C.rat(1, W) if C.sym else p/W)*W
    C.check(C.implies(r < nx, C.and_(p >= off-F(1, 1000), p < off+s[1]-F(1, 1000))), "common pixel is in the overlap")
    C.check(C.implies(s[1] > 0, C.and_(off >= ox-F(1, 1000), off+s[1] <= ox+mx+F(1, 1000))), "overlap is part of the other geometry")
    C.eq(s[0], 2, "height"); C.check(s[1] >= 0, "width is not negative")

@case(budget=(40, 200))
def neighborhood_plain(C):
    """neighborhood_pixboxes, plain coordinates: every pixel within the radius is in the box"""
    e, np, D = C.px.enmap, C.np, C.px.utils.degree
    w = symwcs(C, "", sx=C.choice("sx", [-1, 1]), sy=1, cp=20, cdx=F(1, 2), cdy=F(1, 4))
    y, x = C.real("y", 0, 40), C.real("x", 0, 60)
    r = C.real("r", F(1, 4), 3)             # radius in degrees
    dec, ra = lin(w, y, x)
    two = C.choice("two", [False, True])
    poss = C.arr([[dec*D, ra*D]] + ([[dec*D+D, ra*D-D]] if two else []))
    for v in (y-4*r, y+4*r, x-2*r, x+2*r): C.away(v, 1, F(1, 2))
    b = e.neighborhood_pixboxes((40, 60), w, poss, r*D)
    C.same(tuple(b.shape), (1+two, 2, 2), "shape")
    p, q = C.int("p", -60, 120), C.int("q", -60, 120)
    for i in range(1+two):
        yi, xi = y+4*i, x-i*2*(1 if w.wcs.cdelt[0] > 0 else -1)
        near = C.and_(p-yi <= 4*r, yi-p <= 4*r, q-xi <= 2*r, xi-q <= 2*r)
        C.check(C.implies(near, C.and_(b[i, 0, 0] <= p, p < b[i, 1, 0], b[i, 0, 1] <= q, q < b[i, 1, 1])), "pixel within the radius is in the box")

@case(budget=(40, 200))
def neighborhood_sky(C):
    """neighborhood_pixboxes on the sphere: the box covers the disk, wherever the position is in ra"""
    import math
    e, np, D = C.px.enmap, C.np, C.px.utils.degree
    w = symwcs(C, "CAR", sx=C.choice("sx", [-1, 1]), sy=C.choice("sy", [1, -1]), cp=20, cdx=F(1, 2), cdy=F(1, 4))
    w.wcs.crpix[1] = 20
    x = C.real("x", 0, 60)
    (y, rr) = C.choice("yr", [(3, F(4, 5)), (20+4*59, F(5, 2)), (-4*70, F(17, 10)), (25, F(1, 10))])
    dec, ra = lin(w, y, x)
    # half width of the disk in ra, from spherical geometry
    dra = math.degrees(math.asin(math.sin(math.radians(rr))/math.cos(math.radians(float(dec) if not C.sym else float(C.core.Sym.lift(dec).const())))))
    dra = F(int(dra*10**6), 10**6)
    b = e.neighborhood_pixboxes((40, 60), w, C.arr([[dec*D, ra*D]]), float(rr)*math.pi/180)
    C.same(tuple(b.shape), (1, 2, 2), "shape")
    p, q = C.int("p", -400, 400), C.int("q", -60, 120)
    h, g = rr*4, dra*2
    near = C.and_(p-y <= h, y-p <= h, q-x <= g, x-q <= g)
    C.check(C.implies(near, C.and_(b[0, 0, 0] <= p, p < b[0, 1, 0], b[0, 0, 1] <= q, q < b[0, 1, 1])), "pixel within the radius is in the box")

@case(budget=(40, 200))
def geometry_object(C):
    """Geometry objects: pairs, copies and prefixes keep shape and wcs"""
    e, np = C.px.enmap, C.np
    w = symwcs(C, C.choice("kind", ["", "CAR"]), sx=-1, sy=1, cp=20)
    p = [w.wcs.crpix[0]+0, w.wcs.crpix[1]+0]
    ny, nx = C.int("ny", 1, 60), C.int("nx", 1, 60)
    g = e.Geometry((3, ny, nx), w)
    h = e.Geometry(g)
    C.check(h.wcs is w, "from a Geometry"); C.eq(C.arr(list(h.shape)), C.arr([3, ny, nx]), "from a Geometry")
    s, v = g
    C.check(v is w, "unpack"); C.eq(C.arr(list(s)), C.arr([3, ny, nx]), "unpack")
    C.eq(C.arr(list(g.nopre.shape)), C.arr([ny, nx]), "nopre"); C.eq(C.arr(list(g.with_pre((2, 5)).shape)), C.arr([2, 5, ny, nx]), "with_pre")
    C.eq(g.npix, ny*nx, "npix")
    c = g.copy()
    c.wcs.wcs.crpix = [0, 0]
    C.eq(w.wcs.crpix, p, "copies do not share their wcs")
