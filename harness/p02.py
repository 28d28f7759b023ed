from .common import *
PRELOAD = ["enmap"]
BOUNDS = "maps of 1..8 pixels per axis times pixel sizes 1/2, 3/4, 2, 7 deg (also maps as wide as the sky); reference pixel and value real; pixel positions real within +-half a sky of the map (CAR) or anywhere (plain, opaque projections); arrays of up to 3 points, corner grids of 10 points"
ASSUMPTIONS = ["positions keep 1/1000 pixel (or degree) distance from the wrapping cut"]

CDS = [F(1, 2), F(3, 4), 2, 7]
R = lambda C: C.px.utils.degree

def carwcs(C, cds=CDS, tag=""):
    cdx = C.choice(tag+"cdx", cds); cdy = C.choice(tag+"cdy", [F(1, 2), 1])
    w = symwcs(C, "CAR", tag=tag, sx=C.choice(tag+"sx", [-1, 1]), sy=1, cdx=cdx, cdy=cdy, cp=400)
    # the pixel range of interest stays within one turn of the reference point
    return w, cdx, cdy

@case(budget=(60, 300))
def plain(C):
    """plain coordinates: exactly linear both ways, never wrapped"""
    e = C.px.enmap
    w = symwcs(C, "")
    D = R(C)
    ny, nx = C.int("ny", 1, 1000), C.int("nx", 1, 1000)
    y, x, y2, x2 = C.reals("p", 4, -2000, 2000)
    for corner in (False, True):
        o = F(1, 2) if corner else 0
        for safe in (True, False):
            s = e.pix2sky((ny, nx), w, [[y, y2], [x, x2]], safe=safe, corner=corner)
            for k, (a, b) in enumerate([(y, x), (y2, x2)]):
                l = lin(w, a-o, b-o)
                C.eq(s[0, k], l[0]*D, "dec"); C.eq(s[1, k], l[1]*D, "ra")
            p = e.sky2pix((ny, nx), w, s, safe=safe, corner=corner)
            C.eq(p, C.arr([[y, y2], [x, x2]]), "roundtrip")
    q = e.pix2sky((ny, nx), w, C.arr([y, x]))
    C.same(q.shape, (2,), "shape of one point")
    C.eq(q[0], lin(w, y, x)[0]*D, "one point")

@case(budget=(60, 300))
def car_pix2sky(C):
    """CAR: dec linear, ra linear modulo a turn and continuous along the points"""
    e = C.px.enmap
    w, cdx, cdy = carwcs(C)
    D = R(C)
    ny, nx = 6, 5
    y, x = C.real("y", -3, 8), C.real("x", -20, 20)
    C.assume(abs((x+1-w.wcs.crpix[0])*cdx) <= 350)
    d1, d2 = C.real("d1", -10, 10), C.real("d2", -10, 10)
    for d in (d1, d2): C.assume(abs(d*cdx) <= 179)
    C.assume(abs((x+d1+1-w.wcs.crpix[0])*cdx) <= 350); C.assume(abs((x+d1+d2+1-w.wcs.crpix[0])*cdx) <= 350)
    corner = C.choice("corner", [False, True]); o = F(1, 2) if corner else 0
    pts = C.arr([[y, y+d1, y], [x, x+d1, x+d1+d2]])
    s = e.pix2sky((ny, nx), w, pts, corner=corner)
    for k in range(3):
        l = lin(w, pts[0, k]-o, pts[1, k]-o)
        C.eq(s[0, k], l[0]*D, "dec")
        C.eqmod(s[1, k], l[1]*D, 360*D, "ra")
    C.eq(s[1, 1]-s[1, 0], w.wcs.cdelt[0]*d1*D, "continuous")
    C.eq(s[1, 2]-s[1, 1], w.wcs.cdelt[0]*d2*D, "continuous")
    # the middle point is the reference: in (-180,180]
    C.check(C.and_(s[1, 1] >= -180*D-F(1, 10**6), s[1, 1] <= 180*D+F(1, 10**6)), "reference branch")

@case(budget=(60, 300))
def car_sky2pix(C):
    """CAR: pixel position is right modulo the sky and as near the map as possible; inverse of pix2sky"""
    e = C.px.enmap
    w, cdx, cdy = carwcs(C)
    D = R(C)
    nx = C.int("nx", 1, 720); ny = C.int("ny", 1, 300)
    dec, ra = C.real("dec", -89, 89), C.real("ra", -700, 700)
    corner = C.choice("corner", [False, True]); o = F(1, 2) if corner else 0
    safe = C.choice("safe", [True, False, 2])
    p = e.sky2pix((ny, nx), w, C.arr([dec*D, ra*D]) if safe != 2 else C.arr([[dec*D], [ra*D]]), safe=safe, corner=corner)
    y, x = (p[0], p[1]) if safe != 2 else (p[0, 0], p[1, 0])
    C.eqmod(y, (dec-w.wcs.crval[1])/w.wcs.cdelt[1]+w.wcs.crpix[1]-1+o, 360/cdy, "y")
    C.eqmod(x, (ra-w.wcs.crval[0])/w.wcs.cdelt[0]+w.wcs.crpix[0]-1+o, 360/cdx, "x")
    if safe == 1:
        half = 180/cdx+F(1, 1000)
        C.check(C.and_(x-nx*F(1, 2)-o >= -half, x-nx*F(1, 2)-o <= half), "nearest to the map")
        C.check(C.and_(y-ny*F(1, 2)-o >= -180/cdy-F(1, 1000), y-ny*F(1, 2)-o <= 180/cdy+F(1, 1000)), "nearest to the map in y")

@case(budget=(60, 300))
def car_roundtrip(C):
    e = C.px.enmap
    w, cdx, cdy = carwcs(C)
    nx = C.int("nx", 1, 720); ny = C.int("ny", 1, 360)
    C.assume(nx*cdx <= 360, ny*cdy <= 180)
    y, x = C.real("y", -F(1, 2), 360), C.real("x", -F(1, 2), 720)
    C.assume(y <= ny-F(1, 2), x <= nx-F(1, 2))
    C.assume(x-nx*F(1, 2) >= -180/cdx+F(1, 1000), x-nx*F(1, 2) <= 180/cdx-F(1, 1000))
    dec = lin(w, y, x)[0]
    C.assume(dec >= -90, dec <= 90, abs((x+1-w.wcs.crpix[0])*cdx) <= 359)
    corner = C.choice("corner", [False, True]); o = F(1, 2) if corner else 0
    s = e.pix2sky((ny, nx), w, C.arr([y+o, x+o]), corner=corner)
    p = e.sky2pix((ny, nx), w, s, corner=corner)
    C.eq(p, C.arr([y+o, x+o]), "sky2pix(pix2sky(p)) == p")

@case(params=["TAN", "ZEA", "CEA", "MER"], budget=(60, 300))
def other_projections(C, proj):
    """other projections: axis order, units, corner shift and inverse are right for any projection"""
    e = C.px.enmap
    cdx, cdy = C.choice("cdx", [F(1, 2), F(3, 8)]), F(1, 2)
    w = symwcs(C, proj, sx=-1, sy=1, cdx=cdx, cdy=cdy, cp=20, cv=100)
    D = R(C)
    ny, nx = 12, 10
    y, x = C.real("y", -F(1, 2), 11), C.real("x", -F(1, 2), 9)
    corner = C.choice("corner", [False, True]); o = F(1, 2) if corner else 0
    s = e.pix2sky((ny, nx), w, C.arr([y+o, x+o]), corner=corner)
    ref = w.wcs_pix2world(x, y, 0)
    C.eq(s[0], ref[1]*D, "dec"); C.eqmod(s[1], ref[0]*D, 360*D, "ra")
    p = e.sky2pix((ny, nx), w, s, safe=False, corner=corner)
    if proj != "MER": C.eq(p, C.arr([y+o, x+o]), "roundtrip", tol=F(1, 10**5))

@case(params=[("CAR", True), ("CAR", False), ("TAN", "auto"), ("", False), ("CAR", "small")], budget=(60, 300))
def posmaps(C, proj, sep):
    """posmap, posaxes and pixmap agree with pix2sky pixel by pixel"""
    e = C.px.enmap
    ny, nx = C.choice("n", [(1, 1), (2, 3), (3, 2), (1, 4)])
    w = symwcs(C, proj, cdx=F(3, 4), cdy=F(1, 2), cp=20)
    corner = C.choice("corner", [False, True])
    kw = dict(separable=sep) if sep != "small" else dict(separable=False, bsize=2)
    pm = e.posmap((3, ny, nx), w, corner=corner, **kw)
    C.same(pm.shape, (2, ny, nx), "shape"); same_pos(C, pm.wcs, 0, 0, w, 0, 0, "wcs")
    px = e.pixmap((ny, nx), w)
    C.same(px.shape, (2, ny, nx), "pixmap shape")
    for i in range(ny):
        for j in range(nx):
            C.eq(px[0, i, j], i, "pixmap y"); C.eq(px[1, i, j], j, "pixmap x")
            s = e.pix2sky((ny, nx), w, C.arr([i, j]), corner=corner)
            C.eq(pm[0, i, j], s[0], "posmap dec")
            if proj: C.eqmod(pm[1, i, j], s[1], 360*R(C), "posmap ra")
            else: C.eq(pm[1, i, j], s[1], "posmap ra")
            if j and proj == "CAR": C.eq(pm[1, i, j]-pm[1, i, j-1], w.wcs.cdelt[0]*R(C), "posmap has no cut inside a row")
    if proj != "TAN":
        dec, ra = e.posaxes((ny, nx), w, corner=corner)
        C.eq(dec, pm[0, :, 0], "posaxes dec")
        if proj: C.eqmod(ra, pm[1, 0, :], 360*R(C), "posaxes ra")
        else: C.eq(ra, pm[1, 0, :], "posaxes ra")

@case(params=["CAR", ""], budget=(60, 300))
def box_corners(C, proj):
    """corners/box/pixbox2skybox: the sky positions of the outer pixel edges (or centers), on one side of the cut"""
    e = C.px.enmap
    cdx = C.choice("cdx", [F(1, 2), 2, 7])
    w = symwcs(C, proj, cdx=cdx, cdy=F(1, 2), cp=40)
    ny = C.int("ny", 1, 100); nx = C.int("nx", 1, 720)
    if proj: C.assume(nx*cdx <= 360)
    D = R(C)
    for p in (-F(1, 2), nx-F(1, 2)):
        if proj: C.assume(abs((p+1-w.wcs.crpix[0])*cdx) <= 355)
    corner = C.choice("corner", [True, False]); o = F(1, 2) if corner else 0
    if proj:
        # the reference (middle) sample must not sit on the cut itself
        pass
    b = e.corners((ny, nx), w, corner=corner)
    C.same(b.shape, (2, 2), "shape")
    lo, hi = lin(w, -o, -o), lin(w, ny-1+o, nx-1+o)
    C.eq(b[0, 0], lo[0]*D, "dec1"); C.eq(b[1, 0], hi[0]*D, "dec2")
    C.eq(b[1, 1]-b[0, 1], (hi[1]-lo[1])*D, "width")
    if proj: C.eqmod(b[0, 1], lo[1]*D, 360*D, "ra1")
    else: C.eq(b[0, 1], lo[1]*D, "ra1")
    C.eq(e.box((ny, nx), w, corner=corner), b, "box is corners")

@case(budget=(60, 300))
def contains(C):
    e = C.px.enmap
    w = symwcs(C, "CAR", cdx=2, cdy=1, cp=60, sy=1)
    ny, nx = C.int("ny", 1, 50), C.int("nx", 1, 100)
    y, x = C.real("y", -20, 70), C.real("x", -40, 140)
    C.assume(x-nx*F(1, 2) > -89, x-nx*F(1, 2) < 89)
    for v, n in ((y, ny), (x, nx)):
        C.away(v, 1, 0)
    dec = lin(w, y, x)[0]
    C.assume(dec >= -89, dec <= 89, abs((x+1-w.wcs.crpix[0])*2) <= 355)
    s = e.pix2sky((ny, nx), w, C.arr([[y], [x]]))
    c = e.contains((ny, nx), w, s)
    C.same(c.shape, (1,), "shape")
    inside = C.and_(y >= 0, y < ny, x >= 0, x < nx)
    C.check(C.and_(C.implies(inside, c[0]), C.implies(c[0], inside)), "contains iff within the pixel grid")
    c = e.contains((ny, nx), w, C.arr([[y], [x]]), unit="pix")
    C.check(C.and_(C.implies(inside, c[0]), C.implies(c[0], inside)), "contains in pixel units")
    m = e.center((ny, nx), w)
    C.eq(m[0], lin(w, (ny-1)*F(1, 2), 0)[0]*R(C), "center dec"); C.eqmod(m[1], lin(w, 0, (nx-1)*F(1, 2))[1]*R(C), 360*R(C), "center ra")
