from .common import *
PRELOAD = ["enmap"]
BOUNDS = "sky boxes with real corners up to 340 degrees wide, in either direction along each axis; pixel ranges: CAR with pixels of 1/2, 2, 45 deg (72 in thorough), maps up to 720 pixels wide, reference point real; submap contents: maps of 2-3 rows on a sky 8 pixels around and up to 8 wide, plain maps, all five rounding modes"
ASSUMPTIONS = ["box edges keep 1/20000 pixel (after the built-in nudge of 1/10000 pixel, so edges exactly on a boundary are included) from the rounding boundaries; boxes have a nonzero extent along both axes"]
EPS = F(1, 10000)
MODES = ["round", "floor", "ceil", "inclusive", "exclusive"]

def rnd(C, mode, which, x):
    """the pixel boundary a box edge is moved to; which: 0 lower, 1 upper"""
    x = x+EPS
    if mode == "inclusive": mode = "floor" if which == 0 else "ceil"
    elif mode == "exclusive": mode = "ceil" if which == 0 else "floor"
    if mode == "round": return C.floor(x+F(1, 2))
    if mode == "floor": return C.floor(x)
    return -C.floor(-x)

def edge(C, mode, x):
    C.away(x+EPS, 1, F(1, 2) if mode == "round" else 0, m=F(1, 20000))

def expected(C, mode, p1, p2, rev):
    """first pixel, number of pixels, direction"""
    lo, hi = (p2, p1) if rev else (p1, p2)
    a, b = rnd(C, mode, 0, lo), rnd(C, mode, 1, hi)
    return (b-1 if rev else a), b-a, (-1 if rev else 1)

@case(params=[(m, k) for m in MODES for k in ("CAR", "")], budget=(50, 300))
def pixel_range(C, mode, kind):
    """subinds: the pixels whose extent is selected by the box, first one in box order, modulo the sky"""
    e, D = C.px.enmap, C.px.utils.degree
    cdx = C.choice("cdx", C.q([F(1, 2), 45], [F(1, 2), 2, 45, 72]))
    w = symwcs(C, kind, cdx=cdx, cdy=F(1, 2), cp=40, sy=1, sx=-1)
    nphi = 360/F(cdx)
    ny, nx = C.int("ny", 1, 40), C.int("nx", 1, 720)
    C.assume(nx <= nphi)
    ry, rx = C.choice("rev", [(0, 0), (0, 1), (1, 0)])
    y1, y2 = C.real("y1", -20, 60), C.real("y2", -20, 60)
    x1, dx = C.real("x1", -300, 1000), C.real("dx", F(1, 100), 340/F(cdx))
    x2 = x1-dx if rx else x1+dx
    if ry: C.assume(y1 > y2+F(1, 100))
    else: C.assume(y2 > y1+F(1, 100))
    d1, r1 = lin(w, y1, x1); d2, r2 = lin(w, y2, x2)
    if kind: C.assume(d1 >= -80, d1 <= 80, d2 >= -80, d2 <= 80)
    for v in (y1, y2, x1, x2): edge(C, mode, v)
    if kind: C.away((x1-nx*F(1, 2)), nphi, nphi/2)
    box = C.arr([[d1*D, r1*D], [d2*D, r2*D]])
    ib = e.subinds((ny, nx), w, box, mode=None if mode == "round" else mode, cap=False)
    for k, (p1, p2, rev) in enumerate(((y1, y2, ry), (x1, x2, rx))):
        a, n, s = expected(C, mode, p1, p2, rev)
        C.check(ib[2, k] == s, "direction")
        C.eq((ib[1, k]-ib[0, k])*s, n, "number of pixels")
        if kind and k == 1: C.eqmod(ib[0, k], a, nphi, "first pixel")
        else: C.eq(ib[0, k], a, "first pixel")
    # without flipping, the same pixels in map order
    ib2 = e.subinds((ny, nx), w, box, mode=mode, cap=False, noflip=True)
    for k, s in ((0, -1 if ry else 1), (1, -1 if rx else 1)):
        C.check(ib2[2, k] == 1, "noflip direction")
        C.eq(ib2[0, k], ib[0, k] if s > 0 else ib[1, k]+1, "noflip start"); C.eq(ib2[1, k], ib[1, k] if s > 0 else ib[0, k]+1, "noflip end")
    # geometry of the box
    gs, gw = e.subgeo((3, ny, nx), w, box, mode=mode)
    C.same(len(gs), 3, "leading axes kept")
    n0, n1 = (ib[1, 0]-ib[0, 0])*(-1 if ry else 1), (ib[1, 1]-ib[0, 1])*(-1 if rx else 1)
    C.check(C.and_(C.implies(n0 >= 0, gs[-2] == n0), C.implies(n1 >= 0, gs[-1] == n1)), "geometry shape")
    same_pos(C, gw, 0, 0, w, ib[0, 0], ib[0, 1], "geometry position"); same_pos(C, gw, 2, 2, w, ib[0, 0]+2*ib[2, 0], ib[0, 1]+2*ib[2, 1], "geometry position")
    if mode == "round":
        # capping only removes pixels outside the map
        ic = e.subinds((ny, nx), w, box)
        i = C.int("i", -200, 900)
        for k, n in ((0, ny), (1, nx)):
            sel = lambda b: C.or_(C.and_(b[2, k] > 0, b[0, k] <= i, i < b[1, k]), C.and_(b[2, k] < 0, b[0, k] >= i, i > b[1, k]))
            C.check(C.and_(C.implies(C.and_(sel(ib), i >= 0, i < n), sel(ic)), C.implies(sel(ic), C.and_(sel(ib), i >= 0, i < n))), "capped range")

@case(params=[(m, k, r) for m in MODES for k in ("CAR", "") for r in ((0, 0), (0, 1), (1, 1)) if m in ("round", "inclusive") or r == (0, 1)], budget=(50, 400))
def contents(C, mode, kind, rev):
    """submap: every pixel of the result holds the value of the map at that place of the sky, or zero where the map has none"""
    e, np, D = C.px.enmap, C.np, C.px.utils.degree
    w = symwcs(C, kind, cdx=45, cdy=F(3, 2), cp=3, sy=1, sx=-1)
    ny, nx = C.choice("nyx", C.q([(2, 8) if mode == "round" else (3, 5)], [(2, 8), (3, 5), (3, 7), (2, 1)]))
    pre = (2,) if mode == "floor" else ()
    d = C.data("d", pre+(ny, nx)); m = e.ndmap(d, w)
    ry, rx = rev
    ys = C.choice("yq", C.q([-1, 1], [-2, -1, 0, 1, 2])); x1 = C.real("x1", *C.q((-6, 10), (-12, 20)))
    ln = C.choice("ln", C.q([F(1, 4), F(9, 4), F(29, 4)], [F(1, 4), F(5, 4), F(9, 4), F(11, 4), F(21, 4), F(29, 4)]))
    y1, y2 = ys+F(1, 8), ys+F(1, 8)+F(17, 8)
    if ry: y1, y2 = y2, y1
    x2 = x1+ln
    if rx: x1, x2 = x2, x1
    d1, r1 = lin(w, y1, x1); d2, r2 = lin(w, y2, x2)
    C.assume(d1 >= -80, d1 <= 80, d2 >= -80, d2 <= 80)
    for v in (x1, x2): edge(C, mode, v)
    if kind: C.away((x1-F(nx, 2)), 8, 4)
    box = C.arr([[d1*D, r1*D], [d2*D, r2*D]])
    ay, hy, sy = expected(C, mode, C.rat(y1) if C.sym else float(y1), C.rat(y2) if C.sym else float(y2), ry)
    ax, hx, sx = expected(C, mode, x1, x2, rx)
    if C.sym:
        ax, hx = C.e.concretize(ax), C.e.concretize(hx)
    ay, hy = int(ay), int(hy)
    if hx <= 0 or hy <= 0: return
    form = C.choice("form", ["f", "recenter"] if kind and (C.tier == "thorough" or mode == "round") else ["f"])
    o = m.submap(box, mode=mode, **(dict(recenter=True) if form == "recenter" else {}))
    C.same(o.shape, pre+(hy, hx), "shape")
    ref = np.zeros(pre+(hy, hx))
    for i in range(hy):
        for j in range(hx):
            y, x = ay+sy*i, ax+sx*j
            if kind: x %= 8
            if 0 <= y < ny and 0 <= x < nx: ref[..., i, j] = C.arr(d)[..., y, x]
    C.eq(o, ref, "values")
    # the start may differ by whole turns
    for i, j in ((0, 0), (hy-1, hx-1)):
        same_pos(C, o.wcs, i, j, w, ay+sy*i, ax+sx*j, "position", 360 if kind else None)
    C.eq(m, d, "input unchanged")
    # the geometry-only version agrees
    if mode == "round":
        g = e.Geometry(m.shape, w).submap(box=box, mode=mode)
        C.same(tuple(int(v) for v in g.shape), o.shape, "geometry shape"); same_pos(C, g.wcs, 0, 0, o.wcs, 0, 0, "geometry position", 360 if kind else None)

@case(params=["round", "floor", "ceil"], budget=(50, 300))
def touching(C, mode):
    """boxes that share an edge give pixel ranges that share an edge: no pixel is lost or used twice"""
    e, D = C.px.enmap, C.px.utils.degree
    cdx = C.choice("cdx", [F(1, 2), 8])
    w = symwcs(C, "CAR", cdx=cdx, cdy=F(1, 2), cp=40, sy=1)
    nphi = 360/F(cdx)
    ny, nx = 40, C.int("nx", 1, 720)
    C.assume(nx <= nphi)
    x1 = C.real("x1", -100, 400); a, b = C.real("a", F(1, 10), 150/F(cdx)), C.real("b", F(1, 10), 150/F(cdx))
    y1, ya, yb = C.real("y1", 0, 10), C.real("ya", F(1, 10), 10), C.real("yb", F(1, 10), 10)
    X, Y = [x1, x1+a, x1+a+b], [y1, y1+ya, y1+ya+yb]
    for v in X: edge(C, mode, v); C.away(v-nx*F(1, 2), nphi, nphi/2)
    for v in Y: edge(C, mode, v); C.assume(lin(w, v, 0)[0] >= -80, lin(w, v, 0)[0] <= 80)
    bx = [e.subinds((ny, nx), w, C.arr([[lin(w, Y[k], 0)[0]*D, lin(w, 0, X[k])[1]*D], [lin(w, Y[k+1], 0)[0]*D, lin(w, 0, X[k+1])[1]*D]]), mode=mode, cap=False) for k in (0, 1)]
    C.eq(bx[0][1, 0], bx[1][0, 0], "shared edge in y"); C.eqmod(bx[0][1, 1], bx[1][0, 1], nphi, "shared edge in x")

@case(budget=(40, 200))
def own_box(C):
    """the box of a map selects exactly that map"""
    e = C.px.enmap
    cdx = C.choice("cdx", [F(1, 2), 8])
    w = symwcs(C, "CAR", cdx=cdx, cdy=F(1, 2), cp=40)
    ny, nx = C.int("ny", 1, 60), C.int("nx", 1, 720)
    C.assume(nx*cdx <= 340)
    for p in (-F(1, 2), nx-F(1, 2)): C.assume(abs((p+1-w.wcs.crpix[0])*cdx) <= 355)
    for p in (-F(1, 2), ny-F(1, 2)): C.assume(abs(lin(w, p, 0)[0]) <= 85)
    b = e.box((ny, nx), w)
    ib = e.subinds((ny, nx), w, b, cap=False)
    C.eq(ib, C.arr([[0, 0], [ny, nx], [1, 1]]), "own box")
    s, ow = e.subgeo((ny, nx), w, b)
    C.eq(s[0], ny, "ny"); C.eq(s[1], nx, "nx"); same_pos(C, ow, 0, 0, w, 0, 0, "position")
    s, ow = e.subgeo((ny, nx), w, pixbox=C.arr([[1, 2], [ny, nx]]))
    C.eq(s[0], ny-1, "pixbox ny"); C.check(C.implies(nx >= 2, s[1] == nx-2), "pixbox nx"); same_pos(C, ow, 0, 0, w, 1, 2, "pixbox position")
