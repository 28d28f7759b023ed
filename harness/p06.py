from .common import *
PRELOAD = ["enmap"]
BOUNDS = "maps of up to 5 x 7 pixels, factors 1-4 per axis, every offset below the factor; geometries of any size with factors 1-8; reference point and pixel size real, plain and CAR; data unconstrained reals"

def amap(C, kind, shape, tag="d"):
    w = symwcs(C, kind, sx=C.choice("sx", [-1, 1]), sy=1, cp=20, tag=tag, cdx=F(1, 2), cdy=F(1, 4))
    d = C.data(tag, shape)
    return d, w, C.px.enmap.ndmap(C.arr(d).copy(), w)

def blocks(n, f, off, incl):
    """pixel ranges averaged together along one axis"""
    if f == 1: return [(i, i+1) for i in range(n)]
    nw = (n-off)//f
    r = [(off+k*f, off+(k+1)*f) for k in range(nw)]
    if incl and off > 0: r = [(0, off)]+r
    if incl and off+nw*f < n: r = r+[(off+nw*f, n)]
    return r

@case(params=[(k, i, o) for k in ("CAR", "") for i in (False, True) for o in ("mean", "sum", "max")], budget=(60, 300))
def downgrade(C, kind, incl, opn):
    """downgrade: each new pixel is op over its block of old pixels and lies at the block's centre"""
    e, np = C.px.enmap, C.np
    ny, nx = C.choice("n", [(4, 5), (5, 3), (3, 7)] if opn != "max" else [(2, 3), (3, 2)])
    fy, fx = C.choice("f", [(2, 3), (3, 2), (1, 2), (2, 1), (2, 2)] if opn != "max" else [(2, 2), (1, 2), (2, 1)])
    pre = C.choice("pre", [(), (2,)]) if opn == "mean" else ()
    oy, ox = C.pick("oy", 0, fy-1), C.pick("ox", 0, fx-1)
    d, w, m = amap(C, kind, pre+(ny, nx))
    by, bx = blocks(ny, fy, oy, incl), blocks(nx, fx, ox, incl)
    if len(by) == 0 or len(bx) == 0: return
    op = dict(mean=np.mean, sum=np.sum, max=np.max)[opn]
    default = C.choice("default", [False, True]) if opn == "mean" and oy == 0 and ox == 0 and not incl else False
    if default: o = m.downgrade(fy if fy == fx else (fy, fx))
    else: o = e.downgrade(m, fy if fy == fx and oy else [fy, fx], op=op, off=[oy, ox], inclusive=incl)
    C.same(tuple(o.shape), pre+(len(by), len(bx)), "shape")
    for i, (a, b) in enumerate(by):
        for j, (s, t) in enumerate(bx):
            blk = C.arr(d)[..., a:b, s:t]
            if opn == "max":
                v = [blk[y, x] for y in range(b-a) for x in range(t-s)]
                C.check(C.and_(C.or_(*[o[i, j] == z for z in v]), *[o[i, j] >= z for z in v]), "values")
            else:
                tot = 0
                for y in range(b-a):
                    for x in range(t-s): tot = tot+blk[..., y, x]
                C.eq(o[..., i, j], tot/((b-a)*(t-s)) if opn == "mean" else tot, "values")
    # a whole block's centre
    i = (1 if incl and oy > 0 else 0); j = (1 if incl and ox > 0 else 0)
    for di, dj in ((0, 0), (1, 1)):
        same_pos(C, o.wcs, i+di, j+dj, w, oy+(di+F(1, 2))*fy-F(1, 2), ox+(dj+F(1, 2))*fx-F(1, 2), "position")
    C.eq(m, d, "input unchanged"); same_pos(C, m.wcs, 0, 0, w, 0, 0, "input geometry unchanged")

@case(params=[(k, i) for k in ("CAR", "") for i in (False, True)], budget=(60, 300))
def upgrade(C, kind, incl):
    """upgrade: repeats each pixel in its block, keeps the sky position, and downgrading undoes it"""
    e, np = C.px.enmap, C.np
    ny, nx = C.choice("n", [(2, 3), (3, 2), (1, 2)])
    fy, fx = C.choice("f", [(2, 3), (3, 1), (1, 2), (2, 2), (4, 3)])
    oy, ox = C.pick("oy", 0, fy-1), C.pick("ox", 0, fx-1)
    pre = C.choice("pre", [(), (2,)])
    d, w, m = amap(C, kind, pre+(ny, nx))
    my, mx = ny-(1 if incl and oy else 0), nx-(1 if incl and ox else 0)   # whole blocks
    if my < 1 or mx < 1: return
    if oy == 0 and ox == 0 and not incl: o = m.upgrade(fy if fy == fx else [fy, fx])
    else: o = e.upgrade(m, [fy, fx], off=[oy, ox], inclusive=incl)
    H, W = oy+my*fy, ox+mx*fx
    C.same(tuple(o.shape), pre+(H, W), "shape")
    iy, ix = (1 if incl and oy else 0), (1 if incl and ox else 0)
    for y in range(H):
        for x in range(W):
            i, j = (y-oy)//fy+iy, (x-ox)//fx+ix
            C.eq(o[..., y, x], C.arr(d)[..., i, j] if i >= 0 and j >= 0 else C.arr(d)[..., 0, 0]*0, "values")
    for di, dj in ((0, 0), (1, 1)):
        same_pos(C, o.wcs, oy+(di+F(1, 2))*fy-F(1, 2), ox+(dj+F(1, 2))*fx-F(1, 2), w, iy+di, ix+dj, "position")
    C.eq(m, d, "input unchanged"); same_pos(C, m.wcs, 0, 0, w, 0, 0, "input geometry unchanged")
    b = e.downgrade(o, [fy, fx], off=[oy, ox], inclusive=incl)
    C.eq(b, d, "downgrade undoes upgrade"); same_pos(C, b.wcs, 0, 0, w, 0, 0, "and its geometry")
    if incl:
        # an incomplete block at the end
        o = e.upgrade(m, [fy, fx], off=[oy, ox], inclusive=True, oshape=(H-(1 if fy > 1 else 0), W-(1 if fx > 1 else 0)))
        for y in range(o.shape[-2]):
            for x in range(o.shape[-1]): C.eq(o[..., y, x], C.arr(d)[..., (y-oy)//fy+iy, (x-ox)//fx+ix], "values with an incomplete block")

@case(params=["CAR", ""], budget=(40, 200))
def refpoint(C, kind):
    """downgrade with a reference point: results of overlapping maps downgraded with the same reference are pixel-compatible"""
    e, np, D = C.px.enmap, C.np, C.px.utils.degree
    w = symwcs(C, kind, sx=-1, sy=1, cp=20, cdx=F(1, 2), cdy=F(1, 2))
    m = e.ndmap(C.arr(C.data("d", (7, 8))).copy(), w)
    cy, cx = C.pick("cy", 0, 2), C.pick("cx", 0, 3)
    ry, rx = C.real("ry", -10, 10), C.real("rx", -10, 10)
    C.away(ry, 1, F(1, 2)); C.away(rx, 1, F(1, 2))
    dec, ra = lin(w, ry, rx)
    if kind: C.assume(dec > -80, dec < 80)
    fy, fx = C.choice("f", [(2, 3), (3, 2), (2, 2)])
    u = D if kind else 1
    ref = C.arr([dec*D, ra*D])
    a, b = e.downgrade(m, [fy, fx], ref=ref), e.downgrade(m[cy:, cx:], [fy, fx], ref=ref)
    # corner of the reference block coincides
    for o in (a, b):
        ey = ((o.wcs.wcs.crpix[1]-F(1, 2))*fy-(w.wcs.crpix[1]-F(1, 2)))
        ex = ((o.wcs.wcs.crpix[0]-F(1, 2))*fx-(w.wcs.crpix[0]-F(1, 2)))
        C.eqmod(ey, -C.floor(ry+F(1, 2)), fy, "aligned with the reference, y")
        C.eqmod(ex, -C.floor(rx+F(1, 2)), fx, "aligned with the reference, x")
    oy = int(C.e.concretize(C.floor(ry+F(1, 2)) % fy) if C.sym else C.floor(ry+F(1, 2)) % fy)
    ox = int(C.e.concretize(C.floor(rx+F(1, 2)) % fx) if C.sym else C.floor(rx+F(1, 2)) % fx)
    C.eq(a, e.downgrade(m, [fy, fx], off=[oy, ox]), "values")

@case(params=["CAR", "", "CEA"], budget=(40, 200))
def geometry(C, kind):
    """downgrading and upgrading geometries agrees with the maps, for every size"""
    e, np, wu = C.px.enmap, C.np, C.px.wcsutils
    w = symwcs(C, kind, cp=20)
    p0 = [w.wcs.crpix[0]+0, w.wcs.crpix[1]+0]
    ny, nx = C.int("ny", 1, 1000), C.int("nx", 1, 1000)
    fy, fx = C.pick("fy", 1, 4), C.choice("fx", [1, 2, 3, 8])
    s, o = e.downgrade_geometry((3, ny, nx), w, [fy, fx] if fy != fx else fy)
    C.same(len(s), 3, "leading axes"); C.eq(s[0], 3, "leading axis")
    C.eq(s[1], C.floor(F(1, fy)*ny), "rows"); C.eq(s[2], C.floor(F(1, fx)*nx), "columns")
    for i, j in ((0, 0), (1, 1), (5, 7)): same_pos(C, o, i, j, w, (i+F(1, 2))*fy-F(1, 2), (j+F(1, 2))*fx-F(1, 2), "position")
    g = e.Geometry((3, ny, nx), w).downgrade([fy, fx])
    C.eq(g.shape[1], s[1], "Geometry rows"); C.eq(g.shape[2], s[2], "Geometry columns"); same_pos(C, g.wcs, 0, 0, o, 0, 0, "Geometry position")
    for f in (lambda: e.upgrade_geometry((3, ny, nx), w, [fy, fx] if fy != fx else fy), lambda: e.scale_geometry((3, ny, nx), w, [fy, fx]), lambda: e.Geometry((3, ny, nx), w).scale([fy, fx])):
        s, o = f()
        C.same(len(s), 3, "leading axes"); C.eq(s[0], 3, "leading axis"); C.eq(s[1], ny*fy, "rows"); C.eq(s[2], nx*fx, "columns")
        for i, j in ((0, 0), (1, 1), (5, 7)): same_pos(C, w, i, j, o, (i+F(1, 2))*fy-F(1, 2), (j+F(1, 2))*fx-F(1, 2), "upgraded position")
    ws = wu.scale(w, [fx, fy])
    same_pos(C, ws, 0, 0, o, 0, 0, "scaled wcs"); same_pos(C, ws, 4, 3, o, 4, 3, "scaled wcs")
    ws = wu.scale(w, [fx, fy], corner=False)
    C.eq(ws.wcs.crpix, [(p0[0]-1)*fx+1, (p0[1]-1)*fy+1], "scaled wcs without corner")
    C.eq(w.wcs.crpix, p0, "input unchanged")

@case(budget=(40, 200))
def reduce_expand(C):
    """block_reduce/block_expand along any axis with any offset"""
    u, np = C.px.utils, C.np
    n = C.pick("n", 1, 7); f = C.pick("f", 1, 4); off = C.pick("off", 0, 3)
    if off >= f or off > n: return
    axis = C.choice("axis", [-1, 0, 1])
    incl = C.choice("incl", [True, False])
    bl = blocks(n, f, off, incl)
    if not bl: return
    sh = [(2, n), (n, 2), (2, n)][[-1, 0, 1].index(axis)]
    d = C.data("d", sh)
    o = u.block_reduce(C.arr(d), f, axis=axis, off=off, inclusive=incl)
    k = 1 if axis != 0 else 0
    C.same(o.shape[k], len(bl), "number of blocks")
    get = lambda a, i: a[:, i] if k else a[i]
    for i, (a, b) in enumerate(bl):
        tot = 0
        for j in range(a, b): tot = tot+get(C.arr(d), j)
        C.eq(get(o, i), tot/(b-a), "block mean")
    if f > 1 and incl:
        x = u.block_expand(o, f, n, axis=axis, off=off, inclusive=incl)
        C.same(tuple(x.shape), tuple(sh), "expanded shape")
        for i, (a, b) in enumerate(bl):
            for j in range(a, b): C.eq(get(x, j), get(o, i), "expanded values")
