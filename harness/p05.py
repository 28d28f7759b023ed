from .common import *
PRELOAD = ["enmap"]
BOUNDS = "maps of 2-4 x 2-5 pixels (tiling: up to 7), padding 0..5 per side, slice boxes -4..8, tiles of 2-4 pixels with padding up to half a tile and margins up to 2; reference point real, plain and CAR; data unconstrained reals"

def amap(C, kind, shape, tag="d"):
    w = symwcs(C, kind, sx=-1, sy=1, cp=20, tag=tag, cdx=F(1, 2), cdy=F(1, 2))
    d = C.data(tag, shape)
    return d, w, C.px.enmap.ndmap(C.arr(d).copy(), w)

@case(params=[(k, f) for k in ("CAR", "") for f in ("box", "pair", "num")], budget=(50, 300))
def pad(C, kind, form):
    """pad: the old map sits at the stated place, the new border has the fill value (or the map continued periodically)"""
    e, np = C.px.enmap, C.np
    ny, nx = C.choice("n", C.q([(2, 3)], [(2, 3), (3, 2), (1, 4)]))
    pre = () if form != "pair" else (2,)
    d, w, m = amap(C, kind, pre+(ny, nx))
    if form == "box":
        p = C.choice("p", [(0, 0, 1, 2), (1, 0, 0, 2), (0, 2, 0, 0), (2, 1, 3, 4), (4, 0, 0, 5)])
        (y1, x1, y2, x2) = p; arg = [[y1, x1], [y2, x2]]
    elif form == "pair":
        y1, x1 = C.pick("y", 0, 3), C.pick("x", 0, 4); y2, x2 = y1, x1; arg = [y1, x1]
    else:
        y1 = C.pick("y", 0, 3); x1 = y2 = x2 = y1; arg = y1
    wrap = C.choice("wrap", [False, True])
    val = C.real("val", -4, 4)
    o, sl = e.pad(m, arg, return_slice=True, wrap=wrap, value=val)
    C.same(tuple(o.shape), pre+(ny+y1+y2, nx+x1+x2), "shape")
    ref = np.zeros(pre+(ny+y1+y2, nx+x1+x2))
    for i in range(ref.shape[-2]):
        for j in range(ref.shape[-1]):
            y, x = i-y1, j-x1
            if wrap: ref[..., i, j] = C.arr(d)[..., y % ny, x % nx]
            else: ref[..., i, j] = C.arr(d)[..., y, x] if 0 <= y < ny and 0 <= x < nx else val
    C.eq(o, ref, "values")
    same_pos(C, o.wcs, y1, x1, w, 0, 0, "position"); same_pos(C, o.wcs, y1+1, x1+1, w, 1, 1, "position")
    C.eq(o[sl], d, "returned slice is the old map"); same_pos(C, o[sl].wcs, 0, 0, w, 0, 0, "returned slice is the old geometry")
    C.eq(m, d, "input unchanged"); same_pos(C, m.wcs, 0, 0, w, 0, 0, "input geometry unchanged")
    C.eq(e.pad(m, arg, wrap=wrap, value=val), ref, "values without slice")

@case(params=["CAR", ""], budget=(50, 300))
def padslice(C, kind):
    """padslice: like slicing, but pixels outside the map are there with the default value"""
    e, np = C.px.enmap, C.np
    ny, nx = 3, 2
    d, w, m = amap(C, kind, (2, ny, nx) if kind else (ny, nx))
    y1, x1 = C.pick("y1", -4, 4), C.pick("x1", -3, 3)
    hy, hx = C.choice("h", [(0, 2), (1, 1), (2, 4), (9, 7)])
    val = C.real("val", -4, 4)
    o = e.padslice(m, [[y1, x1], [y1+hy, x1+hx]], default=val)
    ref = np.zeros(d.shape[:-2]+(hy, hx))
    for i in range(hy):
        for j in range(hx):
            y, x = y1+i, x1+j
            ref[..., i, j] = C.arr(d)[..., y, x] if 0 <= y < ny and 0 <= x < nx else val
    C.same(tuple(o.shape), ref.shape, "shape"); C.eq(o, ref, "values")
    same_pos(C, o.wcs, 0, 0, w, y1, x1, "position"); same_pos(C, o.wcs, 3, 2, w, y1+3, x1+2, "position")
    C.eq(m, d, "input unchanged")
    if hy == 2:
        s = e.stamps(m, [[y1, x1], [0, 1]], (hy, hx), aslist=True)
        C.same(len(s), 2, "number of stamps")
        for k, (a, b) in enumerate([(y1, x1), (0, 1)]):
            same_pos(C, s[k].wcs, 0, 0, w, a, b, "stamp position")
            r = e.padslice(m, [[a, b], [a+hy, b+hx]], default=-7)
            # stamps fill with nan: compare where there is data
            msk = np.zeros((hy, hx))
            for i in range(hy):
                for j in range(hx):
                    if 0 <= a+i < ny and 0 <= b+j < nx: C.eq(s[k][..., i, j], C.arr(d)[..., a+i, b+j], "stamp values")

@case(params=["round", "point", "pix"], budget=(50, 300))
def crop_geo(C, form):
    """crop_geometry: the pixels of the box, at their place"""
    e, np, D = C.px.enmap, C.np, C.px.utils.degree
    w = symwcs(C, "CAR", sx=-1, sy=1, cp=20, cdx=F(1, 2), cdy=F(1, 2))
    ny, nx = C.int("ny", 10, 60), C.int("nx", 10, 300)
    if form == "pix":
        y1, x1, hy, hx = C.int("y1", -50, 50), C.int("x1", -50, 50), C.int("hy", 0, 50), C.int("hx", 0, 50)
        s, ow = e.crop_geometry((3, ny, nx), w, pixbox=C.arr([[y1, x1], [y1+hy, x1+hx]]))
    elif form == "point":
        y, x = C.real("y", 0, 60), C.real("x", 0, 300)
        C.assume(y < ny, x < nx); C.away(y, 1, F(1, 2)); C.away(x, 1, F(1, 2))
        dec, ra = lin(w, y, x); C.assume(dec > -80, dec < 80)
        hy, hx = C.choice("h", [(4, 3), (1, 6)])
        s, ow = e.crop_geometry((3, ny, nx), w, box=C.arr([dec*D, ra*D]), oshape=(hy, hx))
        y1, x1 = C.floor(y+F(1, 2))-hy//2, C.floor(x+F(1, 2))-hx//2
    else:
        y, x, dy, dx = C.real("y", 0, 60), C.real("x", 0, 300), C.real("dy", 1, 40), C.real("dx", 1, 200)
        C.assume(y+dy < ny, x+dx < nx)
        for v in (y, x, y+dy, x+dx): C.away(v+F(1, 10000), 1, F(1, 2))
        (d1, r1), (d2, r2) = lin(w, y, x), lin(w, y+dy, x+dx)
        C.assume(d1 > -80, d2 < 80)
        s, ow = e.crop_geometry((3, ny, nx), w, box=C.arr([[d1*D, r1*D], [d2*D, r2*D]]))
        y1, x1 = C.floor(y+F(1, 2)+F(1, 10000)), C.floor(x+F(1, 2)+F(1, 10000))
        hy, hx = C.floor(y+dy+F(1, 2)+F(1, 10000))-y1, C.floor(x+dx+F(1, 2)+F(1, 10000))-x1
    C.same(len(s), 3, "leading axes"); C.eq(s[1], hy, "height"); C.eq(s[2], hx, "width")
    same_pos(C, ow, 0, 0, w, y1, x1, "position"); same_pos(C, ow, 7, 5, w, y1+7, x1+5, "position")

@case(params=["plain", "fft"], budget=(60, 300), max_paths=(4000, 40000))
def autocrop(C, method):
    """autocrop never removes a pixel that is not blank, keeps positions, and padcrop redoes the same"""
    e, np = C.px.enmap, C.np
    ny, nx = C.choice("n", C.q([(3, 3)], [(3, 3), (2, 4), (1, 4)]))
    w = symwcs(C, "CAR", sx=-1, sy=1, cp=20, cdx=F(1, 2), cdy=F(1, 2))
    k = C.choice("blank", [0, 2])
    hit = C.idata("hit", (ny, nx), 0, 1)      # 1: not blank
    base = C.data("d", (ny, nx), 3, 9)
    d = C.arr(base)*C.arr(hit)+(1-C.arr(hit))*k
    C.assume(C.np.sum(C.arr(hit)) >= 1)
    m = e.ndmap(d, w)
    margin = C.choice("margin", [0, 1])
    rows = [C.or_(*[hit[i, j] == 1 for j in range(nx)]) for i in range(ny)]
    cols = [C.or_(*[hit[i, j] == 1 for i in range(ny)]) for j in range(nx)]
    b = e.find_blank_edges(m, value=k)
    for ax, (n, r) in enumerate(((ny, rows), (nx, cols))):
        f, t = int(b[0, ax]), int(b[1, ax])
        C.check(C.and_(*[C.not_(r[i]) for i in range(f)], r[f]), "blank rows at the start are counted")
        C.check(C.and_(*[C.not_(r[n-1-i]) for i in range(t)], r[n-1-t]), "blank rows at the end are counted")
    o, info = e.autocrop(m, method=method, value=k, margin=margin, return_info=True)
    p = m.wcs.wcs
    # offset of the result in the old map, from the geometry
    off = [o.wcs.wcs.crpix[1]-p.crpix[1], o.wcs.wcs.crpix[0]-p.crpix[0]]
    oy, ox = [int(v if not C.sym else C.core.Sym.lift(v).const()) if not C.sym else int(C.core.Sym.lift(v).const()) for v in off]
    for ax, n, r, q in ((0, ny, rows, oy), (1, nx, cols, ox)):
        for i in range(n):
            inside = 0 <= i+q < o.shape[ax]
            if not inside: C.check(C.not_(r[i]), "only blank rows are removed")
    for i in range(o.shape[0]):
        for j in range(o.shape[1]):
            y, x = i-oy, j-ox
            if 0 <= y < ny and 0 <= x < nx: C.eq(o[i, j], d[y, x], "values at their place")
            else: C.eq(o[i, j], 0, "padding is zero")
    o2 = e.padcrop(m, info)
    C.same(o2.shape, o.shape, "padcrop shape"); C.eq(o2, o, "padcrop values"); same_pos(C, o2.wcs, 0, 0, o.wcs, 0, 0, "padcrop geometry")
    n1, n2 = int(b[0, 0]+b[1, 0]), int(b[0, 1]+b[1, 1])
    if method == "plain": C.same(o.shape, (ny-n1+margin, nx-n2+margin), "shape")
    else:
        for s_, l in ((o.shape[0], ny-n1+margin), (o.shape[1], nx-n2+margin)): C.check(s_ >= l, "large enough")

@case(budget=(40, 200))
def autoblank(C):
    """the blank value found automatically (or given per component), the "none" value, and the sizes allowed by factors"""
    e, np = C.px.enmap, C.np
    w = symwcs(C, "CAR", sx=-1, sy=1, cp=20, cdx=F(1, 2), cdy=F(1, 2))
    nc = C.choice("nc", [None, 2])
    f, t, l, r = C.choice("edges", [(1, 1, 1, 1), (2, 0, 0, 1), (0, 1, 2, 0), (0, 2, 1, 1)])
    ny, nx = 2+f+t, 2+l+r
    k = C.choice("k", [(0, 5), (2, 0)])
    sh = ((nc,) if nc else ())+(2, 2)
    base = C.data("d", sh, 6, 9)
    full = np.zeros(((nc,) if nc else ())+(ny, nx))+(C.arr(k)[:, None, None] if nc else k[0])
    full = C.arr(full)
    full[..., f:f+2, l:l+2] = base
    m = e.ndmap(full, w)
    b = e.find_blank_edges(m, value=C.arr(k) if nc else k[0])
    C.same(np.asarray(b).tolist(), [[f, l], [t, r]], "blank edges for the given value")
    if (f or t) and (l or r) and f+t > 0 and l+r > 0:
        C.same(np.asarray(e.find_blank_edges(m)).tolist(), [[f, l], [t, r]], "blank edges found automatically")
        o = e.autocrop(m)
        C.same(tuple(o.shape), sh, "cropped"); C.eq(o, base, "contents kept")
        same_pos(C, o.wcs, 0, 0, w, f, l, "position")
    C.same(np.asarray(e.find_blank_edges(m, value="none")).tolist(), [[0, 0], [0, 0]], "nothing is blank")
    fac = C.choice("factors", [None, [2], [3], [2, 5]])
    o = e.autocrop(m, method="fft", value="none", factors=fac)
    for n, v in zip((ny, nx), o.shape[-2:]):
        ok = [q for q in range(n, 100) if smooth(q, fac or [2, 3, 5, 7, 11, 13])][0]
        C.same(int(v), ok, "smallest allowed size that holds the map")
    C.eq(o[..., o.shape[-2]-ny:, o.shape[-1]-nx:], full, "contents kept")
    same_pos(C, o.wcs, o.shape[-2]-ny, o.shape[-1]-nx, w, 0, 0, "position")

def smooth(n, fac):
    for p in fac:
        while n % p == 0: n //= p
    return n == 1

@case(budget=(50, 300))
def shifts(C):
    """shift moves pixels cyclically and the geometry with them"""
    e, np = C.px.enmap, C.np
    ny, nx = C.choice("n", [(2, 3), (3, 4)])
    d, w, m = amap(C, "CAR", (2, ny, nx))
    oy, ox = C.pick("oy", -4, 4), C.pick("ox", -5, 5)
    inplace = C.choice("inplace", [False, True]); keep = C.choice("keep", [False, True])
    o = e.shift(m, [oy, ox], inplace=inplace, keepwcs=keep)
    ref = np.zeros((2, ny, nx))
    for i in range(ny):
        for j in range(nx): ref[:, (i+oy) % ny, (j+ox) % nx] = C.arr(d)[:, i, j]
    C.eq(o, ref, "values")
    if keep: same_pos(C, o.wcs, 0, 0, w, 0, 0, "geometry kept")
    else: same_pos(C, o.wcs, oy, ox, w, 0, 0, "geometry moves along"); same_pos(C, o.wcs, oy+1, ox+1, w, 1, 1, "geometry moves along")
    if not inplace: C.eq(m, d, "input unchanged"); same_pos(C, m.wcs, 0, 0, w, 0, 0, "input geometry unchanged")
    else: C.check(o is m, "in place")
    if oy == 0:
        o = e.shift(e.ndmap(C.arr(d).copy(), w.deepcopy()), ox)
        C.eq(o, ref, "shift of the last axis only"); same_pos(C, o.wcs, 0, ox, w, 0, 0, "its geometry")

@case(params=[("r", k) for k in ("CAR", "")]+[("w", k) for k in ("CAR", "")], budget=(60, 300))
def tiles(C, mode, kind):
    """padded tiles: reading yields the surroundings of each tile; writing the tiles back unchanged reproduces the map"""
    e, np = C.px.enmap, C.np
    ny, nx, ts, pd, mg = C.choice("geo", C.q([(4, 5, (2, 3), (1, 1), (1, 0)), (5, 2, 2, 1, 1), (3, 7, (4, 3), (2, 0), 0)], [(4, 5, (2, 3), (1, 1), (1, 0)), (5, 2, 2, 1, 1), (3, 7, (4, 3), (2, 0), 0), (6, 6, 4, 2, 2), (7, 3, (2, 4), (1, 2), 1)]))
    pre = C.choice("pre", [(), (2,)])
    d, w, m = amap(C, kind, pre+(ny, nx))
    ty, tx = (ts, ts) if isinstance(ts, int) else ts
    py, px_ = (pd, pd) if isinstance(pd, int) else pd
    gy, gx = (mg, mg) if isinstance(mg, int) else mg
    nty, ntx = -(-ny//ty), -(-nx//tx)
    start, step = C.choice("part", [(0, 1), (1, 2)]) if mode == "r" else (0, 1)
    want = list(range(start, nty*ntx, step))
    if mode == "r":
        n = 0
        for t in e.padtiles(m, tshape=ts, pad=pd, margin=mg, start=start, step=step):
            t, = t if isinstance(t, (tuple, list)) else (t,)
            k = want[n]; n += 1
            y0, x0 = (k//ntx)*ty-py-gy, (k % ntx)*tx-px_-gx
            C.same(tuple(t.shape), pre+(ty+2*py+2*gy, tx+2*px_+2*gx), "tile shape")
            same_pos(C, t.wcs, 0, 0, w, y0, x0, "tile position")
            ref = np.zeros(pre+(ty+2*py+2*gy, tx+2*px_+2*gx))
            for i in range(ref.shape[-2]):
                for j in range(ref.shape[-1]):
                    if 0 <= y0+i < ny and 0 <= x0+j < nx: ref[..., i, j] = C.arr(d)[..., y0+i, x0+j]
            C.eq(t, ref, "tile contents")
            t[...] = 99
        C.same(n, len(want), "number of tiles"); C.eq(m, d, "input unchanged")
    else:
        o = e.zeros(pre+(ny, nx), w)
        n = 0
        for it, ot in e.padtiles(m, o, tshape=ts, pad=pd, margin=mg):
            C.eq(ot, 0, "output tiles start empty")
            ot[...] = it
            n += 1
        C.same(n, nty*ntx, "number of tiles"); C.eq(m, d, "input unchanged"); C.eq(o, d, "tiles merge back to the map")

@case(budget=(40, 200))
def tile_stack(C):
    """tile_maps glues neighbouring tiles"""
    e, np = C.px.enmap, C.np
    d, w, m = amap(C, C.choice("kind", ["CAR", ""]), (3, 4))
    cy, cx = C.pick("cy", 1, 2), C.pick("cx", 1, 3)
    o = e.tile_maps([[m[:cy, :cx], m[:cy, cx:]], [m[cy:, :cx], m[cy:, cx:]]])
    C.eq(o, d, "values"); same_pos(C, o.wcs, 0, 0, w, 0, 0, "geometry"); same_pos(C, o.wcs, 2, 3, w, 2, 3, "geometry")
