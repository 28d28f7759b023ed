from .common import *
PRELOAD = ["enmap"]
BOUNDS = "axes of 1, 3 or 4 pixels (thorough: 1..6), slice bounds in -5..5 (thorough: -8..8) or absent, steps +-1..+-3, every wcs parameter real (|crpix|<=50, 1/8<=|cdelt|<=4, |crval|<=170 deg), both pixel directions, plain/CAR/TAN/CEA; data values unconstrained reals"

def sel_of(C, tag, step, n):
    k = C.q(5, 8)
    a = C.pick(tag+"a", -k, k+1); b = C.pick(tag+"b", -k, k+1)
    a = None if a == k+1 else a
    b = None if b == k+1 else b
    return slice(a, b, step)

def expect(C, w, ow, idx, step, axis, label):
    """pixel i of the slice is centred on the |step| pixels that start with the selected one"""
    for i in sorted(set([0, len(idx)-1])):
        u = idx[i]+C.rat(step-sgn(step), 2)
        if axis == 0: same_pos(C, ow, i, 1, w, u, 1, label)
        else: same_pos(C, ow, 1, i, w, 1, u, label)

@case(params=[(s, ax) for s in (None, 1, 2, 3, -1, -2, -3) for ax in (0, 1)], budget=(60, 300), max_paths=(6000, 60000))
def slice_1axis(C, step, axis):
    e = C.px.enmap
    n = C.choice("n", C.q([1, 3, 4], [1, 2, 3, 4, 5, 6]))
    kind = "TAN" if step in (1, -2) else "CAR"
    w = symwcs(C, kind, sx=-1, sy=1)
    shape = (n, 2) if axis == 0 else (2, n)
    d = C.data("d", shape)
    m = e.ndmap(d, w)
    s = sel_of(C, "", step, n)
    idx = list(range(n))[s]
    sel = (s, slice(None)) if axis == 0 else (slice(None), s)
    o = m[sel]
    st = 1 if step is None else step
    C.same(o.shape, (len(idx), 2) if axis == 0 else (2, len(idx)), "shape")
    C.check(isinstance(o, e.ndmap), "is a map")
    C.eq(o, C.arr(d)[sel], "values")
    # the geometry object and the map agree
    g = e.Geometry(m.shape, m.wcs)[sel]
    C.same(tuple(int(x) for x in g.shape), o.shape, "geometry shape")
    if idx:
        expect(C, w, o.wcs, idx, st, axis, "position")
        expect(C, w, g.wcs, idx, st, axis, "geometry position")

@case(params=["y", "ellipsis", "pre", "preslice", "none", "index", "both"], budget=(60, 300))
def slice_forms(C, form):
    e = C.px.enmap
    w = symwcs(C, C.choice("kind", ["CAR", ""]), sx=-1, sy=1)
    ny, nx = C.pick("ny", 3, C.q(3, 4)), C.pick("nx", 2, C.q(2, 3))
    npre = C.choice("npre", [(), (2,), (2, 3)])
    d = C.data("d", npre+(ny, nx))
    m = e.ndmap(d, w)
    a, b = C.pick("a", -3, 3), C.pick("b", -3, 4)
    st = C.choice("st", [1, -1, 2])
    sy, sx = slice(a, b), slice(None, None, st)
    full = (slice(None),)*len(npre)
    if form == "y":
        sel = full+(sy,); ey, ex = sy, slice(None)
    elif form == "ellipsis": sel = (Ellipsis, sy, sx); ey, ex = sy, sx
    elif form == "both":
        sel = (Ellipsis, sx); ey, ex = slice(None), sx
    elif form == "pre":
        sel = (1,)*min(1, len(npre))+full[1:]+(sy, sx); ey, ex = sy, sx
    elif form == "preslice":
        sel = (slice(0, 1),)*min(1, len(npre))+(Ellipsis, sx); ey, ex = slice(None), sx
    elif form == "none": sel = (None, Ellipsis, sy, sx); ey, ex = sy, sx
    elif form == "index":
        # integer on a pixel axis drops the map nature
        o = m[(Ellipsis, 0, sx)]
        C.check(not isinstance(o, e.ndmap) or o.ndim >= 2, "no half map")
        C.eq(o, C.arr(d)[(Ellipsis, 0, sx)], "values")
        o = m[(Ellipsis, C.np.array([1, 0]), slice(None))]
        C.eq(o, C.arr(d)[(Ellipsis, [1, 0], slice(None))], "values of fancy index")
        C.check(type(o) is not e.ndmap, "fancy pixel index is no map")
        return
    o = m[sel]
    ref = C.arr(d)[sel]
    C.same(o.shape, ref.shape, "shape")
    C.eq(o, ref, "values")
    iy, ix = list(range(ny))[ey], list(range(nx))[ex]
    if iy and ix:
        sty, stx = ey.step or 1, ex.step or 1
        same_pos(C, o.wcs, 0, 0, w, iy[0]+C.rat(sty-sgn(sty), 2), ix[0]+C.rat(stx-sgn(stx), 2), "position of the first pixel")
        same_pos(C, o.wcs, len(iy)-1, len(ix)-1, w, iy[-1]+C.rat(sty-sgn(sty), 2), ix[-1]+C.rat(stx-sgn(stx), 2), "position of the last pixel")
        # a slice is a view: writing through it reaches the parent and nothing else
        v = C.real("v", 200, 300)
        o[...] = v
        chk = C.arr(d).copy() if C.sym else d.copy()
        chk[sel] = v
        C.eq(m, chk, "write through")
        # the parent's own wcs is untouched
        same_pos(C, m.wcs, 0, 0, w, 0, 0, "parent wcs")

@case(budget=(60, 300))
def derived_maps(C):
    """arithmetic, copies and reductions over leading axes keep the geometry; the copies are independent"""
    e, np = C.px.enmap, C.np
    w = symwcs(C, C.choice("kind", ["CAR", "", "TAN"]))
    d = C.data("d", (2, 2, 3)); d2 = C.data("e", (2, 3))
    m = e.ndmap(d, w)
    k = C.real("k", -3, 3)
    for name, f, ref in (("add", lambda: m+k, d+k), ("mul", lambda: m*2-m, d), ("neg", lambda: -m, -1*d), ("copy", lambda: m.copy(), d), ("cmp", lambda: (m > k)*1, None), ("abs", lambda: abs(m), abs(d)), ("sum", lambda: m[0]+d2, d[0]+d2)):
        o = f()
        C.check(isinstance(o, e.ndmap), name+" is a map")
        same_pos(C, o.wcs, 0, 0, w, 0, 0, name+" position")
        same_pos(C, o.wcs, 2, 1, w, 2, 1, name+" position")
        if ref is not None: C.eq(o, ref, name+" values")
        o.wcs.wcs.crpix[0] += 1
        same_pos(C, m.wcs, 0, 0, w, 0, 0, name+" does not share its wcs") if name != "slice" else None
    c = m.copy(); c[...] = 0
    C.eq(m, d, "copy is independent")
    C.same(m.preflat.shape, (2, 2, 3), "preflat")
    s = e.samewcs(d2+1, m)
    C.check(isinstance(s, e.ndmap), "samewcs is a map")
    C.eq(s, d2+1, "samewcs values")
    same_pos(C, s.wcs, 0, 0, w, 0, 0, "samewcs position")

@case(budget=(60, 300))
def nowrap_geometry(C):
    """slice_geometry(nowrap=True): bounds may lie outside the map; fully symbolic bounds"""
    e = C.px.enmap
    w = symwcs(C, "CAR", sx=-1, sy=1)
    y1, x1 = C.int("y1", -1000, 1000), C.int("x1", -1000, 1000)
    hy, hx = C.int("hy", 0, 1000), C.int("hx", 0, 1000)
    ny, nx = C.int("ny", 1, 1000), C.int("nx", 1, 1000)
    oshape, ow = e.slice_geometry((3, ny, nx), w, (slice(y1, y1+hy), slice(x1, x1+hx)), nowrap=True)
    C.eq(oshape[-2], hy, "height"); C.eq(oshape[-1], hx, "width"); C.same(len(oshape), 3, "leading axes kept"); C.same(int(oshape[0]), 3, "leading axis size")
    i, j = C.int("i", -50, 50), C.int("j", -50, 50)
    same_pos(C, ow, i, j, w, y1+i, x1+j, "position")
    # flipped
    oshape, ow = e.slice_geometry((ny, nx), w, (slice(y1+hy, y1, -1), slice(x1, x1+2*hx, 2)), nowrap=True)
    C.eq(oshape[-2], hy, "flipped height"); C.eq(oshape[-1], hx, "strided width")
    same_pos(C, ow, i, j, w, y1+hy-i, x1+2*j+C.rat(1, 2), "flipped position")
