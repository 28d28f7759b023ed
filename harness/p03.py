from .common import *
PRELOAD = ["enmap"]
BOUNDS = "strided boxes: start +-2 sky widths (thorough -60..60) symbolic, up to 5 (thorough 12) selected pixels, steps +-1..+-3, wrap lengths 5, 8, 12 or none, physical length 1..wrap; maps of up to 4x8 pixels on skies 6 (thorough: also 8) pixels around (CAR with a symbolic reference point) and unwrapped plain maps; boxes starting anywhere from -20 to 20; data values unconstrained reals"

@case(params=[(s, w) for s in (1, 2, 3, -1, -2, -3) for w in (0, 5, 8, 12)], budget=(40, 300))
def box_split(C, step, w):
    """a strided box is split into pieces so that output pixel o holds input pixel (start+o*step) mod wrap, iff that pixel exists"""
    u, np = C.px.utils, C.np
    n = C.choice("n", C.q([1, 2, 5] if abs(step) < 3 else [2, 4], [1, 2, 3, 4, 5, 6, 9, 12]))
    c = C.pick("c", 1, w) if w else C.choice("c", [1, 4, 9])
    if w and not C.tier == "thorough": c = C.choice("cq", [1, w-2, w])
    k = C.q(2*w, 60) if w else 15
    a = C.int("a", -k, k)
    rem = C.choice("rem", [0] if abs(step) == 1 else [0, 1])  # end need not be a whole number of steps away
    s = sgn(step)
    end = a+(n-1)*step+s*(1+(0 if rem else abs(step)-1))
    box = np.array([[a, end, step]]) if step != 1 or C.choice("three", [True, False]) else np.array([[a, end]])
    boxc = C.arr([a, end])
    pieces = u.sbox_wrap(box, wrap=w, cap=c)
    o = C.int("o", 0, n-1)
    src = a+o*step
    if w: src = src-C.floor(src*C.rat(1, w) if C.sym else src/w)*w
    hits, okay = 0, []
    for ibox, obox in pieces:
        (i0, i1, di), (o0, o1, do) = ibox[0], obox[0]
        ln = (o1-o0)*do  # do is +-1
        inside = C.and_((o-o0)*do >= 0, (o-o0)*do < ln)
        hits = hits+C.ite(inside, 1, 0)
        # i-th element of this piece
        okay.append(C.implies(inside, C.and_(i0+(o-o0)*do*di == src)))
        # what slicing sees: same number of pixels on both sides, no negative start
        C.check(C.and_(i0 >= 0, i0 <= c-1), "piece starts inside the array")
        C.check(C.and_((i1-i0)*sgn(di) <= ln*abs(di), (i1-i0)*sgn(di) > (ln-1)*abs(di), i0+(ln-1)*di <= c-1, i0+(ln-1)*di >= 0), "both sides of a piece select the same number of existing pixels")
    exists = C.and_(src >= 0, src < c)
    C.check(C.implies(exists, hits == 1), "existing pixel copied once")
    C.check(C.implies(C.not_(exists), hits == 0), "missing pixel left alone")
    C.check(C.and_(*okay), "right source pixel")
    C.check(C.and_(box[0, 0] == boxc[0], box[0, 1] == boxc[1]), "the caller's box is not modified") if not rem else None

def ring(C, tag="", plain=False, cds=None):
    cdx = C.choice(tag+"cdx", C.q([60], [60, 45]))
    w = symwcs(C, "" if plain else "CAR", tag=tag, sx=C.choice(tag+"sx", C.q([-1], [-1, 1])), sy=1, cdx=cdx, cdy=F(5, 2), cp=10)
    return w, 360//cdx

def refget(C, d, ny, nx, nphi, y, x, bg):
    if nphi: x = x % nphi
    return d[..., y, x] if 0 <= y < ny and 0 <= x < nx else bg

@case(params=[(p, st) for p in (0, 1) for st in ((1, 1), (1, -1), (-1, 1), (2, 1), (1, 2), (1, -2), (-2, 3))], budget=(50, 400), max_paths=(3000, 40000))
def extract_box(C, plain, st):
    """extract_pixbox: every pixel of the result is the map pixel at that place of the sky, or the fill value"""
    e, np = C.px.enmap, C.np
    w, nphi = ring(C, plain=plain)
    if plain: nphi = 0
    ny, nx = 2, C.choice("nx", C.q([3, 6], [2, 3, 5, 6, 8]))
    d = C.data("d", (2, ny, nx)) if C.choice("pre", C.q([st == (1, 1)], [False, True])) else C.data("d", (ny, nx))
    m = e.ndmap(d, w)
    ly, lx = C.choice("len", C.q([(2, 3), (1, 9)], [(2, 3), (4, 1), (1, 9), (3, 13)]))
    y0, x0 = C.choice("y0", [-2, 0, 1]), C.pick("x0", *C.q((-8, 9), (-20, 20)))
    sty, stx = st
    box = [[y0, x0], [y0+ly*sty, x0+lx*stx], [sty, stx]]
    if st == (1, 1): box = box[:2]
    cval = C.real("cval", -5, 5)
    pb = np.array(box); pb0 = np.array(box)
    o = e.extract_pixbox(m, pb, cval=cval)
    ref = np.zeros(d.shape[:-2]+(ly, lx))
    for i in range(ly):
        for j in range(lx): ref[..., i, j] = refget(C, C.arr(d), ny, nx, nphi, y0+i*sty, x0+j*stx, cval)
    C.same(o.shape, ref.shape, "shape"); C.eq(o, ref, "values")
    for i, j in ((0, 0), (ly-1, lx-1)):
        same_pos(C, o.wcs, i, j, w, y0+i*sty+C.rat(sty-sgn(sty), 2), x0+j*stx+C.rat(stx-sgn(stx), 2), "position", None)
    C.eq(m, d, "input unchanged")
    C.eq(pb, pb0, "the caller's box is not modified")

@case(params=[0, 1], budget=(50, 400))
def extract_geo(C, plain):
    """extract: same, for a compatible geometry given by another reference point; existing output is combined with the operation"""
    e, np = C.px.enmap, C.np
    w, nphi = ring(C, plain=plain)
    if plain: nphi = 0
    ny, nx = 3, C.choice("nx", [4, 6])
    d = C.data("d", (ny, nx)); m = e.ndmap(d, w)
    ly, lx = C.choice("len", [(2, 3), (1, 8)])
    y0, x0 = C.choice("y0", [-1, 1]), C.pick("x0", *C.q((-7, 9), (-20, 20)))
    turns = C.choice("turns", [0, 0] if plain else C.q([0, 1], [-1, 0, 1]))
    shift = C.int("shift", -3, 3)        # crval moved by that many pixels and crpix with it
    p = w.wcs
    ow = C.wcs("" if plain else "CAR", [p.crval[0]+shift*p.cdelt[0]+360*turns, p.crval[1]], [p.cdelt[0], p.cdelt[1]], [p.crpix[0]-x0+shift, p.crpix[1]-y0])
    ref = np.zeros((ly, lx)); cnt = np.zeros((ly, lx))
    cval = C.real("cval", -5, 5)
    mode = C.choice("mode", ["new", "add", "over"])
    bg = C.data("bg", (ly, lx)) if mode != "new" else None
    for i in range(ly):
        for j in range(lx):
            v = refget(C, C.arr(d), ny, nx, nphi, y0+i, x0+j+turns*nphi, None)
            if mode == "new": ref[i, j] = cval if v is None else v
            elif mode == "add": ref[i, j] = bg[i, j] if v is None else bg[i, j]+v
            else: ref[i, j] = bg[i, j] if v is None else v
    if mode == "new": o = e.extract(m, (ly, lx), ow, cval=cval)
    else:
        om = e.ndmap(bg.copy(), ow)
        o = e.extract(m, (ly, lx), ow, omap=om, **(dict(op=lambda a, b: a+b) if mode == "add" else {}))
        C.check(o is om, "written into the given map")
    C.eq(o, ref, "values")
    same_pos(C, o.wcs, 0, 0, ow, 0, 0, "geometry is the requested one")
    o2 = m.extract((ly, lx), ow, cval=cval) if mode == "new" else None
    if o2 is not None: C.eq(o2, ref, "method gives the same")
    C.eq(m, d, "input unchanged")

@case(params=[0, 1], budget=(50, 400))
def insert(C, plain):
    """insert is the reverse of extract: writes exactly the covered pixels that exist"""
    e, np = C.px.enmap, C.np
    w, nphi = ring(C, plain=plain)
    if plain: nphi = 0
    ny, nx = 3, C.choice("nx", [4, 6])
    d = C.data("d", (ny, nx)); m = e.ndmap(C.arr(d).copy(), w)
    ly, lx = C.choice("len", [(2, 3), (1, 5)])
    y0, x0 = C.choice("y0", [-1, 1, 2]), C.pick("x0", *C.q((-7, 9), (-20, 20)))
    p = w.wcs
    ow = C.wcs("" if plain else "CAR", [p.crval[0], p.crval[1]], [p.cdelt[0], p.cdelt[1]], [p.crpix[0]-x0, p.crpix[1]-y0])
    sd = C.data("s", (ly, lx)); sm = e.ndmap(C.arr(sd).copy(), ow)
    add = C.choice("add", [False, True])
    form = C.choice("form", ["geo", "at", "atbox", "method"])
    ref = C.arr(d).copy()
    for i in range(ly):
        for j in range(lx):
            y, x = y0+i, x0+j
            if nphi: x %= nphi
            if 0 <= y < ny and 0 <= x < nx: ref[y, x] = ref[y, x]+sd[i, j] if add else sd[i, j]
    kw = dict(op=lambda a, b: a+b) if add else {}
    if form == "geo": o = e.insert(m, sm, **kw)
    elif form == "method": m.insert(sm, **kw); o = m
    elif form == "at": o = e.insert_at(m, [y0, x0], sm, **kw)
    else: o = e.insert_at(m, [[y0, x0], [y0+ly, x0+lx]], sm, **kw)
    C.eq(o, ref, "values"); C.eq(m, ref, "written in place"); C.eq(sm, sd, "source unchanged")
    same_pos(C, m.wcs, 0, 0, w, 0, 0, "geometry unchanged")

@case(params=["none", "both", "x", "wide"], budget=(40, 300))
def given_wrap(C, mode):
    """wrapping lengths given by the caller, per axis; a map wider than the sky repeats after the next whole number of turns"""
    e, np = C.px.enmap, C.np
    plain = mode == "both" and C.choice("plain", [True, False])
    w, nphi = ring(C, plain=plain)
    ny, nx = 3, C.choice("nx", [nphi+2, 2*nphi] if mode == "wide" else [4, 5])
    d = C.data("d", (ny, nx)); m = e.ndmap(C.arr(d).copy(), w)
    wy, wx, arg = {"none": (0, 0, 0), "both": (7, 7, 7), "x": (4, 5, [4, 5]), "wide": (0, 2*nphi, "auto")}[mode]
    ly, lx = C.choice("len", [(2, 3), (1, 5), (4, 2)])
    if mode == "x": ly = min(ly, 3)
    y0, x0 = C.choice("y0", C.q([-5, 2], [-5, -1, 2, 6])), C.pick("x0", *C.q((-7, 14), (-20, 30)))
    def at(i, j):
        y, x = y0+i, x0+j
        if wy: y %= wy
        if wx: x %= wx
        return (y, x) if 0 <= y < ny and 0 <= x < nx else None
    back = C.choice("back", [False, True])
    box = [[y0, x0], [y0+ly, x0+lx]]
    if not back:
        ref = np.zeros((ly, lx)); cval = C.real("cval", -5, 5)
        for i in range(ly):
            for j in range(lx): k = at(i, j); ref[i, j] = cval if k is None else d[k]
        o = e.extract_pixbox(m, box, wrap=arg, cval=cval)
        C.same(tuple(o.shape), (ly, lx), "shape"); C.eq(o, ref, "values"); C.eq(m, d, "input unchanged")
    else:
        sd = C.data("s", (ly, lx)); ref = C.arr(d).copy()
        for i in range(ly):
            for j in range(lx):
                k = at(i, j)
                if k is not None: ref[k] = ref[k]+sd[i, j]
        o = e.insert_at(m, [y0, x0], e.ndmap(C.arr(sd).copy(), w), wrap=arg, op=lambda a, b: a+b)
        C.eq(o, ref, "inserted")

@case(budget=(50, 400))
def roundtrip(C):
    """cut out and put back: the map is unchanged"""
    e, np = C.px.enmap, C.np
    w, nphi = ring(C)
    ny, nx = 2, nphi
    d = C.data("d", (ny, nx)); m = e.ndmap(C.arr(d).copy(), w)
    y0, x0 = C.choice("y0", [-1, 0, 1]), C.pick("x0", -9, 9)
    o = e.extract_pixbox(m, [[y0, x0], [y0+2, x0+4]])
    C.eq(m.pixbox_of(o.shape, o.wcs), C.arr([[y0, x0], [y0+2, x0+4]]), "pixbox_of finds the box")
    m2 = e.insert(m.copy(), o)
    C.eq(m2, d, "inserting a cutout changes nothing")
    z = e.zeros((ny, nx), w)
    e.insert(z, o)
    ref = np.zeros((ny, nx))
    for i in range(2):
        for j in range(4):
            if 0 <= y0+i < ny: ref[y0+i, (x0+j) % nphi] = d[y0+i, (x0+j) % nphi]
    C.eq(z, ref, "only the cutout is filled")
