from .common import *
PRELOAD = ["enmap", "multimap"]
BOUNDS = "maps of 2x3 to 4x5 pixels with 0-2 leading axes; contents and reference points unconstrained reals; FITS and HDF, whole-image and section access; slices, pixel boxes (up to 2 turns wide), sky boxes and geometries from finite sets around the map; stokes axes of 1-4 entries"
ASSUMPTIONS = "astropy.io.fits and h5py are replaced by models of a file in memory (big-endian FITS data, data kept by an open image, sections read afresh); numbers are exact"

def amap(C, kind, shape, tag="d", **k):
    w = symwcs(C, kind, tag=tag, **dict(dict(sx=-1, sy=1, cp=20, cdx=F(1, 2), cdy=F(1, 2)), **k))
    d = C.data(tag, shape)
    return d, w, C.px.enmap.ndmap(C.arr(d).copy(), w)

def samemap(C, a, b, label):
    C.same(tuple(a.shape), tuple(b.shape), label+": shape")
    C.eq(a, b, label+": values")
    same_pos(C, a.wcs, 0, 0, b.wcs, 0, 0, label+": place"); same_pos(C, a.wcs, 1, 1, b.wcs, 1, 1, label+": place")
    C.same(type(a).__name__, "ndmap", label+": is a map")

@case(params=["fits", "hdf"], budget=(40, 200))
def roundtrip(C, fmt):
    """what is written is what is read"""
    e, np = C.px.enmap, C.np
    kind = C.choice("kind", ["CAR", "CEA", "TAN", ""])
    shape = C.choice("shape", [(2, 3), (3, 2, 2), (1, 2, 1, 4)])
    d, w, m = amap(C, kind, shape, sx=None, sy=None, cdx=None, cdy=None)
    extra = C.choice("extra", [{}, {"FREQ": 150, "NOTE": "x"}, {"KEY%d" % i: i for i in range(40)}])
    mod = C.choice("modify", [False, True])
    f = C.file("a."+fmt)
    if fmt == "fits": e.write_map(f, m, extra=extra, allow_modify=mod)
    else: e.write_map(f, m, extra=extra)
    if not mod: C.eq(m, d, "written map unchanged"); same_pos(C, m.wcs, 0, 0, w, 0, 0, "written geometry unchanged")
    ref = e.ndmap(C.arr(d).copy(), w)
    r = e.read_map(f)
    samemap(C, r, ref, "read")
    s, ow = e.read_map_geometry(f)
    C.same(tuple(s), shape, "geometry shape"); same_pos(C, ow, 0, 0, w, 0, 0, "geometry"); same_pos(C, ow, 1, 1, w, 1, 1, "geometry")
    C.eq(ow.wcs.crval, w.wcs.crval, "reference value")
    if fmt == "fits" and extra:
        h = e.read_fits_header(f, quick=False)
        for k in extra: C.same(h[k], extra[k], "extra header")
    r[...] = 7
    samemap(C, e.read_map(f), ref, "read again")
    # overwriting
    m2 = e.ndmap(C.arr(d)[..., ::-1].copy()*2, w)
    e.write_map(f, m2)
    samemap(C, e.read_map(f), m2, "overwritten")
    g = C.file("g.fits")
    e.write_map_geometry(g, shape, w)
    s, ow = e.read_map_geometry(g)
    C.same(tuple(s), shape, "bare geometry shape"); same_pos(C, ow, 0, 0, w, 0, 0, "bare geometry"); same_pos(C, ow, 1, 1, w, 1, 1, "bare geometry")

@case(budget=(30, 200))
def hdf_address(C):
    """several maps in one hdf file do not disturb each other; writing to an address replaces just that"""
    e, np = C.px.enmap, C.np
    a, b = amap(C, "CAR", (2, 3), "a"), amap(C, C.choice("kind", ["", "TAN"]), (2, 2, 2), "b")
    f = C.file("x.hdf")
    p, q = C.choice("where", [("one", "two"), ("g/one", "g/two")])
    e.write_map(f, a[2], address=p); e.write_map(f, b[2], address=q)
    samemap(C, e.read_map(f, address=p), a[2], "first"); samemap(C, e.read_map(f, address=q), b[2], "second")
    s, ow = e.read_map_geometry(f, address=q)
    C.same(tuple(s), (2, 2, 2), "geometry shape"); same_pos(C, ow, 0, 0, b[1], 0, 0, "geometry")
    e.write_map(f, b[2], address=p)
    samemap(C, e.read_map(f, address=p), b[2], "replaced"); samemap(C, e.read_map(f, address=q), b[2], "other kept")
    e.write_map(f, a[2])
    samemap(C, e.read_map(f), a[2], "whole file replaced")

SELS = [(slice(None), slice(1, 3)), (Ellipsis, slice(None, None, -1)), (1,), (slice(None, None, -1), slice(3, 0, -2), slice(1, -1)), (0, slice(1, None, 2)), (Ellipsis, slice(-2, None), slice(9, 12)), (slice(1, 2), Ellipsis, slice(2, 4), slice(-9, 3, 2)), slice(0, 1)]

@case(params=[(f, t, h) for f in ("fits", "hdf") for t in ("whole", "section") for h in ("sel", "pixbox", "box", "geometry")]+[("comp", "section", "sel"), ("comp", "section", "pixbox")], budget=(40, 200), max_paths=(1500, 20000))
def partial(C, fmt, access, how):
    """reading a part of a file gives what reading it all and cutting out the part does"""
    e, np = C.px.enmap, C.np
    kind = C.choice("kind", ["CAR", ""]) if how == "sel" else "CAR"
    # a sky of 8 pixels around
    d, w, m = amap(C, kind, (2, 4, 5), cdx=F(45), cdy=F(10), cp=4)
    hdu = None
    if fmt == "comp": f = C.mkfits("p.fits", [(w.to_header(), d)], compressed=True); hdu = 0 if C.sym else 1
    else: f = C.file("p."+fmt); e.write_map(f, m)
    kw = dict(sel_threshold=0 if access == "section" else 10**7)
    if hdu: kw["hdu"] = hdu
    if how == "sel":
        sel = C.choice("sel", SELS)
        samemap(C, e.read_map(f, sel=sel, **kw), m[sel], "slice")
        suffix = C.choice("suffix", [("[:,1:3]", m[:, 1:3]), ("[1,::-1,:2]", m[1, ::-1, :2])])
        samemap(C, e.read_map(f+":"+suffix[0], **kw), suffix[1], "slice in the name")
        if fmt == "fits":
            s, ow = e.read_map_geometry(f+":"+suffix[0])
            C.same(tuple(s[-2:]), tuple(suffix[1].shape[-2:]), "geometry of the slice in the name: shape"); same_pos(C, ow, 0, 0, suffix[1].wcs, 0, 0, "geometry of the slice in the name")
    elif how == "pixbox":
        pb = C.choice("pixbox", [[[0, 1], [2, 4]], [[-1, -2], [3, 3]], [[1, 3], [3, 19]], [[2, 4], [0, 1]], [[1, 7], [5, 20]]])
        wrap = C.choice("wrap", ["auto", 0, 8, 5])
        samemap(C, e.read_map(f, pixbox=pb, wrap=wrap, **kw), e.extract_pixbox(m, pb, wrap=wrap), "pixel box")
        if fmt != "hdf": samemap(C, e.read_map(f, pixbox=pb, wrap=wrap, sel=(1, slice(None, None, 2)), **kw), e.extract_pixbox(m, pb, wrap=wrap)[1, ::2], "pixel box and slice")
    elif how == "box":
        # box edges in pixels of the map, away from rounding ties
        y1, x1, y2, x2 = C.choice("box", [(F(-3, 10), F(13, 10), F(17, 10), F(33, 10)), (F(12, 10), F(37, 10), F(2, 10), F(12, 10)), (F(3, 10), F(43, 10), F(27, 10), F(72, 10))])
        (d1, r1), (d2, r2) = lin(w, y1, x1), lin(w, y2, x2)
        C.assume(d1 > -80, d1 < 80, d2 > -80, d2 < 80, r1 > -170, r1 < 170)
        D = C.px.utils.degree
        box = C.arr([[d1*D, r1*D], [d2*D, r2*D]])
        mode = C.choice("mode", [None, "inclusive", "exclusive", "floor"])
        samemap(C, e.read_map(f, box=box, mode=mode, **kw), e.submap(m, box, mode=mode), "sky box")
    else:
        oy, ox, ny, nx = C.choice("geo", [(1, 1, 2, 3), (-1, -2, 3, 4), (0, 6, 2, 10), (2, -9, 3, 2)])
        ow = w.deepcopy(); ow.wcs.crpix = [w.wcs.crpix[0]-ox, w.wcs.crpix[1]-oy]
        samemap(C, e.read_map(f, geometry=((ny, nx), ow), **kw), e.extract(m, (ny, nx), ow), "geometry")
    samemap(C, e.read_map(f, **kw), m, "whole map after")

@case(params=[("fits", "whole"), ("fits", "section"), ("hdf", "whole"), ("hdf", "section")], budget=(40, 200))
def delayed(C, fmt, access):
    """a delayed read gives the same data each time it is used"""
    e, np = C.px.enmap, C.np
    d, w, m = amap(C, "CAR", (2, 3, 4), cdx=F(45), cdy=F(10), cp=4)
    f = C.file("p."+fmt); e.write_map(f, m)
    p = e.read_map(f, delayed=True, sel_threshold=0 if access == "section" else 10**7)
    C.same(tuple(p.shape), (2, 3, 4), "shape"); same_pos(C, p.wcs, 0, 0, w, 0, 0, "geometry"); C.same(p.ndim, 3, "ndim")
    s1, s2 = C.choice("s1", SELS[:4]), C.choice("s2", SELS[3:6])
    a = p[s1]
    samemap(C, a, m[s1], "first read")
    b = p[s2]
    samemap(C, b, m[s2], "second read"); samemap(C, a, m[s1], "first result still the same")
    samemap(C, p[s1], m[s1], "repeated read")
    pb = [[0, -3], [2, 6]]
    samemap(C, p.extract_pixbox(pb), m.extract_pixbox(pb), "pixel box"); samemap(C, e.extract_pixbox(p, pb), m.extract_pixbox(pb), "pixel box again")
    samemap(C, e.extract(p, (2, 9), w), e.extract(m, (2, 9), w), "geometry")
    samemap(C, p[:], m, "whole map")

@case(params=["whole", "section"], budget=(50, 300))
def stokes(C, access):
    """U is negated exactly when the file says its polarization follows the IAU convention"""
    e, np = C.px.enmap, C.np
    n = C.choice("n", [3, 1, 2, 4])
    d = C.data("d", (n, 2, 3))
    w = symwcs(C, "CAR", sx=-1, sy=1, cp=4, cdx=F(45), cdy=F(10))
    h = dict(w.to_header())
    conv = C.choice("conv", [("POLCCONV", "IAU"), ("POLCCONV", "COSMO"), ("POLCONV", "IAU "), (None, None), ("POLCCONV", "Q")])
    # which entry of the axis has which stokes parameter
    cr, cv, cd = C.choice("ax", [(1, 1, 1), (1, 3, -1), (2, 2, 1), (1, 2, 1), (4, 1, 1)])
    axis = C.choice("ctype", ["STOKES", "FREQ", "STOKES  "])
    h.update({"CTYPE3": axis, "CRPIX3": float(cr), "CRVAL3": float(cv), "CDELT3": float(cd)})
    if conv[0]: h[conv[0]] = conv[1]
    f = C.mkfits("s.fits", [(h, d)])
    ref = C.arr(d).copy()
    if axis.strip() == "STOKES" and (conv[0] is None or conv[1].strip() == "IAU"):
        for i in range(n):
            if cv+cd*(i+1-cr) == 3: ref[i] = -ref[i]
    m = e.ndmap(ref, w)
    kw = dict(sel_threshold=0 if access == "section" else 10**7)
    samemap(C, e.read_map(f, **kw), m, "whole map")
    sel = C.choice("sel", C.q([(-1,), (slice(None, None, -1), slice(0, 1))], [(slice(None), slice(0, 1)), (-1,), (slice(None, None, -1), slice(0, 1)), (Ellipsis, slice(1, 3))]))
    samemap(C, e.read_map(f, sel=sel, **kw), m[sel], "slice")
    p = e.read_map(f, delayed=True, **kw)
    samemap(C, p[sel], m[sel], "delayed slice"); samemap(C, p[:], m, "delayed whole"); samemap(C, p[sel], m[sel], "delayed slice again")
    pb = [[0, -3], [2, 9]]
    samemap(C, e.read_map(f, pixbox=pb, **kw), m.extract_pixbox(pb), "pixel box")

@case(params=["whole", "section"], budget=(50, 300))
def stokes2(C, access):
    """with several leading axes, each entry changes sign once for every axis along which it is U"""
    e, np = C.px.enmap, C.np
    pre, st = C.choice("axes", [((3, 3), (0, 1)), ((2, 3), (1,)), ((3, 2), (0,)), ((2, 3), (0,)), ((3, 1), (0, 1))])
    conv = C.choice("conv", ["IAU", "COSMO"])
    d = C.data("d", pre+(2, 3))
    w = symwcs(C, "CAR", sx=-1, sy=1, cp=4, cdx=F(45), cdy=F(10))
    h = dict(w.to_header()); h["POLCCONV"] = conv
    for a in range(2): h.update({"CTYPE%d" % (4-a): "STOKES" if a in st else "FREQ", "CRPIX%d" % (4-a): 1.0, "CRVAL%d" % (4-a): 1.0, "CDELT%d" % (4-a): 1.0})
    f = C.mkfits("s.fits", [(h, d)])
    ref = C.arr(d).copy()
    if conv == "IAU":
        for a in st:
            if pre[a] > 2:
                if a == 0: ref[2] = -ref[2]
                else: ref[:, 2] = -ref[:, 2]
    m = e.ndmap(ref, w)
    kw = dict(sel_threshold=0 if access == "section" else 10**7)
    samemap(C, e.read_map(f, **kw), m, "whole map")
    sel = C.choice("sel", [(-1,), (slice(None), -1), (slice(None, None, -1), slice(0, 1), slice(1, 2)), (0, -1, slice(None), slice(1, 3)), (Ellipsis, slice(1, 3))])
    samemap(C, e.read_map(f, sel=sel, **kw), m[sel], "slice")
    p = e.read_map(f, delayed=True, **kw)
    samemap(C, p[sel], m[sel], "delayed slice"); samemap(C, p[:], m, "delayed whole")

@case(budget=(40, 200))
def multimaps(C):
    """a multimap file holds each map with its own geometry"""
    e, np, mm = C.px.enmap, C.np, C.px.multimap
    n = C.pick("n", 1, 3)
    ms = [amap(C, ["CAR", "CAR", "TAN"][i], (2, 2+i, 3-i), "m%d" % i) for i in range(n)]
    M = mm.multimap([x[2] for x in ms])
    f = C.file("m.fits")
    mm.write_map(f, M, extra=C.choice("extra", [{}, {"A": 1}]))
    r = mm.read_map(f)
    C.same(r.nmap, n, "number of maps")
    for i in range(n):
        samemap(C, r.maps[i], ms[i][2], "map %d" % i)
        samemap(C, e.read_map(f, hdu=i), ms[i][2], "map %d read alone" % i)
        C.eq(M.maps[i], ms[i][0], "written maps unchanged")
    sel = C.choice("sel", [(slice(0, 1),), (slice(None, None, -1), slice(0, 1), slice(1, 2))])
    r = mm.read_map(f, sel=sel, sel_threshold=C.choice("t", [0, 10**7]))
    for i in range(n): samemap(C, r.maps[i], ms[i][2][sel], "slice of map %d" % i)
