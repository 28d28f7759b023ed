from .common import *
from . import sphere as Y
import math
PRELOAD = ["enmap", "curvedsky"]
BOUNDS = "coefficients real and imaginary, up to lmax 2 (quick) or 3 (thorough), every value in -1..1; pixel values likewise; CAR maps of 3-6 rows and 2-8 columns: full sky and cut sky, both directions of either axis, rows on the pole, half a pixel off it and elsewhere (Clenshaw-Curtis, Fejer, McEwen-Wiaux, Driscoll-Healy and none of these), row starts that are not multiples of the pixel size; spins 0, 1, 2 and derivatives; standard, mmax < lmax and rectangular layouts; healpix nside 1 and 2"
ASSUMPTIONS = ["ducc0's transforms are linear in the coefficients or the pixels; their matrices are read off the real ducc0 at the concrete ring positions the code passes to it",
    "values compared to 1e-5 of the coefficient range, since matrix elements are floating point numbers"]
TOL = F(1, 10**5)
D = math.pi/180

def geo(C, names, nx=6, xs=("full", "cut"), ra0=(0, 17)):
    """a cylindrical map: name of the row layout, columns, directions. returns shape, wcs, positions[y][x] in radians"""
    name = C.choice("rows", names)
    # all rows of the sky from north to south, and which of them the map has
    n = {"F1": 4, "CC": 5, "MW": 4, "MWflip": 4, "DH": 6, "F2": 5, "off": 4, "F1cut": 4, "CCcut": 5, "MWcut": 4, "F1south": 4, "F1big": 6, "row": 4}[name]
    if name in ("F1", "F1cut", "F1south", "F1big", "row"): dy = F(180, n); dec = [90-dy/2-dy*i for i in range(n)]
    elif name in ("CC", "CCcut"): dy = F(180, n-1); dec = [90-dy*i for i in range(n)]
    elif name in ("MW", "MWcut"): dy = F(360, 2*n-1); dec = [90-dy/2-dy*i for i in range(n)]
    elif name == "MWflip": dy = F(360, 2*n-1); dec = [90-dy*i for i in range(n)]
    elif name == "DH": dy = F(180, n); dec = [90-dy*i for i in range(n)]
    elif name == "F2": dy = F(180, n+1); dec = [90-dy*(i+1) for i in range(n)]
    else: dy = F(180, n)*F(9, 10); dec = [80-dy*i for i in range(n)]
    if name.endswith("cut"): dec = dec[1:-1] if name != "CCcut" else dec[1:4]
    if name == "F1south": dec = dec[2:]
    if name == "row": dec = dec[1:2]
    sx, sy = C.choice("sx", [-1, 1]), C.choice("sy", [1, -1])
    if sy > 0: dec = dec[::-1]
    x = C.choice("cols", list(xs))
    nc = nx if x == "full" else nx-2 if x == "cut" else 1
    dx = F(360, nx)
    r0 = C.choice("ra0", list(ra0))
    ny = len(dec)
    ax = C.choice("refpix", [1, F(5, 2)])
    w = C.wcs("CAR", [r0+sx*dx*(F(ax)-1), 0], [sx*dx, sy*dy], [ax, 1-F(dec[0])/(sy*dy)])
    pos = [[(float(d)*D, float(r0+sx*dx*i)*D) for i in range(nc)] for d in dec]
    return (ny, nc), w, pos

def lay(C, ainfo_cls, lmax):
    """a layout: ainfo (or None), list of (l,m), index of each in the array, array length"""
    k = C.choice("layout", ["std", "mmax", "rect"])
    if k == "std": lm = Y.tri(lmax); return None, lm, list(range(len(lm))), len(lm)
    if k == "mmax":
        lm = Y.tri(lmax, lmax-1); return ainfo_cls(lmax=lmax, mmax=lmax-1), lm, list(range(len(lm))), len(lm)
    lm = Y.tri(lmax); n = (lmax+1)**2
    return ainfo_cls(lmax=lmax, layout="rect"), lm, [m*(lmax+1)+l for l, m in lm], n

def rows_at(lm, p, spins):
    """rows of all components at one position; spins: list like [0,2]"""
    out = []; c0 = 0
    for s in spins:
        rr = Y.row0(lm, *p) if s == 0 else Y.row_s(lm, p[0], p[1], s)
        out += [[(c+c0, i, re, im) for c, i, re, im in r] for r in rr]
        c0 += 1 if s == 0 else 2
    return out

def ncomp(spins): return sum(1 if s == 0 else 2 for s in spins)

def expect(C, alm, lm, ind, pos, spins):
    """[comp][y][x] from the definition"""
    a = [[alm[c, k] for k in ind] for c in range(ncomp(spins))]
    out = [[[None]*len(pos[0]) for _ in pos] for _ in range(ncomp(spins))]
    for y, r in enumerate(pos):
        for x, p in enumerate(r):
            for c, row in enumerate(rows_at(lm, p, spins)): out[c][y][x] = Y.evaluate(row, a)
    return C.arr(out)

GEOS = {"auto": ["F1", "F1cut", "off", "CC"], "2d": ["F1", "CC", "MW", "MWflip", "DH", "F2", "F1cut", "F1south", "CCcut", "MWcut"], "cyl": ["F1", "CC", "off", "F1cut", "CCcut", "row"], "general": ["F1cut", "off", "row"]}
GEOSQ = {"auto": ["F1", "F1cut", "off"], "2d": ["F1", "MW", "MWflip", "F1cut", "CCcut"], "cyl": ["F1", "off", "CCcut"], "general": ["off", "row"]}

@case(params=["auto", "2d", "cyl", "general"], budget=(60, 800))
def synthesis(C, method):
    """alm2map puts into every pixel the value of the harmonic expansion at the position of that pixel"""
    e, np, cs = C.px.enmap, C.np, C.px.curvedsky
    lmax = C.q(2, 3)
    form = C.choice("form", ["TQU", "scalar", "pre", "v"])
    spins = {"TQU": [0, 2], "scalar": [0], "pre": [0], "v": [0, 1]}[form]
    quick = C.tier == "quick" and form != "TQU"
    shape, w, pos = geo(C, (GEOSQ[method][:1] if quick else C.q(GEOSQ, GEOS)[method]), xs=("full",) if quick else ("full", "cut", "one") if method == "cyl" else ("full", "cut"), ra0=(17,) if C.tier == "quick" else (0, 17, 200))
    ainfo, lm, ind, n = lay(C, cs.alm_info, lmax) if form == "scalar" or C.tier != "quick" else (None, Y.tri(lmax), list(range(len(Y.tri(lmax)))), len(Y.tri(lmax)))
    nc = ncomp(spins)
    a = C.data("a", (nc, n), -1, 1, cplx=True)
    pre = {"TQU": (3,), "v": (3,), "scalar": (), "pre": (2, 1)}[form]
    if form == "pre":
        b = C.data("b", (1, n), -1, 1, cplx=True)
        alm = np.stack([C.arr(a).copy(), C.arr(b).copy()])
    else: alm = C.arr(a).copy().reshape(pre+(n,))
    old = C.data("o", pre+shape, -1, 1)
    m = e.ndmap(C.arr(old).copy(), w)
    kw = dict(epsilon=1e-11)
    copy = C.choice("copy", [False, True])
    r = cs.alm2map(alm, m, spin=spins, ainfo=ainfo, method=method, copy=copy, **kw)
    ex = expect(C, a, lm, ind, pos, spins)
    if form == "pre": ex = np.stack([ex, expect(C, b, lm, ind, pos, spins)])
    ex = ex.reshape(pre+shape)
    C.eq(r, ex, "values", tol=TOL)
    if copy: C.eq(m, old, "the given map is left alone")
    else: C.eq(m, ex, "the given map holds the result", tol=TOL)
    C.eq(alm.reshape(-1)[:nc*n], C.arr(a).reshape(-1), "coefficients unchanged")

@case(params=["auto", "2d", "cyl", "general"], budget=(40, 400))
def derivatives(C, method):
    """alm2map with deriv: the derivatives towards increasing declination and right ascension"""
    e, np, cs = C.px.enmap, C.np, C.px.curvedsky
    lmax = C.q(2, 3); lm = Y.tri(lmax); n = len(lm)
    shape, w, pos = geo(C, {"auto": ["F1", "off"], "2d": ["F1", "F1cut"], "cyl": ["F1", "off"], "general": ["off"]}[method], xs=("full", "cut"), ra0=(17,))
    a = C.data("a", (1, n), -1, 1, cplx=True)
    m = e.zeros((2,)+shape, w); m[...] = 7.0
    r = cs.alm2map(C.arr(a)[0].copy(), m, deriv=True, method=method, epsilon=1e-11)
    aa = [[a[0, k] for k in range(n)]]
    ex = [[[Y.evaluate(Y.row_d(lm, *p)[c], aa) for p in row] for row in pos] for c in (0, 1)]
    C.eq(r, C.arr(ex), "values", tol=TOL)

@case(params=["auto", "2d", "cyl", "general"], budget=(60, 400))
def adjoint(C, method):
    """alm2map_adjoint is the transpose of alm2map"""
    e, np, cs = C.px.enmap, C.np, C.px.curvedsky
    lmax = 2
    form = C.choice("form", ["TQU", "scalar"])
    spins = {"TQU": [0, 2], "scalar": [0]}[form]
    nc = ncomp(spins)
    shape, w, pos = geo(C, GEOSQ[method][-2:], nx=5, xs=("full", "cut") if method != "general" else ("cut",), ra0=(17,))
    ainfo, lm, ind, n = lay(C, cs.alm_info, lmax) if form == "scalar" else (None, Y.tri(lmax), list(range(6)), 6)
    d = C.data("d", (nc,)+shape, -1, 1)
    pre = (nc,) if form == "TQU" else ()
    m = e.ndmap(C.arr(d).copy().reshape(pre+shape), w)
    alm = C.junk(pre+(n,), complex)
    r = cs.alm2map_adjoint(m, alm, spin=spins, ainfo=ainfo, method=method, epsilon=1e-11)
    rows, vals = [], []
    for y, pr in enumerate(pos):
        for x, p in enumerate(pr):
            for c, row in enumerate(rows_at(lm, p, spins)): rows.append(row); vals.append(d[c, y, x])
    ex = Y.project(rows, vals, nc, len(lm), lm)
    r = C.arr(r).reshape(nc, n)
    got = C.arr([[[r[c, k].real, r[c, k].imag] for k in ind] for c in range(nc)])
    C.eq(got, C.arr(ex), "values", tol=TOL)
    C.eq(m, C.arr(d).reshape(pre+shape), "map unchanged")

@case(params=["2d", "cyl", "general", "healpix", "pos"], budget=(40, 400))
def deriv_adjoint(C, method):
    """the transpose of the derivative transform, and the analysis of a gradient map"""
    e, np, cs = C.px.enmap, C.np, C.px.curvedsky
    lmax = 2; lm = Y.tri(lmax); n = len(lm)
    if method in ("healpix", "pos"):
        pos = [healpos(1)] if method == "healpix" else [[(0.3, 0.4), (-1.2, 2.5)]]; shape = (1, len(pos[0])); w = None
    else: shape, w, pos = geo(C, {"2d": ["F1", "F1cut"], "cyl": ["F1south", "off"], "general": ["off"]}[method], xs=("full", "cut"), ra0=(17,))
    d = C.data("d", (2,)+shape, -1, 1)
    ana = C.choice("ana", [False, True]) if method not in ("2d", "pos") else False
    kw = dict(epsilon=1e-11)
    if method == "healpix":
        m = C.arr(d).copy()[:, 0]
        if ana: r = cs.map2alm_healpix(m, lmax=lmax, deriv=True, alm=C.junk(n, complex))
        else: r = cs.alm2map_healpix(C.junk(n, complex), m, deriv=True, adjoint=True)
        ws = [4*math.pi/12 if ana else 1]
    elif method == "pos":
        m = C.arr(d).copy()[:, 0]
        r = cs.alm2map_pos(C.junk(n, complex), np.array(pos[0]).T, map=m, deriv=True, adjoint=True, **kw)
        ws = [1]
    else:
        m = e.ndmap(C.arr(d).copy(), w)
        if ana:
            ws = [0.3+0.1*(i if method == "general" else min(i, shape[0]-1-i)) for i in range(shape[0])]
            arg = np.array(ws)
            if method == "general": arg = np.repeat(arg, shape[1])
            r = cs.map2alm(m, C.junk(n, complex), deriv=True, method=method, weights=arg, **kw)
        else:
            r = cs.alm2map_adjoint(m, C.junk(n, complex), deriv=True, method=method, **kw)
            ws = [1]*shape[0]
    rows, vals = [], []
    for y, pr in enumerate(pos):
        for x, p in enumerate(pr):
            for c, row in enumerate(Y.row_d(lm, *p)): rows.append(row); vals.append(d[c, y, x]*ws[y])
    ex = Y.project(rows, vals, 1, n, lm)[0]
    C.eq(C.arr([[v.real, v.imag] for v in C.arr(r).reshape(-1)]), C.arr(ex), "values", tol=TOL)
    C.eq(C.arr(m).reshape((2,)+shape), d, "map unchanged")

@case(budget=(40, 200))
def masked(C):
    """the general method leaves out pixels that are not on the sky"""
    e, np, cs = C.px.enmap, C.np, C.px.curvedsky
    lmax = 2; lm = Y.tri(lmax); n = len(lm)
    bad = C.choice("bad", [(0, 0), (1, 2)])
    form = C.choice("form", ["scalar", "TQU", "pre"])
    spins = [0, 2] if form == "TQU" else [0]; nc = ncomp(spins); pre = {"scalar": (), "TQU": (3,), "pre": (2, 1)}[form]
    pos = [[(0.3+0.5*y, 0.4+0.7*x) for x in range(3)] for y in range(2)]
    mask = np.ones((2, 3), bool); mask[bad] = False
    loc = np.array([(math.pi/2-pos[y][x][0], pos[y][x][1]) for y in range(2) for x in range(3) if (y, x) != bad])
    linfo = C.px.bunch.Bunch(loc=loc, mask=mask, masked=True)
    w = C.wcs("CAR", [0, 0], [1, 1], [1, 1])
    dirn = C.choice("dir", ["syn", "adj", "ana"])
    if dirn == "syn":
        k = nc*(2 if form == "pre" else 1)
        a = C.data("a", (k, n), -1, 1, cplx=True); old = C.data("o", pre+(2, 3), -1, 1)
        m = e.ndmap(C.arr(old).copy(), w)
        cs.alm2map(C.arr(a).copy().reshape(pre+(n,)), m, spin=spins, method="general", locinfo=linfo, epsilon=1e-11)
        ex = np.concatenate([expect(C, a[i*nc:i*nc+nc], lm, list(range(n)), pos, spins) for i in range(k//nc)])
        ex = C.arr(ex).reshape(pre+(2, 3)).copy(); ex[..., bad[0], bad[1]] = old[..., bad[0], bad[1]]
        C.eq(m, ex, "values", tol=TOL)
    else:
        if form == "pre": return
        d = C.data("d", (nc, 2, 3), -1, 1)
        m = e.ndmap(C.arr(d).copy().reshape(pre+(2, 3)), w)
        if dirn == "adj": r = cs.alm2map_adjoint(m, C.junk(pre+(n,), complex), spin=spins, method="general", locinfo=linfo, epsilon=1e-11); ws = [1]*6
        else:
            ws = [0.3, 0.4, 0.5, 0.6, 0.7]
            r = cs.map2alm(m, C.junk(pre+(n,), complex), spin=spins, method="general", locinfo=linfo, weights=np.array(ws), epsilon=1e-11)
        rows, vals = [], []; j = 0
        for y in range(2):
            for x in range(3):
                if (y, x) == bad: continue
                for c, row in enumerate(rows_at(lm, pos[y][x], spins)): rows.append(row); vals.append(d[c, y, x]*ws[j])
                j += 1
        ex = Y.project(rows, vals, nc, n, lm)
        r = C.arr(r).reshape(nc, n)
        C.eq(C.arr([[[v.real, v.imag] for v in q] for q in r]), C.arr(ex), "values", tol=TOL)

EXACT = {"F1": 3, "CC": 3, "MW": 3, "MWflip": 3, "DH": 2, "F2": 2, "F1big": 3}

@case(params=["auto", "2d"], budget=(50, 400))
def roundtrip(C, method):
    """map2alm recovers the coefficients of a band-limited map on a whole-sky grid with known quadrature"""
    e, np, cs = C.px.enmap, C.np, C.px.curvedsky
    shape, w, pos = geo(C, C.q(["F1", "CC", "MWflip", "DH"], ["F1", "CC", "MW", "MWflip", "DH", "F2"]), xs=("full",), ra0=(17,))
    lmax = 2
    form = C.choice("form", ["TQU", "scalar"])
    spins = {"TQU": [0, 2], "scalar": [0]}[form]; nc = ncomp(spins); pre = (3,) if form == "TQU" else ()
    lm = Y.tri(lmax); n = len(lm)
    a = C.data("a", (nc, n), -1, 1, cplx=True)
    aa = [[a[c, k] for k in range(n)] for c in range(nc)]
    m = e.ndmap(expect(C, a, lm, list(range(n)), pos, spins).reshape(pre+shape), w)
    how = C.choice("how", ["lmax", "alm"])
    if how == "lmax": r = cs.map2alm(m, lmax=lmax, spin=spins, method=method)
    else:
        r = C.junk(pre+(n,), complex)
        r2 = cs.map2alm(m, r, spin=spins, method=method)
        C.check(r2 is r, "the given array is filled")
    r = C.arr(r).reshape(nc, n)
    for c in range(nc):
        for k, (l, mm) in enumerate(lm):
            if spins[-1] == 2 and c > 0 and l < 2: continue
            C.eq(r[c, k].real, a[c, k].real, "real part", tol=TOL)
            if mm: C.eq(r[c, k].imag, a[c, k].imag, "imaginary part", tol=TOL)

def weights_of(C, cs, name, shape, w, pos):
    """integration weight of each row: the quadrature weight of its grid, or the area of a pixel"""
    import ducc0
    dec = [r[0][0] for r in pos]
    full = {"F1": 4, "F1cut": 4, "F1south": 4, "row": 4, "CC": 5, "CCcut": 5}.get(name)
    dx = 2*math.pi/6
    if name == "CCcut": return list(ducc0.sht.experimental.get_gridweights("F2", 3)/6)   # the poles are left out: Fejer's second rule
    if full is None:
        dy = 180/4*.9*D if name == "off" else 360/7*D
        return [dx*(math.sin(min(math.pi/2, d+dy/2))-math.sin(max(-math.pi/2, d-dy/2))) for d in dec]
    ws = ducc0.sht.experimental.get_gridweights("CC" if name.startswith("CC") else "F1", full)/6
    alld = [90-180/4*i for i in range(5)] if name.startswith("CC") else [67.5-45*i for i in range(4)]
    return [ws[min(range(full), key=lambda j: abs(alld[j]*D-d))] for d in dec]

@case(params=["cyl", "general"], budget=(60, 400))
def analysis(C, method):
    """map2alm is the weighted transpose, improved by the requested number of Jacobi steps"""
    e, np, cs = C.px.enmap, C.np, C.px.curvedsky
    lmax = 2; lm = Y.tri(lmax); n = len(lm)
    niter = C.choice("niter", [0, 1])
    names = ["F1", "CCcut", "off", "F1south", "MWcut"] if method == "cyl" else ["off", "F1cut"]
    name = names[C.pick("geo", 0, len(names)-1)]
    shape, w, pos = geo(C, [name], xs=("full", "cut"), ra0=(17,))
    d = C.data("d", shape, -1, 1)
    m = e.ndmap(C.arr(d).copy(), w)
    wmode = C.choice("weights", ["default", "given"]) if method == "cyl" else "given"
    if wmode == "given":
        ws = [0.3+0.1*min(i, shape[0]-1-i) for i in range(shape[0])]
        arg = np.array(ws)
        if method == "general": ws = [0.3+0.1*i for i in range(shape[0])]; arg = np.repeat(np.array(ws), shape[1])
    else: ws = weights_of(C, cs, name, shape, w, pos); arg = None
    kw = dict(epsilon=1e-11) if method == "general" else {}
    r = cs.map2alm(m, lmax=lmax, spin=0, method=method, niter=niter, weights=arg, **kw)
    # what the transform does, from the definition. The cut rows are extended with zeros around the sky
    def full(pr):
        if method == "general": return pr
        return pr+[(pr[0][0], pr[0][1]+(pr[1][1]-pr[0][1])*i) for i in range(len(pr), 6)]
    fpos = [full(pr) for pr in pos]
    vals = [[d[y, x] if x < shape[1] else 0 for x in range(len(fpos[0]))] for y in range(shape[0])]
    def back(v):
        rows, vv = [], []
        for y, pr in enumerate(fpos):
            for x, p in enumerate(pr): rows.append(Y.row0(lm, *p)[0]); vv.append(v[y][x]*ws[y])
        return Y.project(rows, vv, 1, n, lm)[0]
    class Cx:
        def __init__(self, re, im): self.real, self.imag = re, im
    x0 = back(vals)
    for it in range(niter):
        a = [[Cx(*v) for v in x0]]
        res = [[Y.evaluate(Y.row0(lm, *p)[0], a)-vals[y][x] for x, p in enumerate(pr)] for y, pr in enumerate(fpos)]
        dx = back(res)
        x0 = [[p-q for p, q in zip(u, v)] for u, v in zip(x0, dx)]
    C.eq(C.arr([[v.real, v.imag] for v in C.arr(r).reshape(-1)]), C.arr(x0), "values", tol=TOL)
    C.eq(m, d, "map unchanged")

@case(budget=(20, 60))
def quadrature(C):
    """quad_weights: one weight per row of the map, in the order of its rows"""
    cs = C.px.curvedsky
    names = ["F1", "F1south", "CC", "CCcut", "MWcut", "off"]
    name = names[C.pick("geo", 0, 5)]
    shape, w, pos = geo(C, [name], xs=("full", "cut"), ra0=(17,))
    if name in ("off", "MWcut"): C.raises(ValueError, lambda: cs.quad_weights(shape, w), "no weights for unknown rows"); return
    ws = weights_of(C, cs, name, shape, w, pos)
    t = C.real("t", -1, 1)          # a constant row integrates to its weight
    C.eq(C.arr(cs.quad_weights(shape, w))*t, C.arr([float(v) for v in ws])*t, "weights", tol=TOL)

@case(params=["2d", "cyl", "general"], budget=(50, 400))
def analysis_adjoint(C, method):
    """map2alm_adjoint is the transpose of map2alm: their matrices agree"""
    e, np, cs = C.px.enmap, C.np, C.px.curvedsky
    lmax = 2; lm = Y.tri(lmax); n = len(lm)
    form = C.choice("form", ["TQU", "scalar"])
    spins = {"TQU": [0, 2], "scalar": [0]}[form]; nc = ncomp(spins); pre = (3,) if form == "TQU" else ()
    shape, w, pos = geo(C, {"2d": ["F1", "CC"], "cyl": ["F1south", "off"], "general": ["off"]}[method], xs=("full",) if method == "2d" else ("cut",), ra0=(17,))
    kw = dict(epsilon=1e-11) if method == "general" else {}
    a = C.data("a", (nc, n), -1, 1, cplx=True)
    r = cs.map2alm_adjoint(C.arr(a).copy().reshape(pre+(n,)), e.zeros(pre+shape, w)+7.0, spin=spins, method=method, **kw)
    C.same(tuple(r.shape), pre+shape, "shape")
    r = C.arr(r).reshape((nc,)+shape)
    # the transpose, column by column: the coefficients that map2alm gives for one pixel
    c, y, x = C.choice("c", range(nc)), C.choice("y", [0, shape[0]-1]), C.choice("x", [0, shape[1]-1])
    one = np.zeros((nc,)+shape); one[c, y, x] = 1
    col = C.arr(cs.map2alm(e.ndmap(one.reshape(pre+shape), w), lmax=lmax, spin=spins, method=method, **kw)).reshape(nc, n)
    t = 0
    for i in range(nc):
        for k, (l, m) in enumerate(lm):
            f = 1 if m == 0 else 2
            t = t+f*a[i, k].real*col[i, k].real+(f*a[i, k].imag*col[i, k].imag if m else 0)
    C.eq(r[c, y, x], t, "value", tol=TOL)

@case(budget=(30, 200))
def positions(C):
    """alm2map_pos evaluates at the given positions"""
    e, np, cs = C.px.enmap, C.np, C.px.curvedsky
    lmax = C.q(2, 3); lm = Y.tri(lmax); n = len(lm)
    pos = [(0.3, 0.4), (-1.2, -2.5), (0.9, 6.0)]
    form = C.choice("form", ["flat", "grid", "TQU", "loc", "deriv"])
    nc = 3 if form == "TQU" else 1
    a = C.data("a", (nc, n), -1, 1, cplx=True)
    alm = C.arr(a).copy() if form == "TQU" else C.arr(a).copy()
    P = np.array(pos[:3]).T
    aa = [[a[c, k] for k in range(n)] for c in range(nc)]
    if form == "deriv":
        r = cs.alm2map_pos(alm[0], P, deriv=True, epsilon=1e-11)
        C.eq(r, C.arr([[Y.evaluate(Y.row_d(lm, *p)[c], aa) for p in pos] for c in (0, 1)]), "derivatives", tol=TOL); return
    if form == "loc": r = cs.alm2map_pos(alm, loc=np.array([(math.pi/2-d, ra % (2*math.pi)) for d, ra in pos]), spin=[0], epsilon=1e-11)
    elif form == "grid": r = cs.alm2map_pos(alm, P.reshape(2, 3, 1), spin=[0], epsilon=1e-11)
    else: r = cs.alm2map_pos(alm, P, spin=[0, 2] if nc == 3 else [0], epsilon=1e-11)
    ex = [[Y.evaluate(rows_at(lm, p, [0, 2] if nc == 3 else [0])[c], aa) for p in pos] for c in range(nc)]
    ex = C.arr(ex)
    if form == "grid": ex = ex.reshape(1, 3, 1)
    C.eq(r, ex, "values", tol=TOL)
    C.eq(alm, a, "coefficients unchanged")

def healpos(nside):
    """centers of the healpix pixels in ring order, from the published formulas; (dec, ra)"""
    out = []
    for i in range(1, 4*nside):
        if i < nside: z = 1-i*i/(3*nside**2); k = i; ph = [math.pi/(2*i)*(j-0.5) for j in range(1, 4*i+1)]
        elif i <= 3*nside: z = 4/3-2*i/(3*nside); s = 1+(i+nside) % 2; ph = [math.pi/(2*nside)*(j-s/2) for j in range(1, 4*nside+1)]
        else: k = 4*nside-i; z = -1+k*k/(3*nside**2); ph = [math.pi/(2*k)*(j-0.5) for j in range(1, 4*k+1)]
        out += [(math.asin(z), p) for p in ph]
    return out

@case(budget=(40, 300))
def healpix(C):
    """healpix maps: synthesis at the pixel centers, its transpose, and the equal-weight analysis"""
    np, cs = C.np, C.px.curvedsky
    nside = C.choice("nside", [1, 2]); lmax = 2; lm = Y.tri(lmax); n = len(lm)
    pos = healpos(nside); npix = len(pos)
    form = C.choice("form", ["TQU", "scalar", "analysis", "adjoint", "deriv", "theta"])
    if form in ("TQU", "scalar"):
        nc = 3 if form == "TQU" else 1
        spins = [0, 2] if nc == 3 else [0]
        a = C.data("a", (nc, n), -1, 1, cplx=True)
        aa = [[a[c, k] for k in range(n)] for c in range(nc)]
        r = cs.alm2map_healpix(C.arr(a).copy(), nside=nside, spin=spins)
        C.eq(r, C.arr([[Y.evaluate(rows_at(lm, p, spins)[c], aa) for p in pos] for c in range(nc)]), "values", tol=TOL)
    elif form == "deriv":
        a = C.data("a", (1, n), -1, 1, cplx=True)
        aa = [[a[0, k] for k in range(n)]]
        hm = np.zeros((2, npix))
        r = cs.alm2map_healpix(C.arr(a)[0].copy(), hm, deriv=True)
        C.eq(r, C.arr([[Y.evaluate(Y.row_d(lm, *p)[c], aa) for p in pos] for c in (0, 1)]), "derivatives", tol=TOL)
    elif form == "theta":
        a = C.data("a", (1, n), -1, 1, cplx=True)
        aa = [[a[0, k] for k in range(n)]]
        old = C.data("o", (1, npix), -1, 1)
        hm = C.arr(old).copy()
        lo, hi = C.choice("lim", [(None, 1.7), (1.0, None), (1.0, 1.7)])
        r = cs.alm2map_healpix(C.arr(a).copy(), hm, spin=[0], theta_min=lo, theta_max=hi)
        ex = [Y.evaluate(rows_at(lm, p, [0])[0], aa) if (lo is None or math.pi/2-p[0] >= lo) and (hi is None or math.pi/2-p[0] <= hi) else old[0, i] for i, p in enumerate(pos)]
        C.eq(r, C.arr([ex]), "values", tol=TOL)
    else:
        d = C.data("d", (1, npix), -1, 1)
        rows = [Y.row0(lm, *p)[0] for p in pos]
        ex = Y.project(rows, [d[0, i] for i in range(npix)], 1, n, lm)[0]
        if form == "adjoint":
            r = cs.alm2map_healpix(C.junk((1, n), complex), C.arr(d).copy(), spin=[0], adjoint=True); f = 1
        else: r = cs.map2alm_healpix(C.arr(d).copy(), lmax=lmax, spin=[0]); f = 4*math.pi/npix
        C.eq(C.arr([[v.real, v.imag] for v in C.arr(r).reshape(-1)]), C.arr([[f*p, f*q] for p, q in ex]), "values", tol=TOL)

@case(budget=(20, 100))
def healpix_rings(C):
    """the rings of a healpix map, or a selection of them: latitude, first pixel, number of pixels and offset are those of the pixel centers in ring order"""
    np, cs = C.np, C.px.curvedsky
    nside = C.choice("nside", C.q([1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6, 7, 8]))
    pos = healpos(nside); n = [4*min(i, nside, 4*nside-i) for i in range(1, 4*nside)]; off = [sum(n[:i]) for i in range(len(n))]
    some = C.choice("rings", [None, [0], list(range(nside, 4*nside-1)), [4*nside-2, 2*nside-1]])
    r = cs.get_ring_info_healpix(nside, **({} if some is None else dict(rings=some)))
    ids = list(range(4*nside-1)) if some is None else some
    C.same((len(r.theta), int(r.nrow)), (len(ids), len(ids)), "rings"); C.same(int(r.npix), 12*nside**2, "pixels")
    for k, i in enumerate(ids):
        C.same(int(r.nphi[k]), n[i], "pixels of the ring"); C.eq(r.theta[k], math.pi/2-pos[off[i]][0], "latitude", tol=TOL); C.eq(r.phi0[k], pos[off[i]][1], "first pixel", tol=TOL)
        if some is None: C.same(int(r.offsets[k]), off[i], "offset")

@case(budget=(40, 300))
def rotation(C):
    """rotate_alm: the rotated field at a position is the old field at the rotated-back position"""
    np, cs = C.np, C.px.curvedsky
    lmax = 2; lm = Y.tri(lmax); n = len(lm)
    psi, th, phi = C.choice("ang", [(0.3, 0, 0), (0, 0.7, 0), (0, 0, 1.1), (0.3, 0.7, 1.1)])
    pre = C.choice("pre", [(), (2,)]); k = pre[0] if pre else 1
    a = C.data("a", (k, n), -1, 1, cplx=True)
    alm = C.arr(a).copy().reshape(pre+(n,))
    inplace = C.choice("inplace", [False, True])
    r = cs.rotate_alm(alm, psi, th, phi, inplace=inplace)
    C.eq(alm, r if inplace else C.arr(a).reshape(pre+(n,)), "input array", tol=TOL)
    r = C.arr(r).reshape(k, n)
    # zyz: first psi around z, then theta around y, then phi around z
    def rz(v, t): return (math.cos(t)*v[0]-math.sin(t)*v[1], math.sin(t)*v[0]+math.cos(t)*v[1], v[2])
    def ry(v, t): return (math.cos(t)*v[0]+math.sin(t)*v[2], v[1], -math.sin(t)*v[0]+math.cos(t)*v[2])
    for i in range(k):
        for p in [(0.2, 0.5), (-0.9, 4.0)]:
            v = (math.cos(p[0])*math.cos(p[1]), math.cos(p[0])*math.sin(p[1]), math.sin(p[0]))
            v = rz(ry(rz(v, -phi), -th), -psi)
            q = (math.asin(max(-1, min(1, v[2]))), math.atan2(v[1], v[0]))
            C.eq(Y.evaluate(Y.row0(lm, *p)[0], [[r[i, j] for j in range(n)]]), Y.evaluate(Y.row0(lm, *q)[0], [[a[i, j] for j in range(n)]]), "value", tol=TOL)

def legendre(l, x):
    a, b = 1.0, x
    if l == 0: return a
    for i in range(2, l+1): a, b = b, ((2*i-1)*x*b-(i-1)*a)/i
    return b

@case(budget=(30, 200))
def profiles(C):
    """harm2profile is the Legendre sum, and profile2harm undoes it on a Clenshaw-Curtis grid"""
    np, cs = C.np, C.px.curvedsky
    lmax = 3; n = 9
    pre = C.choice("pre", [(), (2,)]); k = pre[0] if pre else 1
    bl = C.data("b", (k, lmax+1), -1, 1)
    r = np.arange(n)*(math.pi/(n-1))
    br = cs.harm2profile(C.arr(bl).copy().reshape(pre+(lmax+1,)), r)
    ex = [[sum((2*l+1)/(4*math.pi)*legendre(l, math.cos(math.pi/(n-1)*i))*bl[c, l] for l in range(lmax+1)) for i in range(n)] for c in range(k)]
    C.eq(br, C.arr(ex).reshape(pre+(n,)), "profile", tol=TOL)
