from .common import *
import math
PRELOAD = ["enmap", "utils", "pointsrcs"]
EXTS = ["srcsim"]
BOUNDS = "maps of up to 11x13 pixels in the listed geometries (plain steps of 0.5-30 degrees, crossing the wrap, at high declination), 1-3 objects (12 sharing a profile for the shortcut) at the listed positions inside and outside the map; amplitudes, map contents, profile values at listed radii and cutoffs symbolic"
ASSUMPTIONS = ["object and pixel positions are concrete, so distances are evaluated in double precision where the compiled code uses single precision; pixels within 1e-4 of a bin or profile edge are avoided; OpenMP loops are run with one thread"]
D = math.pi/180

def dist(p, q):
    """angle between two (dec,ra)"""
    s = math.sin((p[0]-q[0])/2)**2+math.cos(p[0])*math.cos(q[0])*math.sin((p[1]-q[1])/2)**2
    return 2*math.asin(math.sqrt(min(1, s)))

GEOS = [  # shape, ctype, crval (deg), cdelt (deg), crpix
    ((4, 5), "CAR", (0, 0), (-1, 1), (3, 2.5)),
    ((9, 11), "CAR", (30, 0), (-2, 2), (6, -20)),
    ((3, 12), "CAR", (0, 0), (-30, 20), (6.5, 2)),
    ((5, 9), "CAR", (179, 0), (1, -1), (4, 3)),
]
def geo(C, k):
    sh, proj, cv, cd, cp = GEOS[k]
    w = C.wcs(proj, [F(v) for v in cv], [F(v) for v in cd], [F(v) for v in cp])
    pos = [[((cd[1]*(i+1-cp[1])+cv[1])*D, (cd[0]*(j+1-cp[0])+cv[0])*D) for j in range(sh[1])] for i in range(sh[0])]
    return sh, w, pos
def at(k, y, x):
    sh, proj, cv, cd, cp = GEOS[k]
    return (cd[1]*(y+1-cp[1])+cv[1])*D, (cd[0]*(x+1-cp[0])+cv[0])*D
# objects in pixel coordinates of each geometry
OBJS = [[(1.3, 2.2), (3.4, 0.1), (-0.8, 4.9)], [(4.3, 5.1), (0.2, 9.7), (8.9, -1.2)], [(1.2, 0.15), (0.3, 11.4), (1.9, 6.2)], [(2.2, 4.4), (4.8, -0.7), (0.1, 8.2)]]
# profile radii in units of the pixel height
RADII = {"equi": [0, 1, 2, 3], "steps": [0, 0.8, 2.1, 2.9, 4.2], "hole": [0.7, 1.5, 2.6]}

def prof(C, rs, vs, r):
    """linear interpolation; constant inside the first radius, zero beyond the last"""
    if r < rs[0]: return vs[0]
    for i in range(len(rs)-1):
        if rs[i] <= r < rs[i+1]: return vs[i]+(vs[i+1]-vs[i])*((r-rs[i])/(rs[i+1]-rs[i]))
    return 0

def clear(rs, r): return all(abs(r-v) > 1e-4*max(v, 1e-3) for v in rs)

def amp(C, name, shape):
    """amplitudes well away from zero, each sign"""
    sg = C.choice(name+"sign", [(1, 1, 1), (1, -1, 1), (-1, 1, -1)])
    a = C.data(name, shape, F(1, 2), 4); n = shape[-1]
    return C.arr(a)*C.arr([sg[i % 3] for i in range(n)])
def arrpos(C, objs): return C.arr([[p[0] for p in objs], [p[1] for p in objs]])

@case(params=[(k, n) for k in range(len(GEOS)) for n in RADII], budget=(60, 300))
def paint(C, k, rname):
    """every pixel gets amplitude times profile at its distance from each object, added up, wherever that reaches the cutoff"""
    C.ext("srcsim"); np, ps = C.np, C.px.pointsrcs
    sh, w, pos = geo(C, k)
    unit = abs(GEOS[k][3][1])*D
    rs = [v*unit for v in RADII[rname]]; n = len(rs)
    nobj, first, nc, given, turn, sep = C.choice("form", [(1, 0, None, False, 0, "auto"), (2, 1, 2, True, 0, "auto"), (3, 0, None, True, 1, False), (2, 0, 2, False, -1, True)])
    objs = [at(k, *OBJS[k][first+i]) for i in range(nobj)]
    objs = [(d, r+2*math.pi*turn) for d, r in objs]
    vs = C.data("v", (n,), F(1, 4), 2)
    amps = amp(C, "a", ((nc,) if nc else ())+(nobj,)); base = C.data("m", ((nc,) if nc else ())+sh, -5, 5)
    m = C.px.enmap.ndmap(C.astype(C.arr(base), np.float32), w) if given else None
    # a cutoff below anything the profile reaches: nothing may be left out
    o = ps.sim_objects(sh, w, arrpos(C, objs), amps, C.arr([C.arr(rs), vs]), omap=m, vmin=F(1, 10**9), separable=sep)
    C.same(tuple(o.shape), ((nc,) if nc else ())+sh, "shape")
    if given: C.eq(m, o, "the given map is updated")
    A = C.arr(amps).reshape(nc or 1, nobj); O = o.reshape((nc or 1,)+sh); B = C.arr(base).reshape((nc or 1,)+sh)
    for i in range(sh[0]):
        for j in range(sh[1]):
            dd = [dist(pos[i][j], q) for q in objs]
            if not all(clear(rs, r) for r in dd): continue
            pv = [prof(C, rs, vs, r) for r in dd]
            for c in range(nc or 1):
                C.eq(O[c, i, j], (B[c, i, j] if given else 0)+sum(A[c, q]*pv[q] for q in range(nobj)), "pixel value", tol=F(1, 1000))

PROFS = {"beam": ([0, 0.7, 1.4, 2.1, 2.8, 3.5, 4.2, 4.9], [1, 0.8, 0.5, 0.2, 0.05, 0.02, 0.005, 0.001]), "bright": ([0, 1, 2, 3, 4, 5], [100, 40, 15, 6, 2.5, 0.3]), "ring": ([0, 1.2, 2, 3.1, 4.5], [0, 0.3, 1.5, 0.4, 0.02]), "signed": ([0, 1.2, 2, 3.1, 4.5], [1, -0.3, 0.1, -0.05, 0.02])}
@case(params=[(p, n) for p in PROFS for n in (1, 12)], budget=(60, 300))
def cutoff(C, pname, nobj):
    """a pixel is left out only where amplitude times profile is below vmin, or beyond rmax; also when many objects share a profile, and with vmin zero"""
    C.ext("srcsim"); np, ps = C.np, C.px.pointsrcs
    k = 1; sh, w, pos = geo(C, k); unit = 2*D
    rs, vs = [v*unit for v in PROFS[pname][0]], PROFS[pname][1]
    q = at(k, *C.choice("obj", [(4.3, 7.6), (0.3, 0.2)] if nobj == 1 else C.q([(4.3, 7.6)], [(4.3, 7.6), (0.3, 0.2)]))); far = (-80*D, q[1])      # the others are nowhere near
    # with many objects the code takes logarithms of the amplitude
    a = C.real("a", F(1, 2), 4) if nobj == 1 else C.choice("a", C.q([0.5, 3.7], [0.5, 1.0, 3.7])); sgn = C.choice("sign", [1, -1])
    vmin = C.choice("vmin", [0, None, F(3, 100), F(6, 10), 3]); rmax = C.choice("rmax", [None, 2.5*unit]) if vmin != 3 else None
    amps = C.arr([sgn*a]+[(0 if vmin is None else 1) for i in range(nobj-1)])
    kw = {} if vmin is None else dict(vmin=vmin)
    o = ps.sim_objects(sh, w, arrpos(C, [q]+[far]*(nobj-1)), amps, C.arr([rs, vs]), rmax=rmax, **kw)
    lim = [0 if nobj > 1 else None, vmin][vmin is not None]
    for i in range(sh[0]):
        for j in range(sh[1]):
            r = dist(pos[i][j], q)
            if not clear(rs+([rmax] if rmax else []), r): continue
            v = sgn*a*prof(C, rs, vs, r); mag = abs(prof(C, rs, vs, r))*a
            full = C.and_(o[i, j]-v <= F(1, 100), v-o[i, j] <= F(1, 100))
            none = C.and_(o[i, j] <= F(1, 10**6), o[i, j] >= -F(1, 10**6))
            C.check(C.or_(full, none), "a pixel has the object's value or nothing")
            cut = lim if lim is not None else a*F(1, 1000)
            if rmax is None or r < rmax: C.check(C.implies(mag > cut*(1+F(1, 10**4)), full), "nothing above the cutoff is left out")

@case(params=["max", "min", "add"], budget=(60, 300))
def combine(C, op):
    """objects are combined with each other and the map by adding, or by keeping the largest or smallest value"""
    C.ext("srcsim"); np, ps = C.np, C.px.pointsrcs
    k = 0; sh, w, pos = geo(C, k); unit = D
    rs, vs = [0, 1.1*unit, 2.3*unit], [1, 0.5, 0.2]
    objs = [at(k, *OBJS[k][i]) for i in range(2)]
    amps = amp(C, "a", (2,))
    free = {(1, 2): C.real("p", -3, 3), (3, 0): C.real("q", -3, 3), (0, 4): C.real("r", -3, 3)}
    base = C.arr([[free.get((i, j), 0.3*i-0.5*j+0.2) for j in range(sh[1])] for i in range(sh[0])])
    if op != "add": amps = C.arr([2.5, C.choice("second", [-1.5, 1.5, 3.0])])
    m = C.px.enmap.ndmap(C.astype(C.arr(base), np.float32), w)
    form = C.choice("form", ["sim_objects", "sim_srcs"])
    if form == "sim_objects": o = ps.sim_objects(sh, w, arrpos(C, objs), amps, C.arr([rs, vs]), omap=m, vmin=F(1, 10**9), op=op)
    else: o = ps.sim_srcs(sh, w, C.arr([[p[0], p[1], amps[i]] for i, p in enumerate(objs)]), C.arr([rs, vs]), omap=m, vmin=F(1, 10**9), op=op)
    for i in range(sh[0]):
        for j in range(sh[1]):
            dd = [dist(pos[i][j], q) for q in objs]
            if not all(clear(rs, r) for r in dd): continue
            v = [base[i, j]]+[amps[q]*prof(C, rs, vs, r) for q, r in enumerate(dd)]
            if op == "add": C.eq(o[i, j], sum(v), "sum", tol=F(1, 1000))
            else:
                x = v[0]
                for y in v[1:]: x = C.ite(y > x, y, x) if op == "max" else C.ite(y < x, y, x)
                C.eq(o[i, j], x, "largest" if op == "max" else "smallest", tol=F(1, 1000))

@case(budget=(60, 300))
def profiles(C):
    """each object gets its own profile, and no other"""
    C.ext("srcsim"); np, ps = C.np, C.px.pointsrcs
    k = C.choice("geo", [0, 3]); sh, w, pos = geo(C, k); unit = D
    P = [([0, 1.1*unit, 2.3*unit], C.data("u", (3,), F(1, 4), 2)), ([0, 0.6*unit, 0.9*unit, 3.3*unit], C.data("v", (4,), F(1, 4), 2))]
    ids = C.choice("ids", [(0, 1), (1, 0), (1, 1), (0, 0)])
    objs = [at(k, *OBJS[k][i]) for i in range(2)]; amps = amp(C, "a", (2,))
    o = ps.sim_objects(sh, w, arrpos(C, objs), amps, [C.arr([C.arr(p[0]), p[1]]) for p in P], prof_ids=C.np.array(ids), vmin=F(1, 10**9))
    for i in range(sh[0]):
        for j in range(sh[1]):
            dd = [dist(pos[i][j], q) for q in objs]
            if not all(clear(P[ids[q]][0], r) for q, r in enumerate(dd)): continue
            C.eq(o[i, j], sum(amps[q]*prof(C, *P[ids[q]], r) for q, r in enumerate(dd)), "pixel value", tol=F(1, 1000))

@case(params=list(range(len(GEOS))), budget=(60, 300))
def transposed(C, k):
    """the transposed operation adds to each object's amplitude the sum of the map times its profile: the adjoint of painting"""
    C.ext("srcsim"); np, ps = C.np, C.px.pointsrcs
    sh, w, pos = geo(C, k); unit = abs(GEOS[k][3][1])*D
    rs = [0, 0.55*unit, 1.7*unit, 2.6*unit]; vs = C.data("v", (4,), F(1, 4), 2)
    nobj = 2; objs = [at(k, *OBJS[k][i]) for i in (0, 1)]
    base = C.data("m", (2,)+sh, -5, 5); a0 = C.data("a", (2, nobj), F(1, 2), 2)
    amps = np.ascontiguousarray(C.astype(C.arr(a0), np.float32)) if not C.sym else C.astype(C.arr(a0), np.float32)
    m = C.px.enmap.ndmap(C.astype(C.arr(base), np.float32), w)
    if not all(clear(rs, dist(p, q)) for row in pos for p in row for q in objs): return
    ps.sim_objects(sh, w, arrpos(C, objs), amps, C.arr([C.arr(rs), vs]), omap=m, vmin=F(1, 10**9), transpose=True)
    C.eq(m, base, "map unchanged")
    for q in range(nobj):
        for c in range(2):
            C.eq(amps[c, q], a0[c, q]+sum(base[c, i, j]*prof(C, rs, vs, dist(pos[i][j], objs[q])) for i in range(sh[0]) for j in range(sh[1])), "amplitude", tol=F(1, 100))

BINS = {"equi": [0, 0.9, 1.8, 2.7, 3.6], "steps": [0, 0.8, 2.1, 2.9], "hole": [0.7, 1.5, 2.6], "wide": [0, 3, 9, 30]}
@case(params=[(k, n) for k in range(len(GEOS)) for n in BINS], budget=(60, 300))
def rbins(C, k, bname):
    """radial_sum adds up, for each object and bin, exactly the pixels at distances in that bin, each once; radial_bin is the weighted mean"""
    C.ext("srcsim"); np, ps = C.np, C.px.pointsrcs
    sh, w, pos = geo(C, k); unit = abs(GEOS[k][3][1])*D
    bins = [v*unit for v in BINS[bname]]; nb = len(bins)-1
    nobj, nc, dt, turn, sep = C.choice("form", [(1, None, "f4", 0, "auto"), (2, 2, "f4", 1, False), (3, None, "f8", 0, "auto")])
    objs = [at(k, *OBJS[k][i]) for i in range(nobj)]; objs = [(d, r+2*math.pi*turn) for d, r in objs]
    base = C.data("m", ((nc,) if nc else ())+sh, -5, 5)
    m = C.px.enmap.ndmap(C.astype(C.arr(base), np.float32 if dt == "f4" else np.float64), w)
    o = ps.radial_sum(m, arrpos(C, objs), C.arr(bins), separable=sep)
    C.same(tuple(o.shape), (nobj,)+((nc,) if nc else ())+(nb,), "shape"); C.eq(m, base, "map unchanged")
    O = o.reshape(nobj, nc or 1, nb); B = C.arr(base).reshape((nc or 1,)+sh)
    cnt = {}
    for q in range(nobj):
        for b in range(nb):
            pix = [(i, j, dist(pos[i][j], objs[q])) for i in range(sh[0]) for j in range(sh[1])]
            cnt[q, b] = [(i, j) for i, j, r in pix if bins[b] <= r < bins[b+1]]
            if not all(clear(bins, r) for i, j, r in pix): cnt[q, b] = None; continue
            for c in range(nc or 1): C.eq(O[q, c, b], sum(B[c, i, j] for i, j in cnt[q, b]), "sum over the bin's pixels", tol=F(1, 1000))
    if nc: return
    wt = C.data("w", sh, 1, 2) if C.choice("weights", [False, True]) else None
    full = all(v for v in cnt.values())
    if not full: return
    o = ps.radial_bin(m, arrpos(C, objs), C.arr(bins), weights=None if wt is None else C.px.enmap.ndmap(C.astype(C.arr(wt), np.float32 if dt == "f4" else np.float64), w))
    for q in range(nobj):
        for b in range(nb):
            if wt is None: C.eq(o[q, b]*len(cnt[q, b]), sum(base[i, j] for i, j in cnt[q, b]), "mean", tol=F(1, 1000))
            else: C.eq(o[q, b]*sum(wt[i, j] for i, j in cnt[q, b]), sum(base[i, j]*wt[i, j] for i, j in cnt[q, b]), "weighted mean", tol=F(1, 1000))

@case(params=["c", "python"], budget=(60, 300))
def srcs(C, method):
    """sim_srcs: the catalogue's rows are position and amplitudes, painted with the beam up to nsigma"""
    C.ext("srcsim"); np, ps = C.np, C.px.pointsrcs
    k = C.choice("geo", [0, 3] if method == "c" else [0, 1, 3]); sh, w, pos = geo(C, k); unit = abs(GEOS[k][3][1])*D
    step = 0.45*unit; rs = [i*step for i in range(6)]; vs = [1, 0.7, 0.3, 0.1, 0.02, 0.001]
    objs = [at(k, *OBJS[k][i]) for i in range(2)]
    nc = C.choice("nc", [1, 2]); amps = C.data("a", (2, nc), F(1, 2), 4); given = C.choice("given", [False, True])
    base = C.data("m", (nc,)+sh, -5, 5)
    cat = C.arr([[p[0], p[1]]+[amps[i, c] for c in range(nc)] for i, p in enumerate(objs)])
    m = C.px.enmap.ndmap(C.astype(C.arr(base), np.float32 if method == "c" else np.float64), w) if given else None
    o = ps.sim_srcs((nc,)+sh, w, cat, C.arr([rs, vs]), omap=m, method=method)
    for i in range(sh[0]):
        for j in range(sh[1]):
            dd = [dist(pos[i][j], q) for q in objs]
            if not all(clear(rs, r) for r in dd): continue
            for c in range(nc): C.eq(o[c, i, j], (base[c, i, j] if given else 0)+sum(amps[q, c]*prof(C, rs, vs, r) for q, r in enumerate(dd)), "pixel value", tol=F(2, 1000))
