from .common import *
import itertools
PRELOAD = ["utils", "coordinates"]
BOUNDS = "angles of up to several turns (sequences of up to 4, 5 thorough, in up to 2 dimensions), periods 1/4..8 or 2 pi, any rotation angles, catalogues of up to 3 x 2 objects, polygons of 3-4 corners, up to 5 polynomials"
ASSUMPTIONS = ["sine and cosine are real functions with sin^2+cos^2=1 and the exact symmetries under quarter turns; arctan2, arcsin and arccos are their inverses; positions exactly at a pole or on a polygon's edge are not claimed"]
S9 = F(1, 10**9)

def trig(C, v): return C.np.cos(v), C.np.sin(v)

@case(params=["scalar", "array", "auto"], budget=(20, 60))
def rewind(C, what):
    """rewind moves every angle by whole periods to within half a period of the reference"""
    u = C.px.utils
    per = C.choice("per", ["sym", "2pi"])
    P = C.real("P", F(1, 4), 8) if per == "sym" else 2*C.pi
    kw = {} if per == "2pi" else {"period": P}
    n = 1 if what == "scalar" else 3
    a = [C.real("a%d" % i, -20, 20) for i in range(n)]
    if what == "auto":
        C.assume(a[0] <= a[1], a[1] <= a[2]); ref = a[1]
        a = [a[i] for i in C.choice("ord", [(0, 1, 2), (2, 0, 1), (1, 2, 0)])]
        r = u.rewind(C.arr(a), ref="auto", **kw)
    else:
        ref = C.real("ref", -10, 10)
        r = u.rewind(a[0] if what == "scalar" else C.arr(a), ref, **kw)
    if what == "scalar": r = [r]
    for v, o in zip(a, r):
        C.eqmod(o, v, P, "same angle")
        C.check(C.and_(o >= ref-P/2-S9, o <= ref+P/2+S9), "within half a period of the reference")
    if what == "scalar":
        z = u.rewind(a[0]) if per == "2pi" else u.rewind(a[0], period=P)
        C.eqmod(z, a[0], P, "default reference")
        C.check(C.and_(z >= -P/2-S9, z <= P/2+S9), "default reference is 0")

@case(params=["left", "middle"], budget=(40, 200))
def unwind(C, mode):
    """unwind removes jumps: same angles modulo the period, no step longer than half a period, the reference point stays"""
    u = C.px.utils; np = C.np
    n = C.choice("n", C.q([1, 2, 3, 5], [1, 2, 3, 4, 5, 6])); P = C.choice("P", [2*C.pi, 1]) if n < 4 else 1
    kw = {"refmode": mode, "period": P} if mode == "middle" or not bool(P == 2*C.pi) else {}
    ref = C.real("ref", -5, 5)
    lay = C.choice("lay", ["1d", "rows", "cols"]) if n < 4 else "rows"
    nrow = 1 if lay == "1d" else 2 if n < 3 else 1
    a = [[C.real("a%d_%d" % (j, i), -5, 5) for i in range(n)] for j in range(nrow)]
    if lay == "1d": r = [u.unwind(C.arr(a[0]), ref=ref, **kw)]
    elif lay == "rows": r = u.unwind(C.arr(a), ref=ref, **kw)
    else: r = np.array(u.unwind(C.arr(a).T, axes=[0], ref=ref, **kw)).T
    i0 = 0 if mode == "left" else n//2
    for j in range(nrow):
        for i in range(n): C.eqmod(r[j][i], a[j][i], P, "same angle")
        for i in range(n-1): C.check(abs(r[j][i+1]-r[j][i]) <= P/2+S9, "no jump")
        C.check(abs(r[j][i0]-ref) <= P/2+S9, "the reference sample stays within half a period of ref")
    C.eq(u.unwind(a[0][0]), a[0][0], "a single number is left alone")

@case(budget=(20, 60))
def ranges(C):
    """between_angles: in the half-open range modulo the period; hasoff: distance from an integer offset"""
    u = C.px.utils
    P = C.choice("P", [2*C.pi, 360, 1])
    a, lo, w = C.real("a", -2, 2)*P, C.real("lo", -1, 1)*P, C.real("w", 0, 1)*P
    C.assume(w < P, w > 0)
    hi = lo+w
    inside = [C.and_(a+k*P >= lo, a+k*P < hi) for k in range(-5, 6)]
    near = C.or_(*[C.or_(abs(a+k*P-lo) <= S9, abs(a+k*P-hi) <= S9) for k in range(-5, 6)])
    if bool(near): return
    r = u.between_angles(C.arr([a]), [lo, hi], period=P)[0]
    want = C.or_(*inside)
    C.check(C.and_(C.implies(r, want), C.implies(want, r)), "inside the range")
    v, off, tol = C.real("v", -3, 3), C.real("off", -2, 2), C.real("tol", F(1, 1000), F(2, 5))
    d = [abs(v-off-k) for k in range(-6, 7)]
    if bool(C.or_(*[abs(x-tol) <= S9 for x in d])): return
    h = u.hasoff(v, off, tol)
    want = C.or_(*[x < tol for x in d])
    C.check(C.and_(C.implies(h, want), C.implies(want, h)), "hasoff")

@case(budget=(20, 60))
def poles(C):
    """pole_wrap: the same point with latitude between the poles"""
    u = C.px.utils; np = C.np
    pts = []
    for i in range(2):
        k = C.pick("k%d" % i, -2, 2)
        x = C.real("x%d" % i, -C.pi/2, C.pi/2); C.assume(x > -C.pi/2+S9, x < C.pi/2-S9)
        pts.append((k, x, C.real("l%d" % i, -7, 7)))
    pos = C.arr([[x+k*C.pi for k, x, l in pts], [l for k, x, l in pts]]); keep = np.array(pos)
    r = u.pole_wrap(pos)
    for i, (k, x, l) in enumerate(pts):
        C.eq(r[0, i], x if k % 2 == 0 else -x, "latitude")
        C.eqmod(r[1, i], l if k % 2 == 0 else l+C.pi, 2*C.pi, "longitude")
    C.eq(pos, keep, "the input is left alone")

@case(params=[False, True], budget=(30, 120))
def rect(C, zen):
    """ang2rect gives the unit vector; rect2ang its angles; both along any axis"""
    u = C.px.utils; np = C.np
    phi, th = C.real("phi", -3, 3), C.real("th", F(1, 100), F(3, 2)) if zen else C.real("th", -F(3, 2), F(3, 2))
    axis = C.choice("axis", [0, 1, -1])
    cp, sp = trig(C, phi); ct, st = trig(C, th)
    v = [st*cp, st*sp, ct] if zen else [ct*cp, ct*sp, st]
    C.assume((st if zen else ct) > 0)
    ang = C.arr([[phi, 0.5], [th, 0.25]])
    if axis != 0: ang = ang.T
    r = u.ang2rect(ang, zenith=zen, axis=axis)
    C.same(tuple(r.shape), (3, 2) if axis == 0 else (2, 3), "shape")
    q = r if axis == 0 else r.T
    for i in range(3): C.eq(q[i, 0], v[i], "unit vector")
    L = C.real("L", F(1, 4), 4)
    b, rr = u.rect2ang(r*L, zenith=zen, axis=axis, return_r=True)
    C.same(tuple(b.shape), tuple(ang.shape), "shape back")
    C.eq(b, u.rect2ang(r*L, zenith=zen, axis=axis), "with and without the radius")
    b = b if axis == 0 else b.T
    c2, s2 = trig(C, b[0, 0]); c3, s3 = trig(C, b[1, 0])
    C.eq(c2, cp, "cos phi"); C.eq(s2, sp, "sin phi"); C.eq(c3, ct, "cos theta"); C.eq(s3, st, "sin theta")
    C.check(C.and_(b[0, 0] >= -C.pi-S9, b[0, 0] <= C.pi+S9), "range of phi")
    if zen: C.check(C.and_(b[1, 0] >= -S9, b[1, 0] <= C.pi+S9), "range of theta")
    else: C.check(C.and_(b[1, 0] >= -C.pi/2-S9, b[1, 0] <= C.pi/2+S9), "range of theta")

@case(params=[False, True], budget=(30, 120))
def angdist(C, zen):
    """angular distances: arccos of the dot product of the unit vectors, between 0 and pi"""
    u = C.px.utils; np = C.np
    a = [C.real("a0", -7, 7), C.real("a1", -F(3, 2), F(3, 2))]; b = [C.real("b0", -7, 7), C.real("b1", -F(3, 2), F(3, 2))]
    axis = C.choice("axis", [0, -1])
    A, B = C.arr([[a[0], b[0]], [a[1], b[1]]]), C.arr([b[0], b[1]])
    d = u.angdist(A, B[:, None], zenith=zen) if axis == 0 else u.angdist(A.T, B, zenith=zen, axis=-1)
    C.same(tuple(d.shape), (2,), "shape")
    cd = np.cos(a[0]-b[0]); ca, sa = trig(C, a[1]); cb, sb = trig(C, b[1])
    dot = ca*cb+sa*sb*cd if zen else sa*sb+ca*cb*cd
    C.eq(np.cos(d[0]), dot, "cosine of the distance")
    C.check(C.and_(d[0] >= 0, d[0] <= C.pi+S9), "range")
    C.eq(np.cos(d[1]), 1, "no distance to itself")
    C.eq(u.angdist(a, b, zenith=zen), d[0], "scalars")

@case(budget=(40, 200), check_ms=30000)
def vecdist(C):
    """vec_angdist: cosine is the normalized dot product; chords"""
    u = C.px.utils; np = C.np
    m = C.choice("m", [2, 3])
    v, w = [C.real("v%d" % i, -3, 3) for i in range(m)], [C.real("w%d" % i, -3, 3) for i in range(m)]
    v = [C.choice("sg", [1, -1])*C.real("vx", F(1, 8), 3)]+[0.0]*(m-1)      # the first along an axis
    d2 = lambda x, y: sum(p*q for p, q in zip(x, y))
    C.assume(d2(v, v) >= F(1, 100), d2(w, w) >= F(1, 100))
    vw, vv, ww = d2(v, w), d2(v, v), d2(w, w)
    C.assume(vw*vw <= vv*ww*F(99, 100)); C.feasible()
    ang = u.vec_angdist(C.arr(v), C.arr(w))
    t = np.tan(ang/2)
    ab = np.sqrt(vv)*np.sqrt(ww)
    C.eq(t*t*(ab+vw), ab-vw, "tangent of half the angle")
    C.check(C.and_(ang >= 0, ang <= C.pi+S9), "range")
    x = C.real("x", 0, 3)
    C.eq(u.ang2chord(x), 2*np.sin(x/2), "chord")
    y = C.real("y", 0, F(19, 10))
    C.eq(np.sin(u.chord2ang(y)/2), y/2, "angle of a chord")

@case(budget=(20, 60))
def rotmat(C):
    """rotmatrix rotates by the angle around the axis, right-handed, with the matrix axes where asked"""
    u = C.px.utils; np = C.np
    a, b = C.real("a", -7, 7), C.real("b", -7, 7)
    ax = C.choice("ax", [(0, "x", "X"), (1, "y", "Y"), (2, "z", "Z")])
    name = ax[C.pick("nm", 0, 2)]; k = ax[0]
    def want(t):
        c, s = trig(C, t)
        M = [[0]*3 for _ in range(3)]
        i, j = (k+1) % 3, (k+2) % 3
        M[k][k] = 1; M[i][i] = M[j][j] = c; M[j][i] = s; M[i][j] = -s
        return C.arr(M)
    C.eq(u.rotmatrix(a, name), want(a), "scalar angle")
    r = u.rotmatrix(C.arr([a, b]), name)
    C.same(tuple(r.shape), (2, 3, 3), "shape"); C.eq(r[0], want(a), "first"); C.eq(r[1], want(b), "second")
    r = u.rotmatrix(C.arr([a, b]), name, axis=0)
    C.same(tuple(r.shape), (3, 3, 2), "shape, axis 0"); C.eq(r[:, :, 0], want(a), "first, axis 0"); C.eq(r[:, :, 1], want(b), "second, axis 0")
    r = u.rotmatrix(C.arr([[a], [b]]), name, axis=1)
    C.same(tuple(r.shape), (2, 3, 3, 1), "shape, axis 1"); C.eq(r[1, :, :, 0], want(b), "second, axis 1")
    C.raises(ValueError, lambda: u.rotmatrix(a, "w"), "unknown axis")

def R(C, t, k):
    c, s = trig(C, t)
    M = [[0]*3 for _ in range(3)]
    i, j = (k+1) % 3, (k+2) % 3
    M[k][k] = 1; M[i][i] = M[j][j] = c; M[j][i] = s; M[i][j] = -s
    return M
def mm(A, B): return [[sum(A[i][k]*B[k][j] for k in range(3)) for j in range(len(B[0]))] for i in range(3)]
def unit(C, ra, dec):
    cr, sr = trig(C, ra); cd, sd = trig(C, dec)
    return [[cd*cr], [cd*sr], [sd]]
def samedir(C, out, v, label):
    """out = [ra,dec] points along the unit vector v"""
    # cos(dec) * (cos ra, sin ra), sin(dec)
    cr, sr = trig(C, out[0]); cd, sd = trig(C, out[1])
    C.eq(sd, v[2][0], label+": z"); C.eq(cd*cr, v[0][0], label+": x"); C.eq(cd*sr, v[1][0], label+": y")

@case(params=["mat", "rot"], budget=(40, 200), check_ms=30000)
def euler(C, what):
    """euler_mat is the product of the three rotations; euler_rot rotates positions by it"""
    c = C.px.coordinates; np = C.np
    ang = [C.real("e%d" % i, -7, 7) for i in range(3)]
    kind = C.choice("kind", ["zyz", "zxz", "xyz", "default"])
    kk = "zyz" if kind == "default" else kind
    if what == "rot" and C.tier == "quick": ang[2] = 0.0
    M = mm(mm(R(C, ang[0], "xyz".index(kk[0])), R(C, ang[1], "xyz".index(kk[1]))), R(C, ang[2], "xyz".index(kk[2])))
    kw = {} if kind == "default" else {"kind": kind}
    if what == "mat":
        C.eq(c.euler_mat(ang, **kw), C.arr(M), "matrix"); return
    ra, dec = C.real("ra", -7, 7), C.real("dec", -F(3, 2), F(3, 2))
    v = mm(M, unit(C, ra, dec))
    C.assume(v[0][0]*v[0][0]+v[1][0]*v[1][0] >= F(1, 1000))
    o = c.euler_rot(ang, C.arr([[ra, 0.1], [dec, 0.2]]), **kw)
    C.same(tuple(o.shape), (2, 2), "shape")
    samedir(C, o[:, 0], v, "rotated position")

@case(params=["recenter", "decenter"], budget=(40, 200), check_ms=30000)
def centers(C, what):
    """recenter moves the centre to the pole (or the given position); decenter is the opposite rotation"""
    c = C.px.coordinates; np = C.np
    ra0, dec0 = C.real("ra0", -3, 3), C.real("dec0", -F(3, 2), F(3, 2))
    full = C.choice("form", ["pole", "to", "restore"])
    ra1, dec1 = (C.real("ra1", -3, 3), C.real("dec1", -F(3, 2), F(3, 2))) if full == "to" else (0, C.pi/2)
    center = [ra0, dec0] if full != "to" else [ra0, dec0, ra1, dec1]
    if full == "restore": ra1 = ra0
    ra, dec = C.real("ra", -3, 3), C.real("dec", -F(3, 2), F(3, 2))
    kw = {"restore": True} if full == "restore" else {}
    # rotation that takes (ra0,dec0) to (ra1,dec1) along the meridian
    if what == "recenter": M = mm(mm(R(C, ra1, 2), R(C, dec0-dec1, 1)), R(C, -ra0, 2))
    else: M = mm(mm(R(C, ra0, 2), R(C, dec1-dec0, 1)), R(C, -ra1, 2))
    v = mm(M, unit(C, ra, dec))
    C.assume(v[0][0]*v[0][0]+v[1][0]*v[1][0] >= F(1, 1000))
    o = getattr(c, what)(C.arr([[ra], [dec]]), center, **kw)
    samedir(C, o[:, 0], v, what)
    if full != "to":
        w = mm(R(C, dec0-C.pi/2, 1), mm(R(C, -ra0, 2), unit(C, ra0, dec0)))
        C.eq(w[2][0], 1, "the centre goes to the pole")

@case(params=["tele", "bore"], budget=(40, 200), check_ms=30000)
def systems(C, what):
    """telescope and boresight coordinates: the documented rotations, each the inverse of the other"""
    c = C.px.coordinates; np = C.np
    ra, dec = C.real("ra", -3, 3), C.real("dec", -F(3, 2), F(3, 2))
    pos = C.arr([[ra], [dec]])
    if what == "tele":
        class site(c.default_site): base_az, base_tilt = C.real("az", -180, 180), C.real("tilt", -45, 45)
        az, t = site.base_az*C.pi/180, site.base_tilt*C.pi/180
        fwd = C.choice("dir", [True, False])
        frm, to, s = ("tele", "hor", 1) if fwd else ("hor", "tele", -1)
        M = mm(mm(R(C, az, 2), R(C, s*t, 1)), R(C, -az, 2))
        args = dict(time=None, site=site)
    else:
        ba, bd = C.real("ba", -3, 3), C.real("bd", -F(3, 2), F(3, 2))
        fwd = C.choice("dir", [True, False])
        frm, to = ("tele", "bore") if fwd else ("bore", "tele")
        M = mm(R(C, bd-C.pi/2, 1), R(C, -ba, 2)) if fwd else mm(R(C, ba, 2), R(C, C.pi/2-bd, 1))
        args = dict(time=None, bore=C.arr([ba, bd]))
    v = mm(M, unit(C, ra, dec))
    C.assume(v[0][0]*v[0][0]+v[1][0]*v[1][0] >= F(1, 1000))
    o = c.transform_raw(frm, to, pos, **args)
    samedir(C, o[:, 0], v, frm+" to "+to)
    C.eq(pos[0, 0], ra, "the input is left alone")
    C.eq(c.transform_raw(frm, frm, pos, **args), pos, "no change of system")

@case(budget=(20, 60))
def sexa(C):
    """to_sexa: degrees, minutes and seconds in range that add up to the angle again"""
    u = C.px.utils
    b = C.q(2, 12); x = C.real("x", -b, b)
    for form in ("scalar", "array"):
        s, d, m, sec = u.to_sexa(x) if form == "scalar" else [v[0] for v in u.to_sexa(C.arr([x, 1.5]))]
        C.check(C.or_(s == 1, s == -1), form+": sign")
        C.check(C.and_(d >= 0, m >= 0, m < 60, sec >= 0, sec < 60), form+": ranges")
        C.check(C.and_(d == C.floor(d), m == C.floor(m)), form+": whole degrees and minutes")
        C.eq(s*(d+m/60+sec/3600), x, form+": adds up"); C.eq(u.from_sexa(s, d, m, sec), x, form+": from_sexa")
        C.check(C.implies(x < 0, s == -1), form+": negative"); C.check(C.implies(x > 0, s == 1), form+": positive")

@case(budget=(10, 30))
def times(C):
    """time scales: the documented epochs, and inverses of each other"""
    u = C.px.utils
    t = C.real("t", 0, 4*10**9)
    mjd = t/86400+40587
    C.eq(u.ctime2mjd(t), mjd, "mjd"); C.eq(u.mjd2ctime(mjd), t, "mjd back", tol=1e-3)
    C.eq(u.ctime2jd(t), mjd+C.rat(4800001, 2), "jd"); C.eq(u.jd2ctime(mjd+C.rat(4800001, 2)), t, "jd back", tol=1e-3)
    C.eq(u.ctime2djd(t), mjd+C.rat(4800001, 2)-2415020, "djd"); C.eq(u.djd2ctime(mjd+C.rat(4800001, 2)-2415020), t, "djd back", tol=1e-3)
    C.eq(u.mjd2jd(C.arr([mjd, 5.0])), C.arr([mjd+C.rat(4800001, 2), 5+C.rat(4800001, 2)]), "mjd to jd")
    C.eq(u.jd2mjd(u.mjd2jd(mjd)), mjd, "jd to mjd"); C.eq(u.djd2mjd(u.mjd2djd(mjd)), mjd, "djd to mjd")

@case(params=["cartesian", "radec", "phitheta"], budget=(60, 200), max_paths=(600, 3000))
def crossmatch(C, kind):
    """crossmatch finds all pairs within the distance; closest and first keep each object once, best pairs first"""
    u = C.px.utils; np = C.np
    mode = C.choice("mode", ["all", "closest", "first"])
    n1, n2 = C.choice("n", C.q([(2, 2), (0, 2)], [(2, 2), (3, 2), (0, 1)]) if kind == "cartesian" else [(1, 2), (2, 1)])
    nd = C.choice("nd", C.q([1], [1, 2])) if kind == "cartesian" else 2
    if kind == "cartesian":
        p1 = [[C.real("p%d%d" % (i, k), -4, 4) for k in range(nd)] for i in range(n1)]; p2 = [[C.real("q%d%d" % (i, k), -4, 4) for k in range(nd)] for i in range(n2)]
        if C.tier == "quick": p2[0] = [0.5]*nd
        r = C.real("r", F(1, 10), 6); lim = r*r
        D = [[sum((a-b)*(a-b) for a, b in zip(x, y)) for y in p2] for x in p1]
    else:
        # one object at the origin, the others along its meridian
        p1 = [[0.25, 0.0]] if n1 == 1 else [[0.25, C.real("p%d" % i, F(1, 10), F(3, 2))] for i in range(n1)]
        p2 = [[0.25, 0.0]] if n2 == 1 else [[0.25, C.real("q%d" % i, F(1, 10), F(3, 2))] for i in range(n2)]
        r = C.real("r", F(1, 10), 3); lim = 4*np.sin(r/2)*np.sin(r/2)
        C.assume(np.sin(r/2) > 0)
        D = [[2-2*np.cos(x[1]-y[1]) for y in p2] for x in p1]
    allp = [(i, j) for i in range(n1) for j in range(n2)]
    for i, j in allp: C.assume(C.not_(abs(D[i][j]-lim) <= S9))
    for (i, j), (k, l) in itertools.combinations(allp, 2): C.assume(C.not_(abs(D[i][j]-D[k][l]) <= S9))
    C.feasible()
    A = C.arr(p1) if n1 else np.zeros((0, nd))
    kw = {} if (kind, nd) in (("radec", 2), ("cartesian", 3)) else {"coords": kind}
    res = u.crossmatch(A, C.arr(p2), r, mode=mode, **kw) if mode != "closest" else u.crossmatch(A, C.arr(p2), r, **kw)
    res = [(int(i), int(j)) for i, j in res]
    close = {q: bool(D[q[0]][q[1]] <= lim) for q in allp}
    good = [q for q in allp if close[q]]
    if mode == "all": C.same(sorted(res), sorted(good), "all close pairs"); return
    if mode == "closest":
        for a in range(len(good)):
            for b in range(len(good)-1-a):
                x, y = good[b], good[b+1]
                if bool(D[x[0]][x[1]] > D[y[0]][y[1]]): good[b], good[b+1] = y, x
    want, s1, s2 = [], set(), set()
    for i, j in good:
        if i in s1 or j in s2: continue
        s1.add(i); s2.add(j); want.append((i, j))
    C.same(sorted(res), sorted(want), mode)

@case(params=[3, 4], budget=(60, 200), check_ms=20000)
def polygon(C, nv):
    """point_in_polygon: inside means an odd number of crossings, for any polygon"""
    u = C.px.utils; np = C.np
    V = [[C.real("v%d%d" % (i, k), -3, 3) for k in range(2)] for i in range(nv)]
    if nv == 4 and C.tier == "quick":
        # any fourth corner, any point
        V[:3] = C.choice("quad", [[[0.0, 0.0], [2.0, 0.5], [1.0, 2.0]], [[0.0, 0.0], [1.0, -1.0], [-1.0, 0.0]]])
    elif C.tier == "quick": V[0] = [0.0, 0.0]
    p = [C.real("p0", -3, 3), C.real("p1", -3, 3)]
    cr = lambda a, b: (b[0]-a[0])*(p[1]-a[1])-(b[1]-a[1])*(p[0]-a[0])
    s = [cr(V[i-1], V[i]) for i in range(nv)]
    for x in s: C.assume(C.not_(abs(x) <= F(1, 10**6)))
    C.feasible()
    r = u.point_in_polygon(C.arr([p, [50.0, 60.0]]), C.arr(V))
    C.same(tuple(r.shape), (2,), "shape")
    # crossings of a ray towards +x: the edge straddles the point's y, and the point is on its left going up
    n = 0
    for i in range(nv):
        a, b = V[i-1], V[i]
        up = C.and_(a[1] < p[1], b[1] >= p[1], s[i] > 0); dn = C.and_(a[1] >= p[1], b[1] < p[1], s[i] < 0)
        n = n+C.ite(C.or_(up, dn), 1, 0)
    odd = C.or_(*[n == k for k in range(1, nv+1, 2)])
    C.check(C.and_(C.implies(r[0], odd), C.implies(odd, r[0])), "inside")
    C.check(C.not_(r[1]), "a far away point is outside")
    if nv == 3:
        conv = C.or_(C.and_(*[x > 0 for x in s]), C.and_(*[x < 0 for x in s]))
        C.check(C.and_(C.implies(r[0], conv), C.implies(conv, r[0])), "inside the triangle")

@case(params=["triangle", "legendre", "cossin"], budget=(30, 60))
def bases(C, what):
    """triangle_wave, build_legendre, build_cossin"""
    u = C.px.utils; np = C.np
    if what == "triangle":
        x, P = C.real("x", -5, 5), C.choice("P", [1, 4, 2*C.pi])
        k = C.pick("k", -6, 6); f = x-k*P
        C.assume(f >= 0, f < P); C.feasible()
        q = 4*f/P
        C.eq(u.triangle_wave(C.arr([x]), P)[0], C.ite(q < 1, q, C.ite(q < 3, 2-q, q-4)), "wave")
        if C.choice("dp", [False, True]) and k == 0: C.eq(u.triangle_wave(C.arr([x]))[0], u.triangle_wave(C.arr([x]), 1)[0], "default period")
        return
    n = C.pick("n", 0, C.q(5, 7))
    if what == "legendre":
        lo, w, t = C.real("lo", -3, 3), C.choice("w", [1, 2, 3]), C.real("t", 0, 1)
        r = u.build_legendre(C.arr([lo+w, lo+w*t, lo]), n)
        C.same(tuple(r.shape), (n, 3), "shape")
        z = 2*t-1
        want = [1, z, (3*z*z-1)/2, (5*z*z*z-3*z)/2, (35*z**4-30*z*z+3)/8, (63*z**5-70*z**3+15*z)/8, (231*z**6-315*z**4+105*z*z-5)/16]
        for i in range(n):
            C.eq(r[i, 1], want[i], "polynomial"); C.eq(r[i, 0], 1, "at the upper end"); C.eq(r[i, 2], (-1)**i, "at the lower end")
    else:
        x = C.real("x", -7, 7); c, s = trig(C, x)
        r = u.build_cossin(C.arr([x, 0.5]), n)
        C.same(tuple(r.shape), (n, 2), "shape")
        cs = [(1, 0)]
        for i in range(4): cs.append((cs[-1][0]*c-cs[-1][1]*s, cs[-1][0]*s+cs[-1][1]*c))
        for i in range(n): C.eq(r[i, 0], cs[i//2+1][1 if i % 2 == 0 else 0], "sine" if i % 2 == 0 else "cosine")
