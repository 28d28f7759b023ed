from .common import *
from . import sphere as Y
from . import p12
import math, itertools, cmath
PRELOAD = ["enmap", "curvedsky", "lensing", "aberration", "coordinates"]
BOUNDS = "great-circle displacements of the listed sizes (0.01-0.3 rad) and directions at the listed declinations (including past a pole) and any right ascension; the fast method for any position and any displacement up to 3 rad; lensing potentials and geometries as listed, coefficients up to lmax 2 with any value in -1..1; boosts with the listed speeds and directions on maps, any direction cosine pointwise where the case says so; any map contents and modulation"
ASSUMPTIONS = ["sines, cosines, exponentials and logarithms are uninterpreted functions with their identities; ducc0's transforms and get_deflected_angles are taken from ducc0 at concrete positions; the Fortran interpolation behind lens_map, delens_map and displace_map is not covered"]
EXTS = ["cmisc"]
TOL = F(1, 10**5)

DIRS = [(F(3, 5), F(4, 5)), (F(-3, 5), F(4, 5)), (F(4, 5), F(-3, 5)), (1, 0), (0, -1), (F(-5, 13), F(-12, 13))]
@case(params=["ahead", "past", "rotation"], budget=(60, 300), check_ms=20000)
def offset(C, what):
    """offset_by_grad follows the great circle: position by displacement, and angle between the directions at its two ends"""
    L, np = C.px.lensing, C.np
    ra = C.real("ra", -4, 4); g = C.choice("dir", DIRS)
    if what == "past": g = (1, 0); dec, d = C.choice("p", [(1.45, 0.2), (1.5, 0.3)])
    else: dec, d = C.choice("p", [(1.2, 0.1), (-0.9, 0.3), (0.0, 0.25), (0.5, 0.01)])
    d *= -1 if C.choice("back", [False, True]) and what != "past" else 1
    pos = C.arr([[dec, F(1, 3)], [ra, F(1, 2)]]); grad = C.arr([[d*float(g[0]), 0.0], [d*float(g[1]), 0.0]])
    p0, g0 = C.arr(pos).copy(), C.arr(grad).copy()
    o = L.offset_by_grad(pos, grad, pol=(what == "rotation"))
    C.same(tuple(o.shape), (3 if what == "rotation" else 2, 2), "shape")
    C.eq(pos, p0, "input unchanged"); C.eq(grad, g0, "input unchanged")
    C.eq(o[0, 1], F(1, 3), "no displacement", tol=1e-9); C.eq(o[1, 1], F(1, 2), "no displacement", tol=1e-9)
    t, r = displaced(dec, 0.0, (d*float(g[0]), d*float(g[1])), True)
    if what == "rotation":
        n, e = float(g[0]), float(g[1])
        n2, e2 = math.cos(d)*math.cos(dec)*n-math.sin(d)*math.sin(dec), math.cos(dec)*e
        a = math.atan2(e, -n)-math.atan2(e2, -n2)
        # (or twice that, see the transport case)
        off = [abs((float(o[2, 0])-k*a+math.pi) % (2*math.pi)-math.pi) for k in (1, 2)]
        C.check(min(off) < 1e-7, "angle between the directions")
        return
    C.eq(o[0, 0], t, "declination", tol=1e-7)
    C.eqmod(o[1, 0]-ra, r, 2*math.pi, "longitude beyond the pole" if what == "past" else "right ascension", tol=1e-7)

@case(budget=(20, 60))
def transport(C):
    """the angle offset_by_grad gives is the one enmap.rotate_pol turns polarization by"""
    L = C.px.lensing
    dec, d, g = C.choice("p", [(1.2, 0.1, (0.6, 0.8)), (0.5, 0.2, (0.0, 1.0)), (-0.9, 0.3, (-0.8, 0.6))])
    o = L.offset_by_grad(C.arr([[dec], [0.4]]), C.arr([[d*g[0]], [d*g[1]]]), pol=True)
    n2 = math.cos(d)*math.cos(dec)*g[0]-math.sin(d)*math.sin(dec); e2 = math.cos(dec)*g[1]
    # angles from south towards east
    want = math.atan2(g[1], -g[0])-math.atan2(e2, -n2)
    q, u = C.real("q", -1, 1), C.real("u", -1, 1)
    m = C.arr([[[q]], [[u]]])
    r = C.px.enmap.rotate_pol(m, o[2].reshape(1, 1))
    C.eq(r[0, 0, 0], q*math.cos(2*want)-u*math.sin(2*want), "polarization is parallel transported", tol=1e-6)
    C.eq(r[1, 0, 0], q*math.sin(2*want)+u*math.cos(2*want), "polarization is parallel transported", tol=1e-6)

@case(budget=(40, 200))
def fast(C):
    """the fast method: displacement in declination and, divided by cos(dec), in right ascension, folded back over the poles; pole_wrap"""
    L, np = C.px.lensing, C.np
    dec, ra = C.real("dec", F(-15, 10), F(15, 10)), C.real("ra", -4, 4)
    a, b = C.real("a", -3, 3), C.real("b", -1, 1)
    C.away(dec+a, C.pi/2); C.away(dec+a, -C.pi/2)
    nin = C.choice("nin", [2, 3]); pol = C.choice("pol", [None, True, False])
    pos = C.arr([[dec, 0], [ra, 0], [F(1, 2), 0]][:nin]); p0 = C.arr(pos).copy()
    o = L.offset_by_grad(pos, C.arr([[a, 0], [b, 0]]), geodesic=False, pol=pol)
    n = 2 if pol is False or pol is None and nin == 2 else 3
    C.same(tuple(o.shape), (n, 2), "shape")
    t = dec+a; r = ra+b/np.cos(dec)
    w = C.px.lensing.pole_wrap(C.arr([[t], [r]]))
    for q in (o, w):
        if bool(t > C.pi/2): C.eq(q[0, 0], C.pi-t, "beyond the north pole"); C.eq(q[1, 0], r+C.pi, "other side")
        elif bool(t < -C.pi/2): C.eq(q[0, 0], -C.pi-t, "beyond the south pole"); C.eq(q[1, 0], r+C.pi, "other side")
        else: C.eq(q[0, 0], t, "declination"); C.eq(q[1, 0], r, "right ascension")
    if n > 2: C.eq(o[2], C.arr([0, 0]), "no rotation")
    C.eq(pos, p0, "input unchanged")

def displaced(dec, ra, g, geodesic):
    """position and rotation angle after displacement by g=(north, east)"""
    d = math.hypot(*g)
    if not geodesic:
        t, r = dec+g[0], ra+g[1]/math.cos(dec)
        if t > math.pi/2: t, r = math.pi-t, r+math.pi
        if t < -math.pi/2: t, r = -math.pi-t, r+math.pi
        return t, r
    n, e = g[0]/d, g[1]/d
    z = math.cos(d)*math.sin(dec)+math.sin(d)*math.cos(dec)*n
    x = math.cos(d)*math.cos(dec)-math.sin(d)*math.sin(dec)*n; y = math.sin(d)*e
    return math.asin(z), ra+math.atan2(y, x)

def gradient(lm, phi, p):
    """(d/ddec, 1/cos(dec) d/dra) of the field with coefficients phi"""
    return [sum(phi[i].real*re+phi[i].imag*im for _, i, re, im in row) for row in Y.row_d(lm, *p)]
PHI = [{(1, 0): 0.02, (1, 1): 0.01-0.015j}, {(2, 1): 0.01+0.004j, (2, 2): -0.006j, (1, 0): 0.005, (2, 0): -0.01}]
def area(C):
    """geometry and positions"""
    sy, sx = C.choice("dirs", [(1, -1), (-1, 1)])
    w = C.wcs("CAR", [17, 0], [sx*120, sy*30], [1, F(5, 2)])
    return (4, 3), w, [[(sy*30*(i-1.5)*math.pi/180, (17+sx*120*j)*math.pi/180) for j in range(3)] for i in range(4)]
@case(params=["T", "TQU", "outputs"], budget=(80, 400))
def curved(C, what):
    """lens_map_curved: every pixel shows the unlensed sky at the displaced position; the other maps it returns are what they say"""
    C.ext("cmisc"); L, np, en = C.px.lensing, C.np, C.px.enmap
    lmax = 2; lm = Y.tri(lmax)
    sh, w, pos = area(C)
    k = C.pick("phi", 0, len(PHI)-1)
    phi = [complex(PHI[k].get(v, 0)) for v in lm]
    spins = [0] if what == "T" else [0, 2]; nc = p12.ncomp(spins)
    alm = p12.coef(C, "a", (nc,), lm) if hasattr(p12, "coef") else None
    if alm is None:
        re, im = C.data("ar", (nc, len(lm)), -1, 1), C.data("ai", (nc, len(lm)), -1, 1)
        for i, (l, m) in enumerate(lm):
            if m == 0: im[:, i] = im[:, i]*0
        alm = re+1j*im
    flatT = what == "T" and C.choice("flat", [True, False])
    geod = C.choice("geodesic", [True, False]) if what != "outputs" else False
    dth = C.choice("band", [None, 0.7]) if what != "TQU" else None
    outs = C.choice("outs", ["lu", "plk", "aul", "pka", "ka"]) if what == "outputs" else "l"
    shape = sh if flatT else (nc,)+sh
    P = C.arr([complex(v) for v in phi])
    if what != "outputs" and max(abs(p[0]) for r in pos for p in r) > 1.5: return
    res = L.lens_map_curved(shape, w, P, alm[0] if flatT else alm, spin=[0] if what == "T" else [0, 2], output=outs, geodesic=geod, delta_theta=dth)
    C.same(len(res), len(outs), "number of maps")
    ind = list(range(len(lm)))
    gr = [[gradient(lm, phi, p) for p in r] for r in pos]
    def spin0(c, p): return sum(c[i].real*re+c[i].imag*im for _, i, re, im in Y.row0(lm, *p)[0])
    for o, m in zip(outs, res):
        if o in "lu":
            C.same(tuple(m.shape), tuple(shape), "map shape")
            M = m[None] if flatT else m
            at = [[displaced(p[0], p[1], gr[i][j], geod) for j, p in enumerate(r)] for i, r in enumerate(pos)] if o == "l" else pos
            want = p12.expect(C, alm, lm, ind, at, spins)
            if o == "l" and geod and nc == 3:
                rot = L.offset_by_grad(C.arr([[p[0] for r in pos for p in r], [p[1] for r in pos for p in r]]), C.arr([[v[k] for r in gr for v in r] for k in range(2)]), pol=True)[2]
                for i in range(sh[0]):
                    for j in range(sh[1]):
                        a = 2*float(rot[i*sh[1]+j]); q, u = want[1][i][j], want[2][i][j]
                        want[1][i][j], want[2][i][j] = q*math.cos(a)-u*math.sin(a), q*math.sin(a)+u*math.cos(a)
            for c in range(nc):
                for i in range(sh[0]):
                    for j in range(sh[1]): C.eq(M[c, i, j], want[c][i][j], {"l": "lensed", "u": "unlensed"}[o], tol=TOL)
        else:
            for i, r in enumerate(pos):
                for j, p in enumerate(r):
                    if o == "p": C.eq(m[i, j], spin0(phi, p), "potential", tol=TOL)
                    elif o == "k": C.eq(m[i, j], spin0([v*l*(l+1)/2 for v, (l, _) in zip(phi, lm)], p), "convergence", tol=TOL)
                    else: C.eq(m[0, i, j], gr[i][j][0], "deflection in declination", tol=TOL); C.eq(m[1, i, j], gr[i][j][1], "deflection in right ascension", tol=TOL)

@case(params=["kappa", "random", "flat"], budget=(40, 200))
def helpers(C, what):
    """phi_to_kappa and kappa_to_phi; rand_alm with a seed of its own for the potential; lens_map_flat"""
    C.ext("cmisc"); L, np, en = C.px.lensing, C.np, C.px.enmap
    if what == "kappa":
        lmax = C.pick("lmax", 1, 3); lm = Y.tri(lmax); pre = C.choice("pre", [(), (2,)])
        a = C.data("a", pre+(len(lm),), -1, 1, cplx=True); a0 = C.arr(a).copy()
        k = L.phi_to_kappa(a); p = L.kappa_to_phi(a)
        for i, (l, m) in enumerate(lm):
            f = l*(l+1)/2
            C.eq(k[..., i], a[..., i]*f, "convergence")
            if l: C.eq(p[..., i]*f, a[..., i], "potential")
        C.eq(a, a0, "input unchanged")
    elif what == "random":
        lmax = C.pick("lmax", 1, 2); lm = Y.tri(lmax); n = len(lm)
        nc = C.choice("nc", [1, 3]); give = C.choice("ncomp", [True, False])
        ps = np.zeros((nc+1, nc+1, lmax+1))
        for i in range(nc+1):
            for l in range(lmax+1): ps[i, i, l] = (1+i+2*l)**2.0
        seeds = C.choice("seeds", ["one", "two"])
        g = C.data("g", (2*n*(nc+1),), -4, 4)
        kw = dict(ncomp=nc) if give else {}
        with C.gauss("g", 2*n*(nc+1)):
            phi, cmb, ainfo = L.rand_alm(ps, lmax=lmax, seed=1, phi_seed=None if seeds == "one" else 2, **kw)
        C.same((tuple(phi.shape), tuple(cmb.shape), int(ainfo.lmax)), ((n,), (nc, n), lmax), "shapes")
        A = [phi]+[cmb[i] for i in range(nc)]
        # random numbers are drawn l by l, and the components one after the other
        order = [(l, m) for l in range(lmax+1) for m in range(l+1)]
        for c in range(nc+1):
            for i, (l, m) in enumerate(lm):
                q = (c*n+order.index((l, m)))*2; s = 1.0+c+2*l
                if m == 0: C.eq(A[c][i].real, g[q]*s, "m=0"); C.eq(A[c][i].imag, 0, "m=0 is real")
                else: C.eq(A[c][i].real, g[q]*(s/math.sqrt(2)), "real part", tol=1e-6); C.eq(A[c][i].imag, g[q+1]*(s/math.sqrt(2)), "imaginary part", tol=1e-6)
    else:
        # a potential that displaces by whole pixels everywhere cannot be periodic; small ones are interpolated with periodic splines
        ny, nx = C.choice("sh", [(4, 5), (5, 4)]); w = C.wcs("", [1, 2], [C.choice("dx", [0.5, -0.5]), 0.25], [2, 3])
        m = C.data("m", (ny, nx)); amp = C.choice("amp", [0.0, 1e-5, -3e-5])
        phi = [[amp*math.cos(2*math.pi*i/ny+0.3)+amp*math.sin(2*math.pi*j/nx) for j in range(nx)] for i in range(ny)]
        M = en.ndmap(C.arr(m).copy(), w); Ph = en.ndmap(C.arr(phi), w)
        r = L.lens_map_flat(M, Ph)
        C.same(tuple(r.shape), (ny, nx), "shape"); C.eq(M, m, "input unchanged")
        if amp == 0: C.eq(r, m, "nothing displaced", tol=1e-4)
        k = C.real("k", -9, 9)
        C.eq(L.lens_map_flat(en.ndmap(C.arr([[k]*nx]*ny), w), Ph), C.arr([[k]*nx]*ny), "a constant map is unchanged", tol=1e-4)

@case(budget=(30, 120))
def boost1d(C):
    """aberration and modulation along the direction of motion: relativistic formulas, undone by the opposite speed"""
    A, np = C.px.aberration, C.np
    z, b = C.real("z", -1, 1), C.rat(C.choice("b", [F(3, 5), F(-4, 5), F(5, 13), F(-12, 13), F(0)]))
    zo, a = A.calc_boost_1d(C.arr([z, 1, -1]), b)
    C.eq(zo[0]*(1+z*b), z+b, "aberration"); C.eq(zo[1], 1, "ahead"); C.eq(zo[2], -1, "behind")
    # modulation 1/(gamma(1-beta z_obs))
    C.check(a[0] > 0, "positive"); C.eq((a[0]*(1-zo[0]*b))**2, 1-b*b, "modulation")
    zi, ai = A.calc_boost_1d(C.arr([zo[0], zo[1], zo[2]]), -b)
    C.eq(zi[0], z, "undone"); C.eq(a[0]*ai[0], 1, "modulation undone")

@case(params=["plain", "T2lin", "lin2T", "lin2lin"], budget=(40, 200))
def modulation(C, mode):
    """apply_modulation: temperature times A, with the monopole's part if asked for; conversion to and from linearized units"""
    A_, u, np, en = C.px.aberration, C.px.utils, C.np, C.px.enmap
    pre, spin = C.choice("pre", [((), [0, 2]), ((3,), [0, 2]), ((2, 3), [0, 2]), ((1,), [0])])
    sh = (1, 2)
    w = C.wcs("CAR", [10, 0], [-0.5, 0.5], [3, 20])
    d = C.data("d", pre+sh, -9, 9); a = C.data("A", sh, F(1, 2), 2)
    dip = C.choice("dipole", [False, True]); T0 = C.choice("T0", [2.725, 3.0]); unit = C.choice("unit", [1e-6, 1e-3]); f = 150e9
    m = en.ndmap(C.arr(d).copy(), w)
    r = A_.apply_modulation(m, en.ndmap(a, w), T0=T0, freq=f, map_unit=unit, mode=C.choice("name", ["plain", "T2T"]) if mode == "plain" else mode, dipole=dip, spin=spin)
    C.same(tuple(r.shape), pre+sh, "shape")
    sc = u.dplanck(f, T=T0)
    for I in itertools.product(*[range(n) for n in pre]):
        s0 = not I or I[-1] == 0
        for x in range(2):
            v, q = d[I+(0, x)], a[0, x]; got = r[I+(0, x)]
            dd = dip and s0
            lin = lambda t, q: (u.planck(f, q*(t*unit+T0))-u.planck(f, T0 if dd else q*T0))/sc/unit
            tmp = lambda t, q: (q*u.iplanck_T(f, t*unit*sc+u.planck(f, T0 if dd else T0/q))-T0)/unit
            if mode == "plain": want = v*q+((q-1)*(T0/unit) if dd else 0)
            elif mode == "T2lin": want = lin(v, q)
            elif mode == "lin2T": want = tmp(v, q)
            else: want = lin(tmp(v, 1), q)
            C.eq(got, want, "modulated", tol=1e-3)

def boostdir(v, n, beta):
    """where the light seen from direction v by an observer moving towards n comes from"""
    z = sum(a*b for a, b in zip(v, n))
    zo = (z-beta)/(1-z*beta)
    p = [a-z*b for a, b in zip(v, n)]; L = math.sqrt(sum(a*a for a in p))
    s = math.sqrt(max(0, 1-zo*zo))
    return [zo*b+s*a/L for a, b in zip(p, n)], z, zo
def vec(dec, ra): return [math.cos(dec)*math.cos(ra), math.cos(dec)*math.sin(ra), math.sin(dec)]
def frame(dec, ra): return [math.sin(dec)*math.cos(ra), math.sin(dec)*math.sin(ra), -math.cos(dec)], [-math.sin(ra), math.cos(ra), 0.0]
def dot(a, b): return sum(x*y for x, y in zip(a, b))

def fint(vals, n, x):
    """trigonometric interpolation weights at x for n periodic samples (real part, lower half of an even grid's middle mode as the fft has it)"""
    return [sum(cmath.exp(2j*math.pi*k*(x-i)/n) for k in [q if q < (n+1)//2 else q-n for q in range(n)])/n for i in range(n)]

@case(params=["periodic", "fullsky", "auto"], budget=(80, 400))
def aberrate(C, boundary):
    """an aberrated map shows in every pixel the interpolated input map in the direction the light came from, polarization parallel transported; Aberrator, boost_map and deboost_map agree"""
    C.ext("cmisc"); A_, np, en = C.px.aberration, C.np, C.px.enmap
    ny, nx, spin, pre = C.choice("m", C.q([(4, 5, [0, 2], ()), (4, 6, [0, 2], (3,))], [(4, 5, [0, 2], ()), (4, 6, [0, 2], (3,)), (5, 4, [0], (2,))]))
    if boundary != "periodic": nx += nx % 2
    full = boundary != "periodic"
    dy = F(180, ny) if full else F(20)
    sy, sx = C.choice("dirs", C.q([(1, -1), (-1, 1)], [(1, -1), (-1, 1), (1, 1), (-1, -1)]))
    dx = F(360, nx)
    w = C.wcs("CAR", [20, 0], [sx*dx, sy*dy], [2, F(ny+1, 2)])
    d = C.data("d", pre+(ny, nx), -1, 1); m = en.ndmap(C.arr(d).copy(), w)
    B = [(0.1, (1.0, 0.3)), (-0.2, (4.0, -0.7)), (0.001235, (2.9307, -0.121))]; H = ["map", "object", "boost", "deboost"]
    (beta, dr), how = C.choice("b", C.q([(B[0], "map"), (B[1], "object"), (B[0], "boost"), (B[1], "deboost"), (B[2], "map")], [(b, h) for b in B for h in H]))
    kw = dict(dir=C.arr(list(dr)), beta=beta, spin=spin, boundary=boundary)
    if how == "map": r = A_.aberrate_map(m, **kw)
    elif how == "object": r = A_.Aberrator(m.shape, m.wcs, **kw)(m)
    elif how == "boost": r = A_.boost_map(m, modulate=False, **kw)
    else: r = A_.deboost_map(m, modulate=False, **dict(kw, beta=-beta))
    C.same(tuple(r.shape), pre+(ny, nx), "shape")
    C.eq(m, d, "input unchanged")
    n = vec(dr[1], dr[0])
    pick = C.q([(0, 0), (1, 2), (ny-1, 3)], list(itertools.product(range(ny), range(nx))))
    for i, j in pick:
        dec, ra = float(sy*dy)*(i-(ny-1)/2)*math.pi/180, (20+float(sx*dx)*(j-1))*math.pi/180
        v = vec(dec, ra); v2, z, zo = boostdir(v, n, beta)
        dec2, ra2 = math.asin(v2[2]), math.atan2(v2[1], v2[0])
        py, px = dec2*180/math.pi/float(sy*dy)+(ny-1)/2, (ra2*180/math.pi-20)/float(sx*dx)+1
        # the great circle through both, away from n
        t1 = [n_-z*v_ for n_, v_ in zip(n, v)]; t2 = [n_-zo*v_ for n_, v_ in zip(n, v2)]
        f1, f2 = frame(dec, ra), frame(dec2, ra2)
        gam = math.atan2(dot(t1, f1[1]), dot(t1, f1[0]))-math.atan2(dot(t2, f2[1]), dot(t2, f2[0]))
        wx = fint(None, nx, px)
        if full:
            wy = fint(None, 2*ny, py)
            W = [[0j]*nx for _ in range(ny)]
            for a in range(2*ny):
                for b in range(nx):
                    if a < ny: W[a][b] += wy[a]*wx[b]
                    else: W[2*ny-1-a][(b-nx//2) % nx] += wy[a]*wx[b]
        else:
            wy = fint(None, ny, py); W = [[wy[a]*wx[b] for b in range(nx)] for a in range(ny)]
        def at(D): return sum([D[a, b]*W[a][b].real for a in range(ny) for b in range(nx)])
        for I in itertools.product(*[range(k) for k in pre[:-1]]):
            if not pre: C.eq(r[i, j], at(d), "aberrated", tol=F(1, 10**4)); continue
            c0 = 0
            while c0 < pre[-1]:
                if spin == [0] or c0 == 0: C.eq(r[I+(c0, i, j)], at(d[I+(c0,)]), "aberrated", tol=F(1, 10**4)); c0 += 1
                else:
                    q, u = at(d[I+(c0,)]), at(d[I+(c0+1,)]); c, s = math.cos(2*gam), math.sin(2*gam)
                    C.eq(r[I+(c0, i, j)], q*c-u*s, "aberrated polarization", tol=F(1, 10**4)); C.eq(r[I+(c0+1, i, j)], q*s+u*c, "aberrated polarization", tol=F(1, 10**4)); c0 += 2

@case(budget=(60, 200))
def boosted(C):
    """modulate_map, Modulator and boost_map multiply by the Doppler factor of each direction"""
    C.ext("cmisc"); A_, np, en = C.px.aberration, C.np, C.px.enmap
    ny, nx = 4, 5; dy, dx = 30, 72
    w = C.wcs("CAR", [20, 0], [-dx, dy], [2, 2])
    pre = C.choice("pre", [(), (3,)])
    d = C.data("d", pre+(ny, nx), -1, 1); m = en.ndmap(C.arr(d).copy(), w)
    beta, dr = C.choice("b", [(0.1, (1.0, 0.3)), (-0.2, (4.0, -0.7))])
    how = C.choice("how", ["map", "object", "boost", "deboost"])
    kw = dict(dir=C.arr(list(dr)), beta=beta, modulation="plain"); ret = C.choice("ret", [True, False]) if how != "object" else False
    if ret: kw["return_modulation"] = True
    if how == "map": r = A_.modulate_map(m, **kw)
    elif how == "object": r = A_.Modulator(m.shape, m.wcs, **kw)(m)
    elif how == "boost": r = A_.boost_map(m, aberrate=False, **kw)
    else: r = A_.deboost_map(m, aberrate=False, **dict(kw, beta=-beta))
    if ret: r, a = r
    n = vec(dr[1], dr[0]); gm = 1/math.sqrt(1-beta**2)
    for i in range(ny):
        for j in range(nx):
            z = dot(vec(dy*(i-1)*math.pi/180, (20-dx*(j-1))*math.pi/180), n)
            f = 1/(gm*(1-beta*z))
            C.eq(r[..., i, j], d[..., i, j]*f, "modulated", tol=F(1, 10**4))
            if ret: C.eq(a[i, j], f, "returned modulation", tol=F(1, 10**4))
