from .fourier import *
from .common import F
from . import p25
import itertools
PRELOAD = ["enmap", "uharm", "wavelets", "multimap", "analysis"]
BOUNDS = "flat maps of 4x5, 5x4 and 12x11 pixels near the equator, one or two components, every map content in [-100,100] (the largest maps: fixed but for a handful of free pixels); listed beams, noise spectra, inverse variances and apodizations"
ASSUMPTIONS = ["Fourier transforms are the discrete sums the libraries document; square roots and powers of constants are taken from the platform's libm; the pixel area is uniform to 1e-4 in the maps used, which is the tolerance of the comparison"]
D = math.pi/180
RT = 3e-4

def geom(C, sh):
    return C.wcs("CAR", [10, 0], [-0.25, 0.25], [sh[1]/2+0.5, sh[0]/2+0.5])

def modes(C, sh, w):
    l = C.px.enmap.modlmap(sh, w)
    return [[float(l[y, x]) for x in range(sh[1])] for y in range(sh[0])]

def fun(l, f): return [[f(x) for x in row] for row in l]
BEAM = [lambda l: math.exp(-0.5*(l/500)**2), lambda l: 1/(1+(l/400)**2)]
SPEC = [lambda l: 1.0, lambda l: 1/(1+(max(l, 150.0)/700)**-3), lambda l: 2.0 if l < 600 else 0.5]

class Conv:
    """convolution with a kernel given by its values at each mode"""
    def __init__(self, C, sh, K):
        self.C, self.sh = C, sh
        ky, kx = freqs(sh[0]), freqs(sh[1])
        self.k = {}
        for y in range(sh[0]):
            for x in range(sh[1]):
                self.k[y, x] = sum((K[a][b]*cmath.exp(2j*math.pi*(ky[a]*y/sh[0]+kx[b]*x/sh[1])) for a in range(sh[0]) for b in range(sh[1]))).real/prod(sh)
    def sq(self):
        r = object.__new__(Conv); r.C, r.sh = self.C, self.sh
        r.k = {p: v*v for p, v in self.k.items()}
        return r
    @property
    def norm(self): return sum(map(abs, self.k.values()))
    def at(self, d, p):
        acc = 0
        for y in range(self.sh[0]):
            for x in range(self.sh[1]):
                acc = acc+d[..., y, x]*self.k[(p[0]-y) % self.sh[0], (p[1]-x) % self.sh[1]]
        return acc
    def __call__(self, d):
        np = self.C.np
        return np.stack([np.stack([self.C.arr(self.at(d, (y, x))) for x in range(self.sh[1])], -1) for y in range(self.sh[0])], -2)

IVAR = {"even": lambda y, x: 2.0, "uneven": lambda y, x: 1.0+0.5*((2*y+3*x) % 5), "hole": lambda y, x: 0.0 if (y, x) == (1, 2) else 1.5+0.25*y}
def near(C, got, want, scale, label):
    """equal to the pixel areas' uniformity, relative to the largest possible value"""
    C.eq(C.arr(got)*(1.0/scale), C.arr(want)*(1.0/scale), label, tol=1e-3)

def mul(a, b): return [[x*y for x, y in zip(r, s)] for r, s in zip(a, b)]

@case(params=["constcov", "white", "lowcorr", "smoothivar", "dual"], budget=(60, 300))
def filters(C, kind):
    """rho and kappa are the beam-weighted, inverse-noise-weighted map and its weight, so that rho/kappa is the flux of a source and kappa its inverse variance"""
    e, np, an, uh = C.px.enmap, C.np, C.px.analysis, C.px.uharm
    few = C.tier == "quick" and kind in ("lowcorr", "dual")
    sh = C.choice("sh", [(4, 5), (5, 4)][:1 if few else 2]); w = geom(C, sh)
    l = modes(C, sh, w)
    B = fun(l, C.choice("beam", BEAM)); S = fun(l, C.choice("spec", SPEC[few:])) if kind != "white" else fun(l, SPEC[0])
    iv = C.choice("ivar", list(IVAR)[few and kind == "dual":]) if kind != "constcov" else "even"
    pre = C.choice("pre", [(), (2,)] if not few else [()])
    d = C.data("d", pre+sh); m = e.ndmap(C.arr(d).copy(), w)
    V = [[IVAR[iv](y, x) for x in range(sh[1])] for y in range(sh[0])]
    ivar = e.ndmap(np.array(V), w); Bm = e.ndmap(np.array(B), w); Sm = e.ndmap(np.array(S), w)
    U = uh.UHT(sh, w, mode="flat") if C.choice("uht", [True, False]) else None
    A = float(e.area(sh, w)); a = A/prod(sh)
    Pk = fun(B, lambda b: b/a)     # a source of unit flux
    P = Conv(C, sh, Pk)
    v, hv = C.arr(V), C.arr(fun(V, math.sqrt)); vm = max(map(max, V))
    if kind == "constcov":
        iN = fun(S, lambda s: s*3.0)
        rho, kap = an.matched_filter_constcov(m, Bm, Sm*3.0, uht=U)
        R = Conv(C, sh, mul(B, iN)); wr = R(C.arr(d)); wk = sum(map(sum, mul(mul(B, B), iN)))/A
        near(C, rho, wr, 100*R.norm, "rho"); C.check(abs(float(kap)/wk-1) < RT, "kappa")
    elif kind == "white":
        given = C.choice("B2", [False, True])
        b2 = None
        if given: b2 = (U or uh.UHT(sh, w, mode="flat")).hprof_rpow(Bm, 2)
        rho, kap = an.matched_filter_white(m, Bm, ivar, uht=U, B2=b2)
        near(C, rho, P(C.arr(d)*v), 100*vm*P.norm, "rho")
        near(C, kap, P.sq()(v), vm*P.sq().norm, "kappa")
    elif kind == "smoothivar":
        rho, kap = an.matched_filter_constcorr_smoothivar(m, Bm, ivar, Sm, uht=U)
        R = Conv(C, sh, mul(Pk, S)); k0 = sum(map(sum, mul(mul(Pk, Pk), S)))/prod(sh)
        near(C, rho, R(C.arr(d)*hv)*hv, 100*vm*R.norm, "rho")
        near(C, kap, v*k0, vm*k0, "kappa")
    elif kind == "lowcorr":
        sk = C.choice("skew", [False, True]); kw = dict(S=lambda x: x*2.0, iS=lambda x: x*1.5) if sk else {}
        hi = C.choice("high_acc", [False, True]) if iv == "even" and not pre else False
        rho, kap = an.matched_filter_constcorr_lowcorr(m, Bm, ivar, Sm, uht=U, high_acc=hi, **kw)
        R = Conv(C, sh, S); q = 3.0 if sk else 1.0
        near(C, rho, P(R(C.arr(d)*hv)*hv)*q, 100*q*vm*P.norm*R.norm, "rho")
        alpha = sum(map(sum, mul(mul(B, B), S)))/sum(map(sum, mul(B, B)))
        near(C, kap, P.sq()(v)*alpha, alpha*vm*P.sq().norm, "kappa")
    else:
        sk = C.choice("skew", [False, True]); kw = dict(S=lambda x: x*2.0, iS=lambda x: x*1.5) if sk else {}
        rho, kap = an.matched_filter_constcorr_dual(m, Bm, ivar, Sm, uht=U, **kw)
        h = fun(S, math.sqrt)
        Q = Conv(C, sh, mul(Pk, h)); R = Conv(C, sh, h); q = 9.0 if sk else 1.0
        near(C, rho, Q(R(C.arr(d))*v)*q, 100*q*vm*Q.norm*R.norm, "rho")
        near(C, kap, Q.sq()(v), vm*Q.sq().norm, "kappa")
    C.same(tuple(rho.shape), pre+sh, "shape")
    C.eq(m, d, "input unchanged")

@case(params=["constcov", "constcorr"], budget=(60, 300))
def nmat(C, kind):
    """the noise model classes: several components with correlated noise"""
    e, np, an = C.px.enmap, C.np, C.px.analysis
    sh = C.choice("sh", [(4, 5), (5, 4)]); w = geom(C, sh); n = C.choice("n", [1, 2])
    l = modes(C, sh, w)
    k = C.choice("beam", [0, 1])
    Bs = [fun(l, BEAM[(k+(i if kind == "constcov" else 0)) % 2]) for i in range(n)]
    sp = C.choice("spec", [0, 1, 2])
    M = [[fun(fun(l, SPEC[(sp+i+j) % 3]), lambda s: s*(2.0+i if i == j else 0.5)) for j in range(n)] for i in range(n)]
    d = C.data("d", (n,)+sh); m = e.ndmap(C.arr(d).copy(), w)
    iN = e.ndmap(np.array(M), w); beam = e.ndmap(np.array(Bs), w)
    A = float(e.area(sh, w)); a = A/prod(sh)
    tot = lambda x: sum(map(sum, x))
    if kind == "constcov":
        ap = [[0.5+0.125*((y+2*x) % 4) for x in range(sh[1])] for y in range(sh[0])]
        rho, kap = an.NmatConstcov(iN, e.ndmap(np.array(ap), w)).matched_filter(m, beam)
        for i in range(n):
            R = [Conv(C, sh, mul(Bs[i], M[i][j])) for j in range(n)]
            near(C, rho[i], sum(R[j](C.arr(d)[j]*C.arr(ap)) for j in range(n)), 100*sum(x.norm for x in R), "rho")
            for j in range(n):
                want = tot(mul(mul(Bs[i], Bs[j]), M[i][j]))/A
                C.eq(kap[i, j]*(1/want), np.ones(sh), "kappa", tol=1e-3)
    else:
        vs = [2.0, 0.5][:n]
        iv = e.ndmap(np.array([[[v]*sh[1]]*sh[0] for v in vs]), w)
        rho, kap = an.NmatConstcorr(iN, iv).matched_filter(m, beam)
        for i in range(n):
            R = [Conv(C, sh, fun(mul(Bs[i], M[i][j]), lambda b: b*(math.sqrt(vs[i]*vs[j])/a))) for j in range(n)]
            near(C, rho[i], sum(R[j](C.arr(d)[j]) for j in range(n)), 100*sum(x.norm for x in R), "rho")
            for j in range(n):
                want = math.sqrt(vs[i]*vs[j])*tot(mul(mul(Bs[i], Bs[j]), M[i][j]))/a**2/prod(sh)
                C.eq(kap[i, j]*(1/want), np.ones(sh), "kappa", tol=1e-3)
    C.same(tuple(rho.shape), (n,)+sh, "shape"); C.same(tuple(kap.shape), (n, n)+sh, "shape")
    C.eq(m, d, "input unchanged")

@case(budget=(60, 200))
def wavelet(C):
    """the wavelet noise model with an inverse variance per level"""
    e, np, an, uh, wv, mm = C.px.enmap, C.np, C.px.analysis, C.px.uharm, C.px.wavelets, C.px.multimap
    sh = (12, 11); w = geom(C, sh)
    U = uh.UHT(sh, w, mode="flat"); wt = wv.WaveletTransform(U)
    l = modes(C, sh, w); ld = {(y, x): l[y][x] for y in range(sh[0]) for x in range(sh[1])}
    B = fun(l, C.choice("beam", BEAM))
    c = C.choice("c", [[2.0]*9, [1.0, 3.0, 2.0, 5.0, 1.0]])
    d = p25.some(C, "d", (1,)+sh, [(0, 0, 0), (0, 4, 5), (0, 11, 3)])
    m = e.ndmap(C.arr(d).copy(), w)
    wiN = mm.multimap([e.ndmap(np.full((1, 1)+tuple(int(v) for v in g[0][-2:]), c[i]), g[1]) for i, g in enumerate(wt.geometries)])
    rho, kap = an.NmatWavelet(wt, wiN).matched_filter(m, e.ndmap(np.array([B]), w))
    A = float(e.area(sh, w)); a = A/prod(sh)
    # noise weight of each mode
    T = [[sum(max(0.0, f)*c[i] for i, f in enumerate(p25.filters(C, wt, "ButterTrim", {}, l[y][x]))) for x in range(sh[1])] for y in range(sh[0])]
    K = Conv(C, sh, fun(mul(B, T), lambda v: v/a))
    for p in [(0, 0), (3, 4), (11, 10)]: near(C, rho[0][p], K.at(C.arr(d)[0], p), 100*K.norm, "rho")
    want = sum(map(sum, mul(mul(B, B), T)))/a**2/prod(sh)
    C.eq(kap[0, 0]*(1/want), np.ones(sh), "kappa", tol=1e-3)
    C.same(tuple(rho.shape), (1,)+sh, "shape"); C.same(tuple(kap.shape), (1, 1)+sh, "shape")

@case(params=["one", "many", "sanitize", "split"], budget=(40, 100))
def helpers(C, what):
    """solve_mapsys solves the system of every pixel; sanitize_kappa raises small weights to the limit and leaves the others; snr_split groups by strength"""
    e, np, an = C.px.enmap, C.np, C.px.analysis
    sh = (2, 3); w = geom(C, sh)
    if what == "one":
        r = C.data("r", sh); k = [[0.5, 2.0, 4.0], [1.0, 16.0, 3.0]]
        f, df = an.solve_mapsys(e.ndmap(np.array(k), w), e.ndmap(C.arr(r).copy(), w))
        C.eq(f*C.arr(k), r, "flux times weight"); C.eq(df*df*C.arr(k), np.ones(sh), "uncertainty", tol=1e-9)
    elif what == "many":
        n = C.choice("n", [1, 2, 3])
        r = C.data("r", (n,)+sh)
        K = [[[[ (3.0+i+y if i == j else 0.5+0.25*(i+j)*(x-y)) for x in range(3)] for y in range(2)] for j in range(n)] for i in range(n)]
        f, df = an.solve_mapsys(e.ndmap(np.array(K), w), e.ndmap(C.arr(r).copy(), w))
        C.same(tuple(f.shape), (n,)+sh, "shape"); C.same(tuple(df.shape), (n,)+sh, "shape")
        for i in range(n): C.eq(sum(C.arr(K[i][j])*f[j] for j in range(n)), C.arr(r)[i], "system solved", tol=1e-6)
        import numpy
        for y in range(2):
            for x in range(3):
                inv = numpy.linalg.inv(numpy.array([[K[i][j][y][x] for j in range(n)] for i in range(n)]))
                for i in range(n): C.eq(df[i, y, x], math.sqrt(inv[i, i]), "uncertainty", tol=1e-7)
    elif what == "sanitize":
        n = C.choice("n", [1, 2])
        k = C.data("k", (n, n)+sh); inp = C.choice("inplace", [False, True])
        km = e.ndmap(C.arr(k).copy(), w)
        o = an.sanitize_kappa(km, tol=0.25, inplace=inp)
        if inp: C.eq(km, o, "in place")
        else: C.eq(km, k, "input unchanged")
        for i in range(n):
            flat = [k[i, i, y, x] for y in range(2) for x in range(3)]
            mx = flat[0]
            for v in flat[1:]: mx = C.ite(v > mx, v, mx)
            for y in range(2):
                for x in range(3):
                    v = k[i, i, y, x]
                    C.eq(o[i, i, y, x], C.ite(v >= mx*0.25, v, mx*0.25), "diagonal")
                    for j in range(n):
                        if j != i: C.eq(o[i, j, y, x], k[i, j, y, x], "off-diagonal")
    else:
        vals = C.choice("v", [[100.0, 30.0, 20.0, 7.0, 6.0, -50.0], [5.5], [1.0, 2.0], [40.0, 39.0, 9.0, 1.0, 2.0], [6.0, 25.0, 90.0]])
        tol, mn = C.choice("t", [(0.25, 5.0), (0.5, 5.0), (0.25, 0.1)])
        g = an.snr_split(np.array(vals), sntol=tol, snmin=mn)
        C.same(sorted(int(i) for x in g for i in x), list(range(len(vals))), "everything once")
        last = None
        for x in g:
            s = [max(mn, abs(vals[int(i)])) for i in x]
            C.check(min(s) >= tol*max(s)*(1-1e-6), "similar strengths")
            if last is not None: C.check(max(s) <= last, "strongest first")
            last = min(s)
