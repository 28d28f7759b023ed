from .fourier import *
from .common import F
from . import sphere as Y
import itertools
PRELOAD = ["enmap", "curvedsky", "multimap", "uharm", "wavelets"]
EXTS = ["cmisc"]
BOUNDS = "flat maps of 10-14 pixels a side with all pixels fixed but a handful that take every value, wavelet maps likewise; Haar transforms of maps up to 7x6 with every pixel free; needlet filters at any real multipole; curved-sky transforms of any coefficients up to lmax 3 on grids of 8-9 rows; unified transforms on flat maps of up to 4x5 pixels and full-sky grids of 5-8 rows with any contents"
ASSUMPTIONS = ["Fourier and spherical harmonic libraries compute the sums they document (matrices read off ducc0 at the concrete ring positions the code passes to it); powers and logarithms of constants are taken from the platform's libm"]
TOL = F(1, 10**5)
D = math.pi/180

def some(C, tag, sh, pts):
    """fixed contents with free values at some places"""
    v = C.data(tag, (len(pts),))
    vals = [float((i*37+i*i*11) % 23-11)/4 for i in range(prod(sh))]
    for k, p in enumerate(pts):
        i = 0
        for n, x in zip(sh, p): i = i*n+x % n
        vals[i] = v[k]
    return C.arr(vals).reshape(sh)

def butter(i, n, l, lmin, step, shape, trim):
    """squared filter of the (trimmed) Butterworth basis"""
    def k(i):
        a = 1/(1+(l/(lmin*step**(i+0.5)))**(shape/math.log(step)))
        return a if trim is None else min(1.0, max(0.0, a*(1+2*trim)-trim))
    return (1.0 if i == n-1 else k(i))-(k(i-1) if i > 0 else 0.0)

def needle(i, peaks, l):
    if i > 0 and peaks[i-1] <= l <= peaks[i]: return math.cos(math.pi/2*(peaks[i]-l)/(peaks[i]-peaks[i-1]))**2
    if i < len(peaks)-1 and peaks[i] <= l <= peaks[i+1]: return math.cos(math.pi/2*(l-peaks[i])/(peaks[i+1]-peaks[i]))**2
    return 0.0

FLAT = [("ButterTrim", (12, 14), {}), ("ButterTrim", (13, 11), dict(step=1.7, shape=5, trim=3e-2)), ("Butterworth", (12, 11), {}), ("CosineNeedlet", (11, 12), dict(lpeaks=[0, 40, 100, 200, 400]))]
def flat(C, thor=True):
    e, wv, uh = C.px.enmap, C.px.wavelets, C.px.uharm
    name, sh, kw = C.choice("b", FLAT)
    w = C.wcs("CAR", [10, 0], [-1.0, 1.0], [sh[1]/2+0.5, sh[0]/2+0.5])
    uht = uh.UHT(sh, w, mode="flat")
    np = C.np
    basis = getattr(wv, name)(**{k: (np.array(v) if isinstance(v, list) else v) for k, v in kw.items()})
    return name, sh, w, kw, uht, basis

def filters(C, wt, name, kw, l):
    """squared filters at multipole l, worked out from the definition"""
    n = wt.nlevel; b = wt.basis
    if name == "CosineNeedlet": return [needle(i, kw["lpeaks"], l) for i in range(n)]
    return [butter(i, n, l, float(b.lmin), kw.get("step", 2), kw.get("shape", 7), kw.get("trim", 1e-2) if name == "ButterTrim" else None) for i in range(n)]

def spectrum(C, d, sh):
    ky, kx = freqs(sh[0]), freqs(sh[1])
    return ky, kx, ft(C, d, (-2, -1), -1)

def level(C, wt, i, name, kw, sh, l):
    """filter per mode of level i, and its norm"""
    osh = [int(v) for v in wt.geometries[i][0][-2:]]
    ky, kx = freqs(osh[0]), freqs(osh[1])
    f2 = {}
    for y in ky:
        for x in kx: f2[y, x] = max(0.0, filters(C, wt, name, kw, l[y % sh[0], x % sh[1]])[i])
    return osh, f2

@case(params=["forward", "back", "round"], budget=(80, 300))
def flatwave(C, what):
    """flat-sky wavelet maps are the filtered map at the wavelet maps' pixel centres; the way back undoes this"""
    e, np, mm = C.px.enmap, C.np, C.px.multimap
    name, sh, w, kw, uht, basis = flat(C)
    wt = C.px.wavelets.WaveletTransform(uht, basis=basis)
    lm = e.modlmap(sh, w); l = {(y, x): float(lm[y, x]) for y in range(sh[0]) for x in range(sh[1])}
    area = float(e.area(sh, w)); N = prod(sh)
    pre = C.choice("pre", [(), (2,)]) if what != "forward" else ()
    C.same(tuple(int(v) for v in wt.geometries[-1][0]), sh, "last level has full resolution")
    if what == "round":
        if name == "CosineNeedlet": return
        d = some(C, "d", pre+sh, [pre and (1, 0, 0) or (0, 0), (pre and (0,) or ())+(3, 5), (pre and (1,) or ())+(-1, -1), (pre and (0,) or ())+(7, 2)])
        m = e.ndmap(C.arr(d).copy(), w)
        wave = wt.map2wave(m)
        o = wt.wave2map(wave)
        C.same(tuple(o.shape), pre+sh, "shape")
        tol = TOL*10 if name == "ButterTrim" else F(1, 10)
        C.eq(o, d, "there and back", tol=tol)
        C.eq(m, d, "input unchanged", tol=TOL)
        q = C.px.uharm
        C.check(wt.wcs is uht.wcs, "wcs of the transform"); C.same(tuple(wt.shape), sh, "shape of the transform")
        return
    lev = [level(C, wt, i, name, kw, sh, l) for i in range(wt.nlevel)]
    norm = []
    for i, (osh, f2) in enumerate(lev):
        nn = math.sqrt(sum(f2.values())/area); norm.append(nn)
        C.check(abs(float(wt.norms[i])/nn-1) < 1e-3, "norm %d" % i)
        C.check(abs(float(wt.lmids[i])-sum(f2[k]*l[k[0] % sh[0], k[1] % sh[1]] for k in f2)/sum(f2.values())) < 1e-3*(1+float(wt.lmids[i])), "middle multipole")
    if what == "forward":
        d = some(C, "d", sh, [(0, 0), (3, 5), (-1, -2), (6, 6)])
        m = e.ndmap(C.arr(d).copy(), w)
        sc = C.choice("scales", [None, [1], [0]])
        fv = C.choice("fill", [None, 2.5]) if sc else None
        given = C.choice("given", [False, True])
        ow = None
        if given:
            ow = mm.zeros([(g[0], g[1]) for g in wt.geometries]); ow[...] = 9.0
        r = wt.map2wave(m, owave=ow, scales=sc, fill_value=fv)
        if given: C.check(r is ow, "written where asked")
        Fm = ft(C, d, (-2, -1), -1)
        for i, (osh, f2) in enumerate(lev):
            C.same(tuple(r.maps[i].shape), tuple(osh), "shape of level")
            if sc is not None and i not in sc:
                C.eq(r.maps[i], C.arr([[fv or 0.0]*osh[1]]*osh[0]), "levels not asked for"); continue
            for p in [(0, 0), (osh[0]-1, 1), (2, osh[1]//2)]:
                y, x = [(p[a]+0.5)*sh[a]/osh[a]-0.5 for a in (0, 1)]
                acc = 0
                for (ky, kx), v in f2.items():
                    if v > 0: acc = acc+Fm[ky % sh[0], kx % sh[1]]*(math.sqrt(v)*cmath.exp(2j*math.pi*(ky*y/sh[0]+kx*x/sh[1])))
                # modes at exactly the Nyquist frequency of a level have no definite phase between pixels
                nyq = any(v > 1e-9 and (2*abs(k[0]) == osh[0] and osh[0] != sh[0] or 2*abs(k[1]) == osh[1] and osh[1] != sh[1]) for k, v in f2.items())
                if nyq: continue
                C.eq(r.maps[i][p], acc.real*(1/(norm[i]*N)), "wavelet coefficients", tol=F(1, 10**5))
    else:
        # a few free values in one level at a time
        geos = [(pre+tuple(g[0][-2:]), g[1]) for g in wt.geometries]
        wave = mm.zeros(geos)
        i = C.pick("level", 0, wt.nlevel-1)
        osh, f2 = lev[i]
        dd = some(C, "d", pre+tuple(osh), [(pre and (1,) or ())+(0, 0), (pre and (0,) or ())+(2, 3)])
        other = (i+1) % wt.nlevel
        wave.maps[i] = e.ndmap(C.arr(dd).copy(), wt.geometries[i][1])
        osh2, f22 = lev[other]
        d2 = some(C, "e", pre+tuple(osh2), [(pre and (0,) or ())+(1, 1)])
        wave.maps[other] = e.ndmap(C.arr(d2).copy(), wt.geometries[other][1])
        om = e.ndmap(C.junk(pre+sh, np.float64), w) if C.choice("given", [False, True]) else None
        r = wt.wave2map(wave, omap=om)
        if om is not None: C.check(r is om, "written where asked")
        C.same(tuple(r.shape), pre+sh, "shape")
        acc = 0
        nyq = any(v > 1e-9 and (2*abs(k[0]) == o[0] and o[0] != sh[0] or 2*abs(k[1]) == o[1] and o[1] != sh[1]) for o, f in ((osh, f2), (osh2, f22)) for k, v in f.items())
        if nyq: return
        for p in [(0, 0), (3, 4), (-1, 2)]:
            P = (Ellipsis, p[0] % sh[0], p[1] % sh[1])
            tot = 0
            for o, f, dat, nn in ((osh, f2, dd, norm[i]), (osh2, f22, d2, norm[other])):
                Fw = ft(C, dat, (-2, -1), -1)
                y, x = [(P[1+a]+0.5)*o[a]/sh[a]-0.5 for a in (0, 1)]
                acc = 0
                for (ky, kx), v in f.items():
                    if v > 0: acc = acc+Fw[..., ky % o[0], kx % o[1]]*(math.sqrt(v)*cmath.exp(2j*math.pi*(ky*y/o[0]+kx*x/o[1])))
                tot = tot+acc.real*(nn/prod(o))
            C.eq(r[P], tot, "map from wavelets", tol=F(1, 1000))

@case(budget=(30, 100), check_ms=20000)
def needlets(C):
    """the squares of the cosine needlets add up to one at every multipole from the first to the last peak, each is one at its own peak and zero outside its neighbours'"""
    wv, np = C.px.wavelets, C.np
    peaks = C.choice("peaks", [[0, 2, 5], [10, 30, 100, 300], [3, 4]])
    b = wv.CosineNeedlet(np.array(peaks))
    C.same(int(b.n), len(peaks), "number"); C.same((int(b.lmin), int(b.lmax)), (peaks[0], peaks[-1]), "range")
    C.same([int(v) for v in b.lmaxs], peaks[1:]+[peaks[-1]], "upper limits")
    ls = np.array([float(x) for x in range(peaks[0], min(peaks[-1], peaks[0]+40)+1)]+[float(p) for p in peaks]+[peaks[-1]+1.0])
    f = [b(i, ls) for i in range(len(peaks))]
    for i in range(len(peaks)):
        C.eq(f[i], C.arr([math.sqrt(needle(i, peaks, float(l))) for l in ls]), "needlet", tol=1e-7)
    l = C.real("l", peaks[0], peaks[-1])
    g = [b(i, C.arr([l]))[0] for i in range(len(peaks))]
    for i in range(len(peaks)):
        lo, hi = peaks[max(i-1, 0)], peaks[min(i+1, len(peaks)-1)]
        C.check(C.implies(C.or_(l < lo, l > hi), g[i] == 0), "zero beyond the neighbours")
        if i > 0: C.check(C.implies(C.and_(l >= peaks[i-1], l < peaks[i]), g[i] == np.cos(C.arr([(peaks[i]-l)*(math.pi/2)/(peaks[i]-peaks[i-1])]))[0] if C.sym else abs(g[i]-np.cos(np.pi*(peaks[i]-l)/(peaks[i]-peaks[i-1])/2)) < 1e-9), "rise")

HA = [((4, 4), 1), ((5, 6), 2), ((7, 3), 2), ((3, 5), 3), ((2, 4, 3), 1), ((2, 3, 4), 2), ((4, 5), 0)]
@case(params=["ref", "noref", "half"], budget=(60, 200))
def haar(C, ref):
    """the Haar transform is undone exactly, and its levels are what the next coarser one leaves over"""
    e, np, wv = C.px.enmap, C.np, C.px.wavelets
    sh, nl = C.choice("s", HA)
    w = C.wcs("CAR", [0, 0], [-1.0, 0.5], C.choice("cp", [[1.0, 1.0], [4.0, -2.0], [0.5, 2.5]]) if ref != "noref" else [2.0, 3.0])
    H = wv.HaarTransform(nl, ref={"ref": [0, 0], "noref": None, "half": [0.5*D, 3*D]}[ref])
    d = C.data("d", sh)
    m = e.ndmap(C.arr(d).copy(), w)
    W = H.map2wave(m)
    C.same(int(W.nmap), nl+1, "levels")
    C.eq(H.wave2map(W), d, "there and back")
    C.eq(m, d, "input unchanged")
    # the coarsest level and the leftovers, by position
    cur = C.arr(d); off = [0, 0]
    for i in range(nl):
        fine = W.maps[nl-i]; coarse = None
        C.same(tuple(fine.shape), tuple(cur.shape), "shape of level")
        # blocks of two pixels: neighbouring pixels in a block have the same mean, and the leftover of every block sums to zero
        o = e.get_downgrade_offset(cur.shape, fine.wcs, 2, H.ref)
        oy, ox = [int(v) for v in o] if o is not None else (0, 0)
        nxt = {}
        for y in range(cur.shape[-2]):
            for x in range(cur.shape[-1]): nxt.setdefault(((y-oy)//2, (x-ox)//2), []).append((y, x))
        ys = sorted({k[0] for k in nxt}); xs = sorted({k[1] for k in nxt})
        rows = []
        for by in ys:
            row = []
            for bx in xs:
                c = nxt[by, bx]; mean = sum(cur[(Ellipsis,)+p] for p in c)/len(c); row.append(mean)
                for p in c: C.eq(fine[(Ellipsis,)+p], cur[(Ellipsis,)+p]-mean, "leftover")
            rows.append(np.stack([C.arr(v) for v in row], -1))
        cur = np.stack(rows, -2)
    C.eq(W.maps[0], cur, "coarsest level")

def sky(C, ny, nx):
    """full-sky Clenshaw-Curtis grid"""
    dy, dx = F(180, ny-1), F(360, nx)
    w = C.wcs("CAR", [0, 0], [-dx, dy], [F(nx, 2)+F(1, 2), F(ny+1, 2)])
    return (ny, nx), w

@case(params=["round", "levels"], budget=(80, 300))
def curvedwave(C, what):
    """curved-sky wavelet maps are the expansion of the filtered coefficients on each level's grid; the way back recovers the map"""
    C.ext("cmisc")
    e, np, cs, wv, uh, mm = C.px.enmap, C.np, C.px.curvedsky, C.px.wavelets, C.px.uharm, C.px.multimap
    peaks = C.choice("peaks", [[0, 1, 3], [0, 2, 3]])
    sh, w = sky(C, 8, 8); lmax = 3
    uht = uh.UHT(sh, w, mode="curved", lmax=lmax)
    b = wv.CosineNeedlet(np.array(peaks))
    geos = [sky(C, 8, 8) if v == 3 else sky(C, 7, 6) for v in peaks[1:]+[3]]
    wt = wv.WaveletTransform(uht, basis=b, geometries=geos)
    lm = Y.tri(lmax); n = len(lm)
    a = C.data("a", (n,), -1, 1, cplx=True)
    for k, (l, m_) in enumerate(lm):
        if m_ == 0: C.assume(a[k].imag == 0)
    m = e.zeros(sh, w)
    m = cs.alm2map(C.arr(a).copy(), m)
    norm = [math.sqrt(sum(needle(i, peaks, float(l))*(2*l+1)/(4*math.pi) for l in range(lmax+1))) for i in range(3)]
    for i in range(3): C.check(abs(float(wt.norms[i])-norm[i]) < 1e-6, "norm")
    if what == "round":
        wave = wt.map2wave(m)
        om = e.ndmap(C.junk(sh, np.float64), w) if C.choice("given", [False, True]) else None
        r = wt.wave2map(wave, omap=om)
        C.eq(r, m, "there and back", tol=TOL*10)
    else:
        sc = C.choice("scales", [None, [1, 2]]); fv = C.choice("fill", [None, 1.5]) if sc else None
        fl = C.choice("fl", [None, [1.0, 0.5, 0.25, 2.0]])
        wave = wt.map2wave(m, scales=sc, fill_value=fv, fl=np.array(fl) if fl else None)
        for i in range(3):
            if sc and i not in sc:
                C.eq(wave.maps[i], e.zeros(*geos[i])+(fv or 0.0), "levels not asked for"); continue
            L = (peaks[1:]+[3])[i]
            fa = C.arr([a[k]*(math.sqrt(needle(i, peaks, float(l)))/norm[i]*(fl[l] if fl else 1)) if l <= L else a[k]*0 for k, (l, m_) in enumerate(lm)])
            C.eq(wave.maps[i], cs.alm2map(fa, e.zeros(*geos[i])), "wavelet coefficients", tol=TOL*10)

@case(params=["flat", "curved"], budget=(80, 300))
def uht(C, mode):
    """the unified transform: there and back, adjoints, quadrature weights, products, spectra and sums in either mode"""
    C.ext("cmisc")
    e, np, cs, uh = C.px.enmap, C.np, C.px.curvedsky, C.px.uharm
    what = C.choice("what", ["round", "adjoint", "prof", "mul", "power"])
    ncomp = C.choice("nc", [(), (3,)]) if what in ("round", "adjoint") else ()
    spin = C.choice("spin", [0, (0, 2)]) if ncomp else 0
    if spin: spin = [0, 2]
    if mode == "flat":
        sh = C.choice("sh", [(3, 4), (4, 5)]) if not ncomp else (3, 2)
        w = C.wcs("CAR", [10, 0], [-1.0, 0.5], [2.0, 3.0])
        U = uh.UHT((2,)+sh, w, mode="flat" if C.choice("auto", [False, True]) else "auto")
        C.same(U.mode, "flat", "mode")
        C.same(int(U.npix), prod(sh), "number of pixels")
        if what == "round":
            d = C.data("d", ncomp+sh); m = e.ndmap(C.arr(d).copy(), w)
            h = U.map2harm(m, spin=spin)
            if not spin: C.eq(h, ft(C, d, (-2, -1), -1)*(math.sqrt(float(e.area(sh, w)))/prod(sh)), "coefficients", tol=F(1, 10**6))
            C.eq(U.harm2map(h, spin=spin), d, "there and back", tol=F(1, 10**6))
        elif what == "adjoint":
            d = C.data("d", ncomp+sh); m = e.ndmap(C.arr(d).copy(), w)
            g = some(C, "g", ncomp+sh, [(0,)*(2+len(ncomp))]); h = U.map2harm(e.ndmap(C.arr(g).copy(), w), spin=spin)
            # <harm2map h, m> = <h, harm2map_adjoint m>, with one side fixed but for one value
            C.eq(np.sum(U.harm2map(h, spin=spin)*m), inner(C, h, U.harm2map_adjoint(m, spin=spin)).real, "adjoint of harm2map", tol=F(1, 100))
            C.eq(inner(C, h, U.map2harm(m, spin=spin)).real, np.sum(np.real(U.map2harm_adjoint(h, spin=spin))*m), "adjoint of map2harm", tol=F(1, 100))
        elif what == "prof":
            lp = C.data("p", (4,)); l = e.modlmap(sh, w)
            big = 120.0
            lp2 = np.concatenate([C.arr(lp), np.zeros(60)])
            r = U.lprof2hprof(np.repeat(lp2, 40) if False else C.arr([lp[(i//50) % 4] for i in range(1500)]))
            for y in range(sh[0]):
                for x in range(sh[1]):
                    v = float(l[y, x]); i = int(v); f = v-i
                    if v > 1499: want = 0.0
                    else: want = lp[(i//50) % 4]*(1-f)+lp[((i+1)//50) % 4]*f
                    C.eq(r[y, x], want, "profile at each mode", tol=F(1, 10**5))
            C.eq(U.hprof2harm(r), r, "profile as coefficients")
            C.eq(U.mean_hprof(r), np.sum(r)/prod(sh), "mean of a profile", tol=F(1, 10**5))
            C.eq(U.sum_hprof(r), np.sum(r)*(4*math.pi/float(e.area(sh, w))), "sum of a profile", tol=F(1, 10))
        elif what == "mul":
            h = e.ndmap(C.data("h", (2,)+sh, cplx=True), w)
            k = C.choice("k", ["scalar", "comp", "matrix"])
            p = {"scalar": (), "comp": (2,), "matrix": (2, 2)}[k]
            pr = [[[float((y*3+x*5+a) % 7-2) for x in range(sh[1])] for y in range(sh[0])] for a in range(prod(p))]
            P = e.ndmap(np.array(pr).reshape(p+sh), w)
            h0 = C.arr(h).copy()
            r = U.hmul(P, h, inplace=C.choice("inplace", [False, True]))
            for c in range(2):
                want = h0[c]*C.arr(pr[0]) if k == "scalar" else h0[c]*C.arr(pr[c]) if k == "comp" else h0[0]*C.arr(pr[2*c])+h0[1]*C.arr(pr[2*c+1])
                C.eq(r[c], want, "product")
        else:
            d = some(C, "d", sh, [(0, 0), (1, 2)]); m = e.ndmap(C.arr(d).copy(), w)
            ps = U.harm2powspec(U.map2harm(m))
            C.eq(U.sum_hprof(ps), np.sum(C.arr(d)*C.arr(d))*(4*math.pi/prod(sh)), "power adds up to the mean square", tol=F(1, 10))
            C.eq(U.quad_weights()+np.zeros(sh), e.pixsizemap(sh, w), "weights")
    else:
        sh, w = sky(C, 8, 8) if what != "adjoint" else sky(C, 5, 6); lmax = 3 if what == "prof" or what == "mul" or what == "power" else 2
        U = uh.UHT(sh, w, mode="curved" if C.choice("auto", [False, True]) else "auto", lmax=lmax)
        C.same(U.mode, "curved", "mode")
        lm = Y.tri(lmax); n = len(lm)
        def coef(tag, pre=()):
            a = C.data(tag, pre+(n,), -1, 1, cplx=True)
            return a
        if what == "round":
            a = coef("a", ncomp)
            for c in itertools.product(*[range(v) for v in ncomp]):
                for k, (l, m_) in enumerate(lm):
                    if m_ == 0: C.assume(a[c+(k,)].imag == 0)
            al = C.arr(a).copy()
            if spin:
                for k, (l, m_) in enumerate(lm):
                    if l < 2: al[1:, k] = 0
            m = U.harm2map(al, spin=spin if spin else 0)
            C.same(tuple(m.shape), ncomp+sh, "shape")
            C.eq(U.map2harm(m, spin=spin), al, "there and back", tol=TOL)
        elif what == "adjoint":
            d = C.data("d", ncomp+sh, -1, 1); m = e.ndmap(C.arr(d).copy(), w)
            ref = cs.alm2map_adjoint(e.ndmap(C.arr(d).copy(), w), ainfo=cs.alm_info(lmax=lmax), spin=spin)
            got = U.harm2map_adjoint(m, spin=spin)
            C.eq(got, ref, "adjoint of harm2map", tol=TOL)
            a = some(C, "g", ncomp+(n,), [(0,)*(1+len(ncomp))])+0j
            for k, (l, m_) in enumerate(lm):
                if m_ == 0: continue
            # the inner product of coefficients counts m and -m
            wt = np.array([1.0 if m_ == 0 else 2.0 for l, m_ in lm])
            ar = a.copy()
            if spin:
                for k, (l, m_) in enumerate(lm):
                    if l < 2: ar[1:, k] = 0
            lhs = np.sum(U.harm2map(ar, spin=spin)*m)
            C.eq(lhs, np.sum((np.conj(ar)*got).real*wt), "adjoint", tol=F(1, 100))
        elif what == "prof":
            p = C.data("p", (C.choice("len", [2, 4, 6]),))
            r = U.lprof2hprof(C.arr(p).copy())
            want = C.arr([p[i] if i < p.shape[0] else 0.0 for i in range(lmax+1)])
            C.eq(r, want, "profile at each multipole")
            C.eq(U.sum_hprof(r), sum((2*l+1)*want[l] for l in range(lmax+1)), "sum of a profile")
            C.eq(U.mean_hprof(r), sum((2*l+1)*want[l] for l in range(lmax+1))/16, "mean of a profile")
        elif what == "mul":
            h = C.data("h", (2, n), cplx=True)
            k = C.choice("k", ["scalar", "comp", "matrix"])
            p = {"scalar": (), "comp": (2,), "matrix": (2, 2)}[k]
            pr = np.array([[float((l*3+a*5) % 7-2) for l in range(lmax+1)] for a in range(prod(p))])
            h0 = C.arr(h).copy(); hh = C.arr(h).copy()
            inp = C.choice("inplace", [False, True])
            r = U.hmul(pr.reshape(p+(lmax+1,)), hh, inplace=inp)
            if inp: C.eq(hh, r, "in place")
            else: C.eq(hh, h0, "input unchanged")
            for c in range(2):
                ex = lambda a: C.arr([float(pr[a][l]) for l, m_ in lm])
                want = h0[c]*ex(0) if k == "scalar" else h0[c]*ex(c) if k == "comp" else h0[0]*ex(2*c)+h0[1]*ex(2*c+1)
                C.eq(r[c], want, "product")
        else:
            a = some(C, "a", (n,), [(1,), (4,)])+0j
            patch = C.choice("patch", [False, True])
            ps = U.harm2powspec(C.arr(a).copy(), patch=patch)
            for l in range(lmax+1):
                want = sum((1 if m_ == 0 else 2)*a[k].real*a[k].real for k, (ll, m_) in enumerate(lm) if ll == l)/(2*l+1)
                C.eq(ps[l], want/(float(U.fsky) if patch else 1), "spectrum", tol=F(1, 10**5))
            q = U.quad_weights()
            C.check(abs(float(np.sum(q+np.zeros(sh)))-4*math.pi) < 1e-6, "weights cover the sky")

@case(budget=(30, 100))
def profiles(C):
    """a radial profile's flat-sky transform is the transform of the profile around a pixel; helper limits"""
    e, np, uh = C.px.enmap, C.np, C.px.uharm
    sh = C.choice("sh", [(4, 5), (6, 4), (5, 5)])
    w = C.wcs("CAR", [10, 0], [-1.0, 1.0], [sh[1]/2+0.5, sh[0]/2+0.5])
    U = uh.UHT(sh, w, mode="flat")
    r = np.array([0.0, 1.0, 2.5, 6.0])*D
    pre = C.choice("pre", [(), (2,)])
    b = C.data("b", pre+(4,))
    H = U.rprof2hprof(C.arr(b).copy(), r)
    C.same(tuple(H.shape), pre+sh, "shape")
    # distances from the central pixel, wrapped to the first
    c = [sh[0]//2-1, sh[1]//2-1]
    rm = e.modrmap(sh, w, e.pix2sky(sh, w, c))
    rr = [float(v) for v in r]
    def val(x):
        if x > rr[-1]: return None
        i = max(j for j in range(3) if rr[j] <= x+1e-12); f = (x-rr[i])/(rr[i+1]-rr[i])
        return C.arr(b[..., i])*(1-f)+C.arr(b[..., i+1])*f
    ps = float(e.area(sh, w))/prod(sh)
    for k in [(0, 0), (1, 0), (2, 3)]:
        acc = 0
        for y in range(sh[0]):
            for x in range(sh[1]):
                v = val(float(rm[y, x]))
                if v is None: continue
                acc = acc+v*(math.cos(2*math.pi*((y-c[0])*k[0]/sh[0]+(x-c[1])*k[1]/sh[1]))*ps)
        C.eq(H[(Ellipsis,)+k], acc, "transform of a profile", tol=F(1, 10**6))
    C.same(int(uh.res2lmax(math.pi/50)), 50, "lmax for a resolution")
    br = np.array([1.0, 0.9, 0.6, 0.3, 1e-3, 1e-7]); rb = np.arange(6)*0.1
    C.eq(uh.beam2res(br, rb), 0.4/3, "beam resolution"); C.eq(uh.beam2rmax(br, rb), 0.4, "beam size")
    wbr, wr = uh.harm2profile_flat_2d(e.ndmap(np.zeros(sh)+0j, w))
    C.check(wr is not None and len(wr) == len(wbr), "radii returned")
