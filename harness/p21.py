import itertools
from .fourier import *
PRELOAD = ["fft", "enmap", "powspec"]
BOUNDS = "symmetric matrices of 1-3 components with 0-2 other dimensions of 1-3 elements; spectra of up to 7 multipoles; matrix powers of 2x2 and 3x3 matrices with any eigenvalues in [-4,4] in listed orthogonal bases, exponents -2 to 3 and +-1/2; maps of up to 4x4 pixels at listed geometries; all contents unconstrained reals in [-100,100]"
ASSUMPTIONS = ["numpy.linalg.eigh returns an eigenvalue decomposition; text files keep at least six digits (compared to 1e-5)", "eigenvalues within 1e-6 of zero, or of the ratio at which they are cut, are not claimed"]

def pairs(n, scheme):
    """unique elements of a symmetric matrix in the documented order"""
    nc = next(k for k in range(1, 9) if k*(k+1)//2 >= n)
    allp = [(i, j) for i in range(nc) for j in range(i, nc)]
    if scheme == "stable": r = sorted(allp, key=lambda p: (p[1], p[0] != p[1], p[0]))
    elif scheme == "diag": r = sorted(allp, key=lambda p: (p[1]-p[0], p[0]))
    else:
        off = [p for p in allp if p[0] != p[1]][:max(0, n-nc)]
        r = sorted([(i, i) for i in range(nc)]+off)
    return r[:n]

@case(params=["order", "roundtrip", "partial"], budget=(40, 200))
def symmetric(C, what):
    """compressed_order, sym_compress and sym_expand: each unique element in its documented place, along any axes"""
    ps, np = C.px.powspec, C.np
    scheme = C.choice("scheme", ["diag", "stable", "row", None])
    sc = scheme or "diag"
    if what == "order":
        n = C.pick("n", 1, C.q(10, 15))
        r = ps.compressed_order(n, scheme)
        C.same([tuple(int(v) for v in p) for p in r], pairs(n, sc), "order")
        C.raises(ValueError, lambda: ps.compressed_order(3, "nonsense"), "unknown scheme")
        return
    nc = C.pick("nc", 1, 3); full = nc*(nc+1)//2
    pre, post = C.choice("dims", [((), ()), ((), (2,)), ((2,), ()), ((2,), (3,)), ((), (2, 2))])
    n = full if what == "roundtrip" else C.pick("n", nc, full) if nc > 1 else 1
    u = C.data("u", pre+(full,)+post)
    pos = {p: k for k, p in enumerate(pairs(full, "stable"))}
    at = lambda i, j: u[(slice(None),)*len(pre)+(pos[(min(i, j), max(i, j))],)]
    A = np.stack([np.stack([at(i, j) for j in range(nc)], len(pre)) for i in range(nc)], len(pre))
    C.same(tuple(A.shape), pre+(nc, nc)+post, "setup")
    k = len(pre)
    neg = C.choice("neg", [False, True])
    axes = [k-A.ndim, k+1-A.ndim] if neg else [k, k+1]
    comb = C.choice("combined", [False, True])
    A0 = C.arr(A).copy()
    kw = dict(scheme=scheme, axes=axes, combined=comb)
    if n != full: kw["n"] = n
    c = ps.sym_compress(A, **kw)
    C.same(tuple(c.shape), pre+(n,)+post, "compressed shape")
    c_ = np.moveaxis(c, k, 0)
    for q, (i, j) in enumerate(pairs(n, sc)): C.eq(c_[q], at(i, j)*(2 if comb and i != j else 1), "compressed element")
    C.eq(A, A0, "input unchanged")
    kw = dict(scheme=scheme, axis=k-c.ndim if neg else k, combined=comb)
    if n != full and C.choice("ncomp", [True, False]): kw["ncomp"] = nc
    else: nc = max(j for i, j in pairs(n, sc))+1
    r = ps.sym_expand(c, **kw)
    C.same(tuple(r.shape), pre+(nc, nc)+post, "expanded shape")
    r_ = np.moveaxis(r, [k, k+1], [0, 1]); have = set(pairs(n, sc))
    for i in range(nc):
        for j in range(nc):
            C.eq(r_[i, j], at(i, j) if (min(i, j), max(i, j)) in have else 0*at(i, j), "expanded element")

@case(budget=(30, 120))
def scaling(C):
    """scale_spectrum: 2 pi/(l(l+1)) per multipole, undone by the other direction; monopole zero; the input is left alone"""
    ps, np = C.px.powspec, C.np
    n = C.pick("n", 1, C.q(4, 7)); pre = C.choice("pre", [(), (2,), (2, 2)])
    a = C.data("a", pre+(n,)); a0 = C.arr(a).copy()
    ext = C.choice("extra", [0, 1]); d = C.choice("dir", [1, -1])
    r = ps.scale_spectrum(a, d, ext)
    for l in range(n):
        f = 0.0 if l == 0 else (2*math.pi/(l*(l+1.0))**(1+ext))**d
        C.eq(r[..., l], a[..., l]*f, "scaled", tol=1e-5)
    b = ps.scale_spectrum(r, -d, ext)
    for l in range(1, n): C.eq(b[..., l], a[..., l], "undone", tol=1e-5)
    p = ps.scale_camb_scalar_phi(a, d)
    S = (2.726e6**2)**d
    for l in range(n): C.eq(p[..., l]*S, a[..., l]*(0.0 if l == 0 else l**(-4.0*d)), "lensing potential scaled", tol=1e-3)
    C.eq(a, a0, "input unchanged")
    if n > 1:
        o = C.pick("off", 1, 5)
        r = ps.scale_spectrum(a, 1, 0, l=C.np.arange(n)+o)
        for l in range(1, n): C.eq(r[..., l], a[..., l]*(2*math.pi/((l+o)*(l+o+1.0))), "scaled with given multipoles", tol=1e-5)

@case(params=["roundtrip", "inds", "camb_scalar", "camb_lens"], budget=(40, 150))
def files(C, what):
    """spectrum files: what is written is read back; rows go to the multipole they name; columns to their component"""
    ps, np = C.px.powspec, C.np
    if what == "roundtrip":
        nc = C.pick("nc", 1, 3); nl = C.pick("nl", 2, C.q(3, 5))
        u = C.data("u", (nc*(nc+1)//2, nl))
        scheme = C.choice("scheme", ["diag", "stable", "row"]); inds = C.choice("inds", [True, False]); scale = C.choice("scale", [True, False])
        pos = {p: k for k, p in enumerate(pairs(len(u), "row"))}
        A = np.stack([np.stack([u[pos[(min(i, j), max(i, j))]] for j in range(nc)]) for i in range(nc)])
        f = C.file("s.txt")
        if not inds and nc == 1: return
        ps.write_spectrum(f, A, inds=inds, scale=scale, expand=scheme)
        r = ps.read_spectrum(f, inds=inds, scale=scale, expand=scheme)
        C.same(tuple(r.shape), (nc, nc, nl), "shape")
        for l in range(nl): C.eq(r[..., l], A[..., l] if l or not scale else 0*A[..., l], "value", tol=2e-4)
        r = ps.read_spectrum(f, inds=inds, scale=scale, expand=None)
        C.same(tuple(r.shape), (len(u), nl), "flat shape")
        for k, (i, j) in enumerate(pairs(len(u), scheme)):
            for l in range(1, nl): C.eq(r[k, l], A[i, j, l], "flat value", tol=2e-4)
        return
    l0 = C.pick("l0", 0, 3); nl = C.pick("nl", 2, C.q(2, 4))
    ncol = {"inds": 3, "camb_scalar": 5, "camb_lens": 7}[what]
    a = C.data("a", (nl, ncol))
    rows = [[float(l0+i)]+[a[i, k] for k in range(ncol)] for i in range(nl)]
    f = C.mktxt("in.txt", rows)
    scale = C.choice("scale", [True, False])
    n = l0+nl
    dl = lambda l, p=1: (2*math.pi/(l*(l+1.0))**p if l else 0.0) if scale else 1.0
    def col(k, l, w): return 0.0 if l < l0 else a[l-l0, k]*w(l)
    if what == "inds":
        m = C.choice("ncol", [None, 1, 2])
        r = ps.read_spectrum(f, scale=scale, ncol=m, expand=None)
        C.same(tuple(r.shape), (m or 3, n), "shape")
        for k in range(m or 3):
            for l in range(n): C.eq(r[k, l], col(k, l, dl), "value", tol=1e-5)
        r = ps.read_spectrum(f, scale=scale, ncol=m, expand="diag", ncomp=C.choice("ncomp", [None, 3]))
        for k, (i, j) in enumerate(pairs(m or 3, "diag")):
            for l in range(n): C.eq(r[i, j, l], col(k, l, dl), "expanded value", tol=1e-5); C.eq(r[j, i, l], col(k, l, dl), "expanded value", tol=1e-5)
        return
    phi = lambda l: (0.0 if l == 0 else 1/(l**4*2.726e6**2)) if scale else 1.0
    if what == "camb_scalar":
        ncmb = C.choice("ncmb", [3, 2])
        if C.choice("expand", [True, False]):
            cmb, lens = ps.read_camb_scalar(f, scale=scale, ncmb=ncmb)
            C.same((tuple(cmb.shape), tuple(lens.shape)), ((3, 3, n), (1, 1, n)), "shapes")
            # the columns are those of the diag order of the number of columns there are
            for k, (i, j) in enumerate(pairs(ncmb, "diag")):
                for l in range(n): C.eq(cmb[i, j, l], col(k, l, dl), "cmb", tol=1e-5)
            lens = lens[0, 0]
        else:
            cmb, lens = ps.read_camb_scalar(f, scale=scale, ncmb=ncmb, expand=None)
            C.same((tuple(cmb.shape), tuple(lens.shape)), ((ncmb, n), (n,)), "shapes")
            for k in range(ncmb):
                for l in range(n): C.eq(cmb[k, l], col(k, l, dl), "cmb", tol=1e-5)
        for l in range(n): C.eq(lens[l]*(1e13 if scale else 1), col(ncmb, l, phi)*(1e13 if scale else 1), "lensing", tol=1e-4)
    else:
        W = [dl]*4+[lambda l: dl(l, 2)]+[lambda l: dl(l, 1.5)]*2
        r = ps.read_camb_full_lens(f, scale=scale, expand=False)
        for k in range(7):
            for l in range(n): C.eq(r[k, l], col(k, l, W[k]), "column", tol=1e-5)
        r = ps.read_camb_full_lens(f, scale=scale)
        C.same(tuple(r.shape), (4, 4, n), "shape")
        where = {(1, 1): 0, (2, 2): 1, (3, 3): 2, (1, 2): 3, (0, 0): 4, (0, 1): 5, (0, 2): 6}
        for i in range(4):
            for j in range(4):
                k = where.get((min(i, j), max(i, j)))
                for l in range(n): C.eq(r[i, j, l], 0.0 if k is None else col(k, l, W[k]), "d, T, E, B", tol=1e-5)

def legendre(l, x):
    a, b = 1.0, x
    if l == 0: return a
    for k in range(1, l): a, b = b, ((2*k+1)*x*b-k*a)/(k+1)
    return b
@case(budget=(30, 120))
def correlation(C):
    """spec2corr: sum of (2l+1)/4 pi C_l P_l"""
    ps, np = C.px.powspec, C.np
    nc = C.pick("nc", 1, 2); nl = C.pick("nl", 1, C.q(4, 6))
    u = C.data("u", (3, nl)); A = np.stack([np.stack([u[0], u[2]]), np.stack([u[2], u[1]])])[:nc, :nc]
    th = [0.0, 0.4, 1.3, 3.0]; sym = C.choice("sym", [True, False])
    if C.choice("cos", [True, False]): r = ps.spec2corr(A, [math.cos(t) for t in th], iscos=True, symmetric=sym)
    else: r = ps.spec2corr(A, th, symmetric=sym)
    if not sym: r = r.reshape((nc, nc)+tuple(r.shape[1:]))
    C.same(tuple(r.shape), (nc, nc, len(th)), "shape")
    for i in range(nc):
        for j in range(nc):
            for k, t in enumerate(th): C.eq(r[i, j, k], sum([A[i, j, l]*((2*l+1)/(4*math.pi)*legendre(l, math.cos(t))) for l in range(nl)]), "correlation", tol=1e-5)

BASES = [[[1, 0], [0, 1]], [[F(3, 5), F(-4, 5)], [F(4, 5), F(3, 5)]], [[F(2, 3), F(-1, 3), F(2, 3)], [F(2, 3), F(2, 3), F(-1, 3)], [F(-1, 3), F(2, 3), F(2, 3)]]]
@case(params=[2, -1, 0.5, -0.5, 3, -2, 1], budget=(60, 300), max_paths=(3000, 20000))
def matpow(C, e):
    """eigpow and multi_pow raise the eigenvalues of each matrix to the power; negative eigenvalues are dropped for broken powers and tiny ones for negative powers; any axes"""
    u, en, np = C.px.utils, C.px.enmap, C.np
    V = [[C.rat(x) for x in r] for r in C.choice("V", BASES)]; n = len(V)
    form = C.choice("form", ["single", "last", "first", "middle", "map"])
    nm = 1 if form == "single" else 2
    cut = C.choice("cut", [False, True]) if e < 0 else False
    A, Es = [], []
    for k in range(nm):
        E = [C.real("E%d_%d" % (k, i), -4, 4) for i in range(n)] if k == 0 else [C.rat(x) for x in (2, 3, 5)[:n]]
        if k == 0:
            for i, x in enumerate(E):
                if cut and i == 0: C.assume(x >= F(1, 10**20), x <= F(1, 10**18)) if False else None
                else: C.assume(C.or_(x > F(1, 100), x < -F(1, 100)))
            if cut: C.assume(E[0] == 0)
        A.append(C.spd(E, V)); Es.append(E)
    C.feasible()
    def power(x):
        if e in (2, 3): return x**e
        if e == 1: return x
        if e in (-1, -2): return 1/x**(-e)
        return C.np.sqrt(x) if e > 0 else 1/C.np.sqrt(x)
    want = []
    for E in Es:
        P = []
        for i, x in enumerate(E):
            if e != int(e) and bool(x < 0): P.append(0*x)
            elif e < 0 and bool(x == 0): P.append(0*x)
            else: P.append(power(x))
        want.append([[sum([V[a][k]*P[k]*V[b][k] for k in range(n)]) for b in range(n)] for a in range(n)])
    if form == "single": r = u.eigpow(A[0], e); R = [r]
    elif form == "last": r = u.eigpow(np.stack(A), e); R = [r[0], r[1]]
    elif form == "first": r = u.eigpow(np.stack(A, -1), e, axes=[0, 1]); R = [r[..., 0], r[..., 1]]
    elif form == "middle": r = u.eigpow(np.stack([np.stack(A)], -1), e, axes=[1, 2]); R = [r[0, ..., 0], r[1, ..., 0]]
    else:
        w = C.wcs("CAR", [10, 0], [-0.5, 0.5], [3, 20])
        M = en.ndmap(C.arr(np.stack([np.stack(A, -1)], -2)).copy(), w)
        r = en.multi_pow(M, e); R = [r[..., 0, 0], r[..., 0, 1]]
        C.eq(C.arr(r.wcs.wcs.crpix), C.arr([3, 20]), "wcs")
    for k in range(nm):
        C.same(tuple(R[k].shape), (n, n), "shape")
        for a in range(n):
            for b in range(n): C.eq(R[k][a, b], want[k][a][b], "matrix power", tol=1e-6)

@case(params=["map_mul", "cov", "beam", "dice", "nodiag", "eigsort"], budget=(30, 120))
def algebra(C, what):
    """map_mul; cov2corr and corr2cov; nodiag; beam areas; distributions of sums; sorted eigenvalues"""
    u, en, np = C.px.utils, C.px.enmap, C.np
    if what == "map_mul":
        a, b = C.pick("a", 1, 3), C.pick("b", 1, 2); sh = C.choice("sh", [(1, 2), (2, 2)]); pre = C.choice("pre", [(), (2,)])
        w = C.wcs("CAR", [10, 0], [-0.5, 0.5], [3, 20])
        m = C.data("m", (a, b)+sh); v = C.data("v", pre+(b,)+sh)
        r = en.map_mul(en.ndmap(m, w), en.ndmap(v, w))
        C.same(tuple(r.shape), pre+(a,)+sh, "shape")
        for I in itertools.product(*[range(k) for k in pre]):
            for i in range(a):
                t = 0
                for j in range(b): t = t+m[i, j]*v[I+(j,)]
                C.eq(r[I+(i,)], t, "product")
        C.eq(C.arr(r.wcs.wcs.crpix), C.arr([3, 20]), "wcs")
        s = C.data("s", sh)
        C.eq(en.map_mul(en.ndmap(s, w), en.ndmap(v, w)), s*v, "scalar product")
    elif what == "cov":
        n = C.pick("n", 1, 3)
        s = [C.real("s%d" % i, F(1, 10), 9) for i in range(n)]; c = C.data("c", (n, n), -1, 1)
        M = C.arr([[s[i]*s[j]*(1 if i == j else c[i, j]) for j in range(n)] for i in range(n)])
        r, std = u.cov2corr(M)
        for i in range(n):
            C.eq(std[i], s[i], "standard deviation")
            for j in range(n): C.eq(r[i, j], 1 if i == j else c[i, j], "correlation")
        C.eq(u.corr2cov(r, std), M, "back to the covariance")
    elif what == "beam":
        n = C.pick("n", 2, 6); b = C.data("b", (n,)); r = [0.1*k*k for k in range(n)] if C.choice("even", [False, True]) else [0.2*k for k in range(n)]
        # exact for profiles that are polynomials r^0..r^2 times r
        c = [C.real("c%d" % k, -5, 5) for k in range(2)]
        prof = C.arr([c[0]+c[1]*x for x in r])
        got = u.calc_beam_area([C.arr(r), prof])
        R = r[-1]
        if n >= 3: C.eq(got, 2*math.pi*(c[0]*(R**2/2)+c[1]*(R**3/3)), "area of a linear beam", tol=1e-5)
        else: C.eq(got, math.pi*(R*R)*(c[0]+c[1]*R), "area with two samples", tol=1e-5)
    elif what == "dice":
        n = C.pick("n", 1, 3); N = C.pick("N", 0, C.q(4, 6)); d = C.data("d", (n,), -3, 3)
        r = u.distpow(d, N); want = [1]
        for k in range(N): want = [sum([want[i]*d[j-i] for i in range(len(want)) if 0 <= j-i < n]) for j in range(len(want)+n-1)]
        C.same(len(r), len(want), "length")
        for i in range(len(r)): C.eq(r[i], want[i], "convolution power")
        D = C.pick("D", 1, 4); K = C.pick("K", 1, 2); r = u.dicedist(K, D)
        for t in range(K*D+1): C.eq(r[t], sum(1 for I in itertools.product(range(1, D+1), repeat=K) if sum(I) == t)/D**K, "dice")
    elif what == "nodiag":
        n = C.pick("n", 1, 3); a = C.data("a", (n, n)); a0 = C.arr(a).copy(); r = u.nodiag(a)
        for i in range(n):
            for j in range(n): C.eq(r[i, j], 0 if i == j else a[i, j], "zero diagonal")
        C.eq(a, a0, "input unchanged")
    else:
        V = [[C.rat(x) for x in r] for r in C.choice("V", BASES)]; n = len(V)
        E = [C.real("E%d" % i, F(1, 4), 4) for i in range(n)]
        C.assume(*[C.or_(E[i] > E[j]+F(1, 20), E[i] < E[j]-F(1, 20)) for i in range(n) for j in range(i)]); C.feasible()
        A = C.spd(E, V); nm = C.choice("nmax", [None, 1, 2])
        k = n if nm is None else min(nm, n)
        e, v = u.eigsort(A, nmax=nm); q = u.eigsort(A, nmax=nm, merged=True)
        C.same((tuple(e.shape), tuple(v.shape), tuple(q.shape)), ((k,), (n, k), (n, k)), "shapes")
        for i in range(k-1): C.check(e[i] > e[i+1], "falling")
        for i in range(k):
            C.check(C.or_(*[C.and_(e[i] <= x+1e-6, e[i] >= x-1e-6) for x in E]), "an eigenvalue")
            for a in range(n): C.eq(sum([A[a, b]*v[b, i] for b in range(n)]), e[i]*v[a, i], "eigenvector", tol=1e-6)
        for x in E: C.check(C.or_(x <= e[k-1]+1e-6, *[C.and_(e[i] <= x+1e-6, e[i] >= x-1e-6) for i in range(k)]), "the largest ones")
        for a in range(n):
            for b in range(n): C.eq(sum([q[a, i]*q[b, i] for i in range(k)]), sum([v[a, i]*e[i]*v[b, i] for i in range(k)]), "merged", tol=1e-6)

def lspec(C, P, l, border=True):
    """linear interpolation in a spectrum, zero outside"""
    n = len(P); i = int(math.floor(l)); f = l-i
    if l > n-1: return 0.0
    return P[i] if f == 0 or i == n-1 else P[i]*(1-f)+P[i+1]*f
CD = [("CAR", (2, 3), (-60., 30.)), ("CAR", (3, 2), (40., 50.)), ("", (4, 4), (90., -60.)), ("", (3, 1), (70., 100.))]
def geo(C, n=4):
    kind, sh, cd = C.choice("g", CD[:n])
    w = C.wcs(kind, [10, 0] if kind else [1, 2], list(cd), [1, 1])
    return sh, w
def modes(en, sh, w):
    L = en.lmap(sh, w)
    return [[math.hypot(float(L[0, i, j]), float(L[1, i, j])) for j in range(sh[1])] for i in range(sh[0])]

@case(params=["power", "root", "massage"], budget=(40, 200))
def flat(C, what):
    """spec2flat: the spectrum at each mode's multipole, per pixel; massage_spectrum cuts or pads to the map's components"""
    en, np = C.px.enmap, C.np
    if what == "massage":
        nc = C.pick("nc", 0, 3); nl = C.pick("nl", 1, 3)
        c = C.data("c", ((nc, nc) if nc else ())+(nl,)); sh = C.choice("sh", [(4, 5), (1, 4, 5), (2, 4, 5), (3, 4, 5)])
        r = en.massage_spectrum(c, sh)
        C_ = c if nc else c[None, None]
        if len(sh) == 2: C.eq(r, C_[0, 0], "scalar")
        else:
            C.same(tuple(r.shape), (sh[0], sh[0], nl), "shape")
            for i in range(sh[0]):
                for j in range(sh[0]): C.eq(r[i, j], C_[i, j] if max(i, j) < max(nc, 1) else np.zeros(nl), "padded")
        return
    sh, w = geo(C)
    nl = C.choice("nl", [4, 9])
    scale = sh[0]*sh[1]/float(en.area(sh, w))
    ls = modes(en, sh, w)
    if what == "power":
        nc = C.choice("nc", [0, 1, 2])
        c = C.data("c", ((nc, nc) if nc else ())+(nl,)); c0 = C.arr(c).copy()
        r = en.spec2flat(sh, w, c, smooth=0)
        C.same(tuple(r.shape), ((nc, nc) if nc else ())+sh, "shape")
        for I in itertools.product(range(max(nc, 1)), repeat=2):
            P, R = (c[I], r[I]) if nc else (c, r)
            for i in range(sh[0]):
                for j in range(sh[1]):
                    if abs(ls[i][j]-(nl-1)) < 1e-6: continue
                    C.eq(R[i, j], lspec(C, P, ls[i][j])*scale, "power", tol=1e-4)
        C.eq(c, c0, "input unchanged")
        C.eq(C.arr(r.wcs.wcs.crpix), C.arr(w.wcs.crpix), "wcs"); C.eq(C.arr(r.wcs.wcs.cdelt), C.arr(w.wcs.cdelt), "wcs")
    else:
        P = [C.real("p%d" % l, F(1, 4), 9) for l in range(nl)]
        r = en.spec2flat(sh, w, C.arr([[P]]), 0.5, smooth=0)
        for i in range(sh[0]):
            for j in range(sh[1]):
                l = int(round(ls[i][j]))
                if abs(ls[i][j]-l) > 1e-9 or l >= nl-1: continue
                C.check(r[0, 0, i, j] >= 0, "sign"); C.eq(r[0, 0, i, j]**2, P[l]*scale, "square root", tol=1e-3)

@case(budget=(40, 200))
def smoothing(C):
    """smooth_spectrum: weighted mean under the kernel, the spectrum continued symmetrically at both ends"""
    en, np = C.px.enmap, C.np
    nl = C.choice("nl", [3, 4, 6]); pre = C.choice("pre", [(), (2,), (1, 2)])
    p = C.data("p", pre+(nl,)); p0 = C.arr(p).copy()
    kern = C.choice("kernel", ["gauss", "step", "array", "arrays"]); width = C.choice("width", [1.0, 2.5])
    wt = C.choice("weight", ["mode", "uniform", "array"])
    n = int(np.prod(pre)) if pre else 1
    if kern == "gauss": K = [[math.exp(-0.5*(l/width)**2) for l in range(nl)]]*n; k = "gauss"
    elif kern == "step": K = [[1.0 if l < int(width) else 0.0 for l in range(nl)]]*n; k = "step"
    elif kern == "array": K = [([1.0, 0.5, 0.25]+[0.0]*nl)[:nl]]*n; k = C.arr([1.0, 0.5, 0.25][:nl])
    else: K = [[1.0+i, 0.5]+[0.0]*(nl-2) for i in range(n)]; k = C.arr([r[:2] for r in K])
    if wt == "mode":
        W = [[float(l*l) for l in range(nl)]]*n; g = "mode"
    elif wt == "uniform": W = [[1.0]*nl]*n; g = "uniform"
    else: W = [[1.0+l for l in range(nl)]]*n; g = C.arr(W[0])
    r = en.smooth_spectrum(p, kernel=k, weight=g, width=width)
    C.same(tuple(r.shape), pre+(nl,), "shape")
    m = 2*(nl-1); fold = lambda i: min(i % m, m-i % m)
    pf, rf = C.arr(p).reshape(n, nl), C.arr(r).reshape(n, nl)
    for s in range(n):
        for l in range(nl):
            num, den = 0, 0.0
            for q in range(m):
                kk = K[s][fold(l-q)]*W[s][fold(q)]
                num = num+pf[s, fold(q)]*kk; den += kk
            if den < 1e-9: continue
            C.eq(rf[s, l], num*(1/den), "smoothed", tol=1e-4)
    C.eq(p, p0, "input unchanged")

@case(params=["power2d", "pixel", "spectrum", "white"], budget=(60, 300))
def simulate(C, what):
    """rand_map: independent normal numbers for every mode, times the square root of its power (a matrix for several components), transformed to the sky"""
    en, np = C.px.enmap, C.np
    sh, w = geo(C, 3); npix = sh[0]*sh[1]
    if what == "white":
        pre = C.choice("pre", [(), (2,)]); N = npix*(2 if pre else 1)
        with C.gauss("g", N): r = en.rand_gauss(pre+sh, w)
        C.same(tuple(r.shape), pre+sh, "shape"); C.eq(r, C.data("g", (N,), -4, 4).reshape(pre+sh), "white noise")
        return
    nc = C.choice("nc", [1, 2]) if what != "spectrum" else C.choice("nc", [0, 1, 3])
    n = npix*max(nc, 1)
    pre = (nc,) if nc else ()
    scale = sh[0]*sh[1]/float(en.area(sh, w))
    if what == "spectrum":
        nl = 9
        P = np.array([[1.0+0.5*i+(7*l*(i+1)) % 5 for l in range(nl)] for i in range(max(nc, 1))])
        cov = np.zeros((max(nc, 1), max(nc, 1), nl))
        for i in range(max(nc, 1)): cov[i, i] = P[i]
        if nc == 0: cov = cov[0, 0]
        root = en.spec2flat(pre+sh, w, cov, 0.5)
        if nc == 0: root = root[None, None]
        at = lambda i, j, y, x: root[i, j, y, x]
        kw = {}
    else:
        V = BASES[1]; E = [[C.rat(1+k, 2), C.rat(9, 4+k)] for k in range(npix)]
        cov = np.zeros((nc, nc)+sh)
        rt = {}
        for k in range(npix):
            y, x = k//sh[1], k % sh[1]
            if nc == 1: cov[0, 0, y, x] = C.rat(k*k+1, 4); rt[y, x] = [[math.sqrt((k*k+1)/4)]]
            else:
                ev = [float(v) for v in E[k]]
                for a in range(2):
                    for b in range(2): cov[a, b, y, x] = sum(float(V[a][q])*ev[q]*float(V[b][q]) for q in range(2))
                rt[y, x] = [[sum(float(V[a][q])*math.sqrt(ev[q])*float(V[b][q]) for q in range(2)) for b in range(2)] for a in range(2)]
        f = 1.0 if what == "pixel" else math.sqrt(scale)
        at = lambda i, j, y, x: rt[y, x][i][j]*f
        kw = dict(pixel_units=what == "pixel")
    g = C.data("g", (2*n,), -4, 4); gr, gi = g[:n].reshape((max(nc, 1),)+sh), g[n:].reshape((max(nc, 1),)+sh)
    with C.gauss("g", 2*n): k = en.rand_gauss_iso_harm(pre+sh, w, cov, **kw)
    C.same(tuple(k.shape), pre+sh, "shape")
    K = k if nc else k[None]
    for i in range(max(nc, 1)):
        for y in range(sh[0]):
            for x in range(sh[1]):
                C.eq(K[i, y, x].real, sum([gr[j, y, x]*at(i, j, y, x) for j in range(max(nc, 1))]), "real part", tol=1e-4)
                C.eq(K[i, y, x].imag, sum([gi[j, y, x]*at(i, j, y, x) for j in range(max(nc, 1))]), "imaginary part", tol=1e-4)
    scalar = C.choice("scalar", [True, False])
    if nc == 2 and not scalar: return
    with C.gauss("g", 2*n): m = en.rand_map(pre+sh, w, cov, scalar=scalar, **kw)
    C.same(tuple(m.shape), pre+sh, "map shape")
    C.eq(m, C.arr(en.ifft(k, normalize=True).real if scalar else en.harm2map(k)), "map", tol=1e-4)
