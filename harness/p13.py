from .common import *
from . import sphere as Y
import math
PRELOAD = ["enmap", "curvedsky"]
EXTS = ["cmisc"]
ASAN = True
BOUNDS = "coefficients real and imaginary in -4..4, lmax 0-3 (quick) or 0-5 (thorough), mmax up to lmax; triangular, rectangular and user-given layouts; one to three leading axes of length 1-2; functions of l shorter than, as long as and longer than lmax; single and double precision; one thread"
ASSUMPTIONS = ["the Cython module is executed from its source with static types turned into casts; cmisc_core.c from the LLVM IR clang makes of it, without OpenMP"]
TOL = F(1, 1000)

def layout(C, lo=0, hi=None, custom=True):
    """ainfo, the list of (l,m) it holds, the index of each and the number of elements"""
    cs, np = C.px.curvedsky, C.np
    C.ext("cmisc")
    lmax = C.pick("lmax", lo, hi if hi is not None else C.q(3, 5))
    mmax = lmax-C.pick("dm", 0, min(lmax, C.q(1, 2)))
    k = C.choice("layout", ["tri", "rect"]+(["own"] if custom else []))
    lm = Y.tri(lmax, mmax)
    if k == "own":
        ms = [(mmax-m)*(lmax+2)+1 for m in range(mmax+1)]
        ainfo = cs.alm_info(lmax=lmax, mmax=mmax, layout=np.array(ms))
    elif k == "rect":
        ms = [m*(lmax+1) for m in range(mmax+1)]
        ainfo = cs.alm_info(lmax=lmax, mmax=mmax, layout="rect")
    else:
        ms, t = [], 0
        for m in range(mmax+1): ms.append(t-m); t += lmax+1-m
        ainfo = cs.alm_info(lmax=lmax, mmax=mmax)
    return ainfo, lm, [ms[m]+l for l, m in lm], max(ms)+lmax+1

def get(C, name, pre, n, dt, lm=None, ind=None):
    """coefficients; those with m=0 are real, as for any real field"""
    a = C.data(name, pre+(n,), -4, 4, cplx=True)
    if lm is not None:
        for (l, m), i in zip(lm, ind):
            if m == 0: a[..., i] = a[..., i].real+0j
    return C.astype(a, dt) if dt != "c16" else a

@case(budget=(30, 200))
def indices(C):
    """alm_info gives every (l,m) its own place in the array, and works out lmax from the array's length"""
    np, cs = C.np, C.px.curvedsky
    ainfo, lm, ind, n = layout(C)
    C.same(int(ainfo.nelem), n, "number of elements")
    C.same((int(ainfo.nl), int(ainfo.nm)), (lm[-1][0]+1 if lm else 1, max(m for l, m in lm)+1), "numbers of l and m")
    C.same([int(ainfo.lm2ind(l, m)) for l, m in lm], ind, "indices")
    L, M = np.array([l for l, m in lm]), np.array([m for l, m in lm])
    C.same([int(v) for v in ainfo.lm2ind(L, M)], ind, "indices of an array")

@case(budget=(30, 100))
def sizes(C):
    """the number of triangular coefficients determines lmax"""
    np, cs = C.np, C.px.curvedsky
    lmax = C.int("lmax", 0, 100000)
    n = (lmax+1)*(lmax+2)*(F(1, 2) if C.sym else 0.5)
    C.check(cs.nalm2lmax(n) == lmax, "lmax from the number of coefficients")

@case(budget=(30, 100))
def stride(C):
    """a layout with a stride leaves room for that many interleaved sets"""
    np, cs = C.np, C.px.curvedsky
    lmax, st = C.pick("lmax", 0, 3), C.pick("stride", 1, 3)
    lay = C.choice("layout", ["tri", "rect"])
    ainfo = cs.alm_info(lmax=lmax, stride=st, layout=lay)
    one = cs.alm_info(lmax=lmax, layout=lay)
    C.same(int(ainfo.nelem), st*int(one.nelem), "number of elements")
    for l, m in Y.tri(lmax): C.same(int(ainfo.lm2ind(l, m)), st*int(one.lm2ind(l, m)), "index")

@case(params=["c16", "c8"], budget=(60, 400))
def spectrum(C, dt):
    """alm2cl: sum over m of a b*, over 2l+1"""
    np, cs = C.np, C.px.curvedsky
    ainfo, lm, ind, n = layout(C, custom=C.tier != "quick" or dt == "c16")
    form = C.choice("form", ["auto", "cross", "matrix", "matrix2", "bcast"] if dt == "c16" else ["auto", "matrix2"])
    def g(nm, pre): return get(C, nm, pre, n, dt, lm, ind)
    if form == "auto": a = b = g("a", ()); args = (a,)
    elif form == "cross": a, b = g("a", ()), g("b", ()); args = (a, b)
    elif form == "bcast": a, b = g("a", (2,)), g("b", ()); args = (a, b)
    elif form == "matrix": x = g("a", (2,)); a, b = x[:, None], x[None]; args = (a, b)
    else: x, y = g("a", (2,)), g("b", (2,)); a, b = x[:, None], y[None]; args = (a, b)
    a0, b0 = C.arr(a).copy(), C.arr(b).copy()
    how = C.choice("how", ["func", "method"])
    if how == "func": cl = cs.alm2cl(*args, ainfo=ainfo)
    else: cl = ainfo.alm2cl(*args)
    pre = np.broadcast(np.zeros(a.shape[:-1]+(1,)), np.zeros(b.shape[:-1]+(1,))).shape[:-1] if False else {"auto": (), "cross": (), "bcast": (2,)}.get(form, (2, 2))
    lmax = int(ainfo.lmax)
    C.same(tuple(cl.shape), pre+(lmax+1,), "shape")
    want = []
    def one(u, v):
        out = []
        for L in range(lmax+1):
            t = 0
            for (l, m), i in zip(lm, ind):
                if l == L: t = t+(1 if m == 0 else 2)*(u[i].real*v[i].real+u[i].imag*v[i].imag)
            out.append(t/C.rat(2*L+1))
        return out
    if pre == (): want = one(a, b)
    elif form == "bcast": want = [one(a[i], b) for i in range(2)]
    else: want = [[one(a[i, 0], b[0, j]) for j in range(2)] for i in range(2)]
    C.eq(cl, C.arr(want), "spectrum", tol=TOL)
    C.eq(a, a0, "the coefficients are left alone")
    C.eq(b, b0, "the coefficients are left alone")

@case(params=["c16", "c8"], budget=(60, 400))
def multiply(C, dt):
    """almxfl and lmul multiply every a_lm by f_l; f is zero beyond its end"""
    np, cs = C.np, C.px.curvedsky
    ainfo, lm, ind, n = layout(C, 0 if C.tier != "quick" else 1, 2 if C.tier == "quick" and dt == "c8" else None, custom=C.tier != "quick" or dt == "c16")
    lmax = int(ainfo.lmax)
    nl = lmax+1+C.pick("dl", -1, 1)
    if nl < 1: nl = 1
    form = C.choice("form", ["1d", "pre", "per", "outer"] if dt == "c16" else ["1d", "per"])
    apre, fpre = {"1d": ((), ()), "pre": ((2,), ()), "per": ((2,), (2,)), "outer": ((), (2,))}[form]
    a = get(C, "a", apre, n, dt); a0 = C.arr(a).copy()
    f = C.data("f", fpre+(nl,), -4, 4)
    if dt == "c8": f = C.astype(f, "f4")
    how = C.choice("how", ["almxfl", "func", "out", "inplace", "lmul"])
    if C.tier == "quick" and (how in ("almxfl", "func") and dt == "c8" or form == "per" and how == "almxfl"): C.assume(False)
    if how == "func" and (form != "1d" or nl != lmax+1) or how in ("out", "inplace") and form == "outer": C.assume(False)
    out = None
    if how == "almxfl": r = cs.almxfl(a, f, ainfo=ainfo)
    elif how == "lmul": r = ainfo.lmul(a, f)
    elif how == "func":
        fun = lambda l: C.arr([f[int(x)] for x in l])
        r = cs.almxfl(a, fun, ainfo=ainfo)
    elif how == "out":
        out = C.astype(C.junk(apre+(n,), complex), dt)
        r = cs.almxfl(a, f, ainfo=ainfo, out=out)
    else: r = ainfo.lmul(a, f, out=a)
    rpre = apre or fpre
    C.same(tuple(r.shape), rpre+(n,), "shape")
    idx = [()] if rpre == () else [(0,), (1,)]
    for I in idx:
        aa, ff, rr = a0[I if apre else ()], f[I if fpre else ()], r[I]
        C.eq(C.arr([rr[i] for i in ind]), C.arr([aa[i]*(ff[l] if l < nl else 0) for (l, m), i in zip(lm, ind)]), "product", tol=TOL)
    if how == "out": C.eq(out, r, "out has the result", tol=TOL)
    if how == "inplace": C.eq(a, r, "the array itself has the result", tol=TOL)
    else: C.eq(a, a0, "the coefficients are left alone")

@case(params=["c16", "c8"], budget=(60, 400))
def matmul(C, dt):
    """lmul with a matrix per l"""
    np, cs = C.np, C.px.curvedsky
    ainfo, lm, ind, n = layout(C, 0 if C.tier != "quick" else 1, 2 if C.tier == "quick" and dt == "c8" else None, custom=C.tier != "quick" or dt == "c16")
    lmax = int(ainfo.lmax)
    nl = lmax+1+C.pick("dl", -1, 1)
    if nl < 1: nl = 1
    N, M = C.choice("NM", [(2, 2), (1, 2), (2, 1)])
    a = get(C, "a", (M,), n, dt); a0 = C.arr(a).copy()
    f = C.data("f", (N, M, nl), -4, 4)
    if dt == "c8": f = C.astype(f, "f4")
    how = C.choice("how", C.q(["out", "inplace"], ["new", "out", "inplace", "almxfl"]))
    if how == "inplace": C.assume(N == M)
    if how == "new": r = ainfo.lmul(a, f)
    elif how == "out":
        out = C.astype(C.junk((N, n), complex), dt); r = ainfo.lmul(a, f, out=out)
        C.eq(out, r, "out has the result", tol=TOL)
    elif how == "almxfl": r = cs.almxfl(a, f, ainfo=ainfo)
    else: r = ainfo.lmul(a, f, out=a)
    C.same(tuple(r.shape), (N, n), "shape")
    for i in range(N):
        want = []
        for (l, m), k in zip(lm, ind):
            t = 0*a0[0, k]
            if l < nl:
                for j in range(M): t = t+f[i, j, l]*a0[j, k]
            want.append(t)
        C.eq(C.arr([r[i, k] for k in ind]), C.arr(want), "matrix product", tol=TOL)
    if how == "inplace": C.eq(a, r, "the array itself has the result", tol=TOL)
    else: C.eq(a, a0, "the coefficients are left alone")

@case(params=["c16", "c8"], budget=(30, 100))
def wrongout(C, dt):
    """lmul does not accept an output array it cannot write the result to"""
    np, cs = C.np, C.px.curvedsky
    C.ext("cmisc")
    lmax = 1; ainfo = cs.alm_info(lmax=lmax); n = 3
    a = get(C, "a", (2,), n, dt)
    f = C.data("f", (lmax+1,), -4, 4)
    if dt == "c8": f = C.astype(f, "f4")
    kind = C.choice("kind", ["dtype", "stride"])
    other = {"c16": "c8", "c8": "c16"}[dt]
    if kind == "dtype": out = C.astype(np.zeros((2, n), complex), other)
    else: out = C.astype(np.zeros((2, 2*n), complex), dt)[:, ::2]
    C.raises(ValueError, lambda: ainfo.lmul(a, f, out=out), "refused")

@case(params=["c16", "c8"], budget=(60, 300))
def transpose(C, dt):
    """transpose_alm takes numbers that were written l by l to their places"""
    np, cs = C.np, C.px.curvedsky
    ainfo, lm, ind, n = layout(C, custom=False)
    pre = C.choice("pre", [(), (2,)])
    lay = C.choice("how", ["new", "out", "inplace"])
    a = get(C, "a", pre, n, dt); a0 = C.arr(a).copy()
    if lay == "new": r = ainfo.transpose_alm(a)
    elif lay == "out":
        out = C.astype(C.junk(pre+(n,), complex), dt); r = ainfo.transpose_alm(a, out); C.eq(out, r, "out has the result", tol=TOL)
    else: r = ainfo.transpose_alm(a, a); C.eq(a, r, "the array itself has the result", tol=TOL)
    # the k-th number in the order of the array goes to the k-th (l,m) in order of l
    order = sorted(range(len(lm)), key=lambda k: lm[k])
    for I in ([()] if pre == () else [(0,), (1,)]):
        C.eq(C.arr([r[I][ind[o]] for o in order]), C.arr([a0[I][i] for i in ind]), "transposed", tol=TOL)
    if lay != "inplace": C.eq(a, a0, "the coefficients are left alone")

@case(budget=(60, 300))
def transfer(C):
    """transfer_alm moves every coefficient that both layouts have, and no other"""
    np, cs = C.np, C.px.curvedsky
    C.ext("cmisc")
    hi = C.q(2, 3)
    def lay(nm):
        lmax = C.pick(nm+"lmax", 0, hi); mmax = lmax-C.pick(nm+"dm", 0, min(1, lmax))
        return cs.alm_info(lmax=lmax, mmax=mmax, layout=C.choice(nm+"lay", ["tri", "rect"]), stride=C.choice(nm+"st", C.q([1], [1, 2]))), lmax, mmax
    A, la, ma = lay("i"); B, lb, mb = lay("o")
    pre = C.choice("pre", [(), (2,)])
    a = get(C, "a", pre, int(A.nelem), "c16"); a0 = C.arr(a).copy()
    how = C.choice("how", ["new", "given", "add"])
    o0 = np.zeros(pre+(int(B.nelem),), complex)
    if how == "new": r = cs.transfer_alm(A, a, B)
    else:
        o = get(C, "o", pre, int(B.nelem), "c16"); o0 = C.arr(o).copy()
        if how == "given": r = cs.transfer_alm(A, a, B, o)
        else: r = cs.transfer_alm(A, a, B, o, op=lambda x, y: x+y)
        C.eq(o, r, "written to the given array")
    want = C.arr(o0).copy()
    for l in range(min(la, lb)+1):
        for m in range(min(l, ma, mb)+1):
            i, k = int(A.lm2ind(l, m)), int(B.lm2ind(l, m))
            want[..., k] = a0[..., i]+(want[..., k] if how == "add" else 0)
    C.eq(r, want, "coefficients")
    C.eq(a, a0, "the coefficients are left alone")

@case(params=["c16", "c8"], budget=(60, 300))
def random(C, dt):
    """rand_alm: independent normal numbers, times the square root of the spectrum; m=0 real; the same
    sky for the same numbers whatever lmax is"""
    np, cs = C.np, C.px.curvedsky
    C.ext("cmisc")
    lmax = C.pick("lmax", 0, C.q(2, 4))
    form = C.choice("form", ["1d", "diag", "matrix", "short", "lmax"])
    r2 = 2**0.5
    nl = lmax+1 if form != "short" else max(1, lmax)
    if form in ("diag", "matrix"):
        # spectra with a rational square root [[p,q],[q,s]]
        roots = [[[2, 1], [1, 1]], [[1, 0], [0, 3]], [[0, 0], [0, 1]], [[1, 1], [1, 2]], [[1, 0], [0, 1]]][:nl]
        roots = roots[:nl]
        sq = [[[sum(r[i][k]*r[k][j] for k in range(2)) for j in range(2)] for i in range(2)] for r in roots]
        ps = np.array([[[float(sq[l][i][j]) for l in range(nl)] for j in range(2)] for i in range(2)])
        nc = 2
        arg = ps if form == "matrix" else np.array([[float(sq[l][0][0]) for l in range(nl)], [float(sq[l][1][1]) for l in range(nl)], [float(sq[l][0][1]) for l in range(nl)]])
    else:
        roots = [[[v]] for v in (1, 2, 0, 3, 1)][:nl]
        arg = np.array([float(r[0][0]**2) for r in roots]); nc = 1
    n = (lmax+1)*(lmax+2)//2
    kw = {}
    if form in ("short", "lmax"): kw["lmax"] = lmax
    with C.gauss("g", 2*n*nc) as g:
        alm = cs.rand_alm(arg, dtype={"c16": np.complex128, "c8": np.complex64}[dt], **kw)
    C.same(tuple(alm.shape), ((nc,) if nc > 1 else ())+(n,), "shape")
    if nc == 1: alm = alm[None]
    lm = Y.tri(lmax); order = sorted(range(n), key=lambda k: lm[k])
    white = [[None]*n for _ in range(nc)]
    for c in range(nc):
        for k, o in enumerate(order): white[c][o] = (g.vals[2*(c*n+k)], g.vals[2*(c*n+k)+1])
    for c in range(nc):
        want = []
        for k, (l, m) in enumerate(lm):
            re = im = 0*white[0][0][0]
            if l < nl:
                for j in range(nc):
                    re = re+roots[l][c][j]*white[j][k][0]
                    im = im+roots[l][c][j]*white[j][k][1]
            if m == 0: want.append((re, 0*im))
            else: want.append((re/r2, im/r2))
        C.eq(C.arr([v.real for v in alm[c]]), C.arr([w[0] for w in want]), "real part", tol=TOL)
        C.eq(C.arr([v.imag for v in alm[c]]), C.arr([w[1] for w in want]), "imaginary part", tol=TOL)

def legendre(l, x):
    a, b = 1.0, x
    if l == 0: return a
    for k in range(2, l+1): a, b = b, ((2*k-1)*x*b-(k-1)*a)/k
    return b

@case(budget=(30, 200))
def profile(C):
    """harm2profile evaluates sum (2l+1)/4pi b_l P_l(cos r); profile2harm takes it back"""
    np, cs = C.np, C.px.curvedsky
    lmax = C.pick("lmax", 1, C.q(3, 5))
    pre = C.choice("pre", [(), (2,)])
    bl = C.data("bl", pre+(lmax+1,), -1, 1)
    n = 2*(lmax+1)+C.pick("dn", 0, 1)
    # a profile that is zero at the far end
    for I in ([()] if pre == () else [(0,), (1,)]):
        t = 0
        for l in range(lmax+1): t = t+(-1)**l*(2*l+1)*bl[I][l]
        C.assume(t == 0) if C.sym else C.assume(abs(t) < 1e-6)
    dr = math.pi/(n-1)
    r = np.arange(n)*dr
    br = cs.harm2profile(bl, r)
    C.same(tuple(br.shape), pre+(n,), "shape")
    for I in ([()] if pre == () else [(0,), (1,)]):
        want = []
        for k in range(n):
            t = 0
            for l in range(lmax+1): t = t+(2*l+1)/(4*math.pi)*legendre(l, math.cos(k*dr))*bl[I][l]
            want.append(t)
        C.eq(br[I], C.arr(want), "profile", tol=F(1, 10**5))
    C.eq(cs.profile2harm(br, r, lmax=lmax), bl, "back", tol=F(1, 10**5))

@case(budget=(30, 200))
def oriented(C):
    """prof2alm: coefficients of a profile around a direction"""
    np, cs = C.np, C.px.curvedsky
    C.ext("cmisc")
    lmax = C.q(2, 3)
    n = lmax+1+C.pick("dn", 1, 2)
    geom = C.choice("geom", ["CC", "F1"])
    a = C.data("a", (lmax+1,), -1, 1)
    th = [math.pi*i/(n-1) for i in range(n)] if geom == "CC" else [math.pi*(i+0.5)/n for i in range(n)]
    prof = []
    for t in th:
        v = 0
        for l in range(lmax+1): v = v+(2*l+1)/(4*math.pi)*legendre(l, math.cos(t))*a[l]
        prof.append(v)
    ra, dec = C.choice("dir", [(0.3, 0.7), (2.0, -0.4), (0.0, math.pi/2)])
    pre = C.choice("pre", [(), (1,)])
    p = C.arr(prof)
    if pre: p = p[None]
    norot = C.choice("norot", [False, True])
    r = cs.prof2alm(p, dir=[ra, dec], geometry=geom, norot=norot)
    L = n-1 if geom == "F1" else n-2
    L = {"CC": n-2, "F1": n-1}[geom] if not norot else None
    if norot:
        m = r.shape[-1]
        got = r[0] if pre else r
        C.eq(C.arr([got[l].real for l in range(m)]), C.arr([((2*l+1)/(4*math.pi))**0.5*a[l] if l <= lmax else 0*a[0] for l in range(m)]), "coefficients at the pole", tol=F(1, 10**5))
        return
    got = r[0] if pre else r
    nl = cs.nalm2lmax(got.shape[-1])
    lm = Y.tri(nl)
    wr, wi = [], []
    for l, m in lm:
        y = Y.ylm(l, m, dec, ra).conjugate()
        wr.append(y.real*a[l] if l <= lmax else 0*a[0]); wi.append(y.imag*a[l] if l <= lmax else 0*a[0])
    C.eq(C.arr([v.real for v in got]), C.arr(wr), "real parts", tol=F(1, 10**5))
    C.eq(C.arr([v.imag for v in got]), C.arr(wi), "imaginary parts", tol=F(1, 10**5))
