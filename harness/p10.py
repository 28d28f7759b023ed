from .fourier import *
PRELOAD = ["fft", "enmap"]
BOUNDS = "arrays of up to 3 dimensions with 1-6 samples per transformed axis, every listed choice of axes, both engines (numpy, ducc); data unconstrained reals in [-100,100] (complex: both parts); non-uniform points at listed fractional positions"
ASSUMPTIONS = ["numpy.fft, ducc0.fft and ducc0.nufft compute the discrete sums they document (compared with the installed libraries on every replay); float rounding in them is below 1e-6"]

ENG = ["numpy", "ducc"]
SH = [((4,), (0,)), ((5,), (-1,)), ((1,), (0,)), ((2, 3), (-1,)), ((3, 2), (0,)), ((2, 3), (0, 1)), ((3, 2, 2), (0, 2)), ((2, 3, 2), (2, 1))]

@case(params=ENG, budget=(50, 300))
def fft_ifft(C, eng):
    """fft is the forward sum over the axes asked for, ifft the backward one; with normalize they are inverses"""
    f, np = C.px.fft, C.np
    sh, ax = C.choice("sh", SH if C.tier != "quick" else SH[:7])
    cplx = C.choice("cplx", [True, False])
    d = C.data("d", sh, cplx=cplx)
    a = C.arr(d).copy()
    F_ = f.fft(a, axes=ax, engine=eng)
    C.eq(F_, ft(C, d, ax, -1), "forward")
    C.eq(a, d, "input unchanged")
    n = prod(sh[i] for i in ax)
    C.eq(f.ifft(F_, axes=ax, engine=eng, normalize=True), C.arr(d)+0j, "round trip")
    C.eq(f.ifft(F_, axes=ax, engine=eng), (C.arr(d)+0j)*n, "unnormalised round trip")
    g = C.data("g", sh, cplx=True)
    C.eq(f.ifft(C.arr(g).copy(), axes=ax, engine=eng), ft(C, g, ax, 1), "backward")
    out = C.junk(sh, np.complex128)
    r = f.fft(C.arr(d)+0j, out, axes=ax, engine=eng)
    C.eq(out, ft(C, d, ax, -1), "into a given array")
    # adjoint
    C.eq(inner(C, g, F_), inner(C, f.ifft(C.arr(g).copy(), axes=ax, engine=eng), C.arr(d)+0j), "ifft is the adjoint of fft", tol=F(1, 1000))

@case(params=ENG, budget=(50, 300))
def rfft_irfft(C, eng):
    """rfft is the non-redundant half of fft; irfft inverts it for even and odd lengths, including very short ones"""
    f, np = C.px.fft, C.np
    sh, ax = C.choice("sh", SH+[((2,), (0,)), ((6,), (0,)), ((3, 1), (-1,))])
    d = C.data("d", sh)
    a = C.arr(d).copy()
    r = f.rfft(a, axes=ax, engine=eng)
    full = ft(C, d, ax, -1)
    la = ax[-1] % len(sh); n = sh[la]
    sl = tuple(slice(0, n//2+1) if i == la else slice(None) for i in range(len(sh)))
    C.same(tuple(r.shape), tuple(full[sl].shape), "shape"); C.eq(r, full[sl], "half of the full transform")
    C.eq(a, d, "input unchanged")
    N = prod(sh[i] for i in ax)
    b = f.irfft(C.arr(r).copy(), n=n, axes=ax, engine=eng, normalize=True)
    C.same(tuple(b.shape), tuple(sh), "inverse shape"); C.same(bool(np.iscomplexobj(b)), False, "inverse is real")
    C.eq(b, d, "round trip")
    if n % 2 == 0: C.eq(f.irfft(C.arr(r).copy(), axes=ax, engine=eng), C.arr(d)*N, "length defaults to even")
    out = C.junk(sh)
    f.irfft(C.arr(r).copy(), out, axes=ax, engine=eng, normalize=True)
    C.eq(out, d, "into a given array")

TYPES = ["DCT-I", "DCT-II", "DCT-III", "DCT-IV", "DST-I", "DST-II", "DST-III", "DST-IV"]
@case(params=TYPES, budget=(40, 200))
def dct(C, type):
    """every cosine and sine transform is undone by its inverse"""
    f, np = C.px.fft, C.np
    sh, ax = C.choice("sh", [((4,), (0,)), ((3,), (-1,)), ((2, 3), (-1,)), ((3, 2), (0, 1)), ((2, 3), (0,))])
    d = C.data("d", sh)
    a = C.arr(d).copy()
    b = f.dct(a, axes=ax, type=type)
    C.eq(a, d, "input unchanged")
    if len(sh) == 1:
        n = sh[0]; c = math.cos; s = math.sin; pi = math.pi
        x = [d[i] for i in range(n)]
        co = {"DCT-I": lambda k, j: (1 if j in (0, n-1) else 2)*c(pi*j*k/(n-1)), "DCT-II": lambda k, j: 2*c(pi*(j+.5)*k/n),
              "DCT-III": lambda k, j: (1 if j == 0 else 2)*c(pi*j*(k+.5)/n), "DCT-IV": lambda k, j: 2*c(pi*(j+.5)*(k+.5)/n),
              "DST-I": lambda k, j: 2*s(pi*(j+1)*(k+1)/(n+1)), "DST-II": lambda k, j: 2*s(pi*(j+.5)*(k+1)/n),
              "DST-III": lambda k, j: (1 if j == n-1 else 2)*s(pi*(j+1)*(k+.5)/n), "DST-IV": lambda k, j: 2*s(pi*(j+.5)*(k+.5)/n)}[type]
        C.eq(b, C.arr([sum(x[j]*co(k, j) for j in range(n)) for k in range(n)]), "transform")
    C.eq(f.idct(b, axes=ax, type=type, normalize=True), d, "round trip")
    out = C.junk(sh)
    f.idct(b, out, axes=ax, type=type, normalize=True)
    C.eq(out, d, "into a given array")

@case(params=[(3,), (2, 4), (2, 2, 3)], budget=(30, 200))
def chebyshev(C, *sh):
    """chebt gives the Chebyshev coefficients of samples at the extrema points along the last axis, ichebt evaluates them; they are inverses"""
    f, np = C.px.fft, C.np
    d = C.data("d", sh); n = sh[-1]
    a = C.arr(d).copy()
    b = f.chebt(a)
    C.eq(a, d, "input unchanged")
    # sum_k b_k T_k(x_j) = d_j with x_j = cos(pi j/(n-1))
    rec = [sum(b[..., k]*math.cos(math.pi*k*j/(n-1)) for k in range(n)) for j in range(n)]
    C.eq(np.stack([C.arr(r) for r in rec], -1), d, "coefficients reproduce the samples")
    C.eq(f.ichebt(b), d, "ichebt inverts chebt")
    C.eq(f.chebt(f.ichebt(C.arr(d).copy())), d, "chebt inverts ichebt")
    C.eq(f.redft00(C.arr(d).copy()), f.dct(C.arr(d).copy()), "redft00 is DCT-I")

@case(budget=(30, 200))
def freq(C):
    """the frequency of every index, and the index of every frequency"""
    f, np = C.px.fft, C.np
    n = C.pick("n", 1, C.q(6, 9))
    d = C.real("d", F(1, 4), 8)
    k = freqs(n)
    C.eq(f.fftfreq(n, d), C.arr([v/(n*d) for v in k]), "fftfreq")
    C.eq(f.rfftfreq(n, d), C.arr([v/(n*d) for v in range(n//2+1)]), "rfftfreq")
    i = C.pick("i", 0, n-1)
    C.eq(f.ind2freq(n, C.arr(i), d), k[i]/(n*d), "ind2freq")
    C.eq(f.freq2ind(n, C.arr(k[i]/(n*d)), d), i, "freq2ind")
    x = C.real("x", 0, n); C.assume(x < n); C.away(x-F(n, 2), 100)
    C.eq(f.freq2ind(n, f.ind2freq(n, C.arr(x), d), d), x, "freq2ind inverts ind2freq")
    C.eq(f.rfreq2ind(n, f.int2rfreq(n, C.arr(x), d), d), x, "rfreq2ind inverts int2rfreq")

@case(params=ENG, budget=(40, 300))
def shift(C, eng):
    """shift moves the signal to the right by the given number of samples: whole shifts roll, fractions use the signal's Fourier series"""
    f, np = C.px.fft, C.np
    sh, ax, s = C.choice("s", [((5,), None, (2,)), ((4,), (-1,), (-3,)), ((2, 3), (0,), (1,)), ((2, 3), (0, 1), (1, 4)), ((2, 3), None, (1, -2)), ((2, 2, 3), (2,), (7,)),
                                ((3,), None, (0.5,)), ((2, 5), (1,), (-1.25,)), ((3, 2), (0,), (0.3,))])
    cplx = C.choice("cplx", [False, True])
    d = C.data("d", sh, cplx=cplx)
    a = C.arr(d).copy()
    o = f.shift(a, s if len(s) > 1 else s[0], axes=ax, engine=eng)
    C.eq(a, d, "input unchanged")
    axes = ax if ax is not None else tuple(range(-len(s), 0))
    C.same(bool(np.iscomplexobj(o)), cplx, "real stays real")
    if all(v == int(v) for v in s):
        ref = C.arr(d)
        for x, v in zip(axes, s): ref = np.roll(ref, int(v), x)
        C.eq(o, ref, "rolled")
        C.eq(f.shift(o, [-v for v in s], axes=ax, engine=eng), d, "undone")
    else:
        F_ = ft1(C, d, axes[0], -1); n = sh[axes[0]]
        # evaluate the Fourier series at x-s
        F_ = np.moveaxis(F_, axes[0], 0)
        out = [sum(F_[k]*(cmath.exp(2j*math.pi*freqs(n)[k]*(x-s[0])/n)/n) for k in range(n)) for x in range(n)]
        ref = np.moveaxis(np.stack([C.arr(v) for v in out]), 0, axes[0])
        C.eq(o, ref if cplx else ref.real, "Fourier series at the shifted position")
    Fs = f.shift(f.fft(C.arr(d)+0j, axes=axes, engine=eng), s if len(s) > 1 else s[0], axes=ax, nofft=True, engine=eng)
    C.eq(Fs, f.fft(C.arr(o)+0j, axes=axes, engine=eng) if cplx or all(v == int(v) for v in s) or sh[axes[0]] % 2 else Fs, "in Fourier space")

@case(params=ENG, budget=(30, 200))
def shift_deriv(C, eng):
    """shift with deriv gives the derivative of the shifted signal with respect to that shift (minus its slope), the other axes just shifted"""
    f, np = C.px.fft, C.np
    sh, ax, s, k = C.choice("s", [((5,), None, (0.4,), 0), ((3, 3), (0, 1), (1.0, 0.25), 1), ((3, 3), (0, 1), (0.3, 0.0), 0), ((2, 3), (-1,), (0.0,), 0), ((3, 2, 3), (0, 2), (0.3, 0.2), 0), ((3, 2, 3), (2, 0), (0.3, 1.0), 0), ((3, 3, 1), (0, 1), (0.3, 0.2), 1)])
    cplx = C.choice("cplx", [False, True])
    d = C.data("d", sh, cplx=cplx)
    a = C.arr(d).copy()
    o = f.shift(a, s if len(s) > 1 else s[0], axes=ax, deriv=k, engine=eng)
    C.eq(a, d, "input unchanged"); C.same(bool(np.iscomplexobj(o)), cplx, "real stays real")
    axes = [x % len(sh) for x in (ax if ax is not None else tuple(range(-len(s), 0)))]
    ref = C.arr(d)+0j
    for i, x in enumerate(axes):
        n = sh[x]; F_ = np.moveaxis(ft1(C, ref, x, -1), x, 0)
        out = [sum(F_[j]*((-2j*math.pi*freqs(n)[j]/n if i == k else 1)*cmath.exp(2j*math.pi*freqs(n)[j]*(p-s[i])/n)/n) for j in range(n)) for p in range(n)]
        ref = np.moveaxis(np.stack([C.arr(v) for v in out]), 0, x)
    C.eq(o, ref if cplx else ref.real, "derivative of the Fourier series")

RS = [((3,), 5, None), ((5,), 3, None), ((4,), 6, None), ((6,), 4, None), ((1,), 4, None), ((3,), 1, None), ((4,), 3, None), ((3,), 4, None), ((2, 3), 5, (0,)), ((3, 3), (5, 1), (0, 1)), ((2, 3, 4), (3, 4), (0, 2)), ((2,), 2, None)]
@case(params=ENG, budget=(50, 300))
def resample(C, eng):
    """resampling keeps every Fourier mode that both grids have: constants stay, and going up and back down is lossless"""
    f, np = C.px.fft, C.np
    sh, n, ax = C.choice("c", RS)
    cplx = C.choice("cplx", [False, True])
    d = C.data("d", sh, cplx=cplx)
    o = f.resample(C.arr(d).copy(), n, axes=ax, engine=eng)
    ns = n if isinstance(n, tuple) else (n,)
    axes = [x % len(sh) for x in (ax if ax is not None else tuple(range(-len(ns), 0)))]
    osh = list(sh)
    for x, v in zip(axes, ns): osh[x] = v
    C.same(tuple(o.shape), tuple(osh), "shape"); C.same(bool(np.iscomplexobj(o)), cplx, "real stays real")
    # mode by mode, where the mode is below both Nyquist frequencies
    Fi, Fo = ft(C, d, axes, -1), ft(C, o, axes, -1)
    Ni, No = prod(sh[x] for x in axes), prod(osh[x] for x in axes)
    import itertools
    for I in itertools.product(*[range(osh[x]) if x in axes else [slice(None)] for x in range(len(sh))]):
        J = list(I); low, gone = True, False
        for x in axes:
            k = freqs(osh[x])[I[x]]
            if 2*abs(k) > min(sh[x], osh[x]): gone = True
            elif 2*abs(k) == min(sh[x], osh[x]): low = False
            J[x] = k % sh[x]
        if gone: C.eq(Fo[I], C.arr(Fo[I])*0, "no new modes")
        elif low: C.eq(Fo[I], C.arr(Fi[tuple(J)])*(1.0*No/Ni), "common modes kept")
    if all(v > s or (v == s) for v, s in zip(ns, [sh[x] for x in axes])) and not (cplx is False and any(v > sh[x] and sh[x] % 2 == 0 for v, x in zip(ns, axes))):
        C.eq(f.resample(o, tuple(sh[x] for x in axes), axes=axes, engine=eng), d, "up and down again")

PTS = [((3,), [[0, 1, 2]]), ((4,), [[0.5, -1.25, 7.3]]), ((5,), [[4.2, 0.1]]), ((2, 3), [[0, 1, 0.5], [2, 1, 1.7]]), ((2, 4), [[0.25, 3.5]]), ((2, 2, 3), [[1, 0.5], [0, -1.5]])]
@case(params=["interpol", "u2nu", "nu2u"], budget=(50, 300))
def nufft(C, op):
    """non-uniform transforms: u2nu evaluates the Fourier series at the given positions, interpol_nufft interpolates the samples, nu2u is the adjoint"""
    f, np = C.px.fft, C.np
    sh, pts = C.choice("c", PTS)
    post2 = C.choice("post2", [False, True]) if len(pts[0]) == 2 else False
    nd = len(pts); npt = len(pts[0])
    inds = np.array(pts, dtype=float)
    if post2: inds = inds.reshape(nd, 2, 1)
    pre, dims = sh[:-nd], sh[-nd:]
    axes = tuple(range(-nd, 0))
    oshape = pre+tuple(inds.shape[1:])
    import itertools
    def series(Fa, sign):
        """sum_k F_k exp(sign 2 pi i k x/n)"""
        out = []
        for p in range(npt):
            acc = 0
            for I in itertools.product(*[range(n) for n in dims]):
                ph = sum(freqs(dims[a])[I[a]]*pts[a][p]/dims[a] for a in range(nd))
                acc = acc + Fa[(Ellipsis,)+I]*cmath.exp(sign*2j*math.pi*ph)
            out.append(C.arr(acc))
        return np.stack(out, -1).reshape(oshape)
    if op == "interpol":
        cplx = C.choice("cplx", [True, False])
        d = C.data("d", sh, cplx=cplx)
        o = f.interpol_nufft(C.arr(d).copy(), inds, complex=cplx)
        C.same(tuple(o.shape), oshape, "shape")
        ref = series(ft(C, d, axes, -1), 1)*(1.0/prod(dims))
        C.eq(o, ref if cplx else ref.real, "interpolated values")
        if all(v == int(v) for p in pts for v in p):
            for p in range(npt): C.eq(o.reshape(pre+(-1,))[..., p], C.arr(d)[(Ellipsis,)+tuple(int(pts[a][p]) for a in range(nd))], "exact at the samples")
    elif op == "u2nu":
        fw, nrm = C.choice("m", [(False, False), (True, False), (False, True)])
        d = C.data("d", sh, cplx=True)
        o = f.u2nu(C.arr(d).copy(), inds, forward=fw, normalize=nrm)
        C.eq(o, series(C.arr(d), -1 if fw else 1)*(1.0/prod(dims) if nrm else 1.0), "series")
        C.eq(f.inufft(C.arr(d).copy(), inds, flip=fw), series(C.arr(d), -1 if fw else 1), "alias inufft")
    else:
        fw = C.choice("fw", [False, True])
        cplx = C.choice("cplx", [True, False])
        g = C.data("g", oshape, cplx=cplx); d = C.data("d", sh, cplx=True)
        u = f.nu2u(C.arr(g).copy(), inds, oshape=sh, forward=not fw)
        C.same(tuple(u.shape), tuple(sh), "shape")
        o = f.u2nu(C.arr(d).copy(), inds, forward=fw)
        C.eq(inner(C, g, o), inner(C, u, d), "adjoint", tol=F(1, 1000))
        C.eq(f.nufft_adjoint(C.arr(g).copy(), inds, oshape=sh, flip=fw), u, "alias nufft_adjoint")

WC = [("CAR", (-0.5, 0.5)), ("", (0.25, 0.5))]
def emap(C, kind, sh, cplx=False, tag="d"):
    w = C.wcs(kind, [10, 0] if kind else [1, 2], [-0.5, 0.25] if kind else [0.5, -0.25], [3, 20])
    d = C.data(tag, sh, cplx=cplx)
    return d, w, C.px.enmap.ndmap(C.arr(d).copy(), w)

@case(params=["CAR", ""], budget=(50, 300))
def enmap_fft(C, kind):
    """enmap.fft/ifft transform the two pixel axes, invert each other in every normalisation, conserve power when unit-normalised, and come with true adjoints"""
    e, np = C.px.enmap, C.np
    sh = C.choice("sh", [(2, 3), (3, 4), (2, 2, 2)])
    norm = C.choice("norm", [True, False, "phys"])
    d, w, m = emap(C, kind, sh)
    g, _, h = emap(C, kind, sh, True, "g")
    o = e.fft(m, normalize=norm)
    n = sh[-1]*sh[-2]
    ps = m.pixsize()**0.5 if norm == "phys" else 1.0
    k = {True: n**-0.5, False: 1.0, "phys": 1.0}[norm]*(ps*n**-0.5 if norm == "phys" else 1.0)
    C.eq(o, ft(C, d, (-2, -1), -1)*k, "transform"); C.same(o.wcs is not None and C.px.wcsutils.equal(o.wcs, m.wcs), True, "keeps its geometry")
    C.eq(m, d, "input unchanged")
    C.eq(e.ifft(o, normalize=norm), (C.arr(d)+0j)*(1.0 if norm else 1.0*n), "inverse")
    C.eq(inner(C, g, o), inner(C, e.fft_adjoint(h, normalize=norm), d), "fft_adjoint", tol=F(1, 1000))
    C.eq(inner(C, C.arr(d)+0j, e.ifft(h, normalize=norm)), inner(C, e.ifft_adjoint(m, normalize=norm), g), "ifft_adjoint", tol=F(1, 1000))
    C.eq(h, g, "input unchanged")
    if norm is True and len(sh) == 2 and n <= 6:
        C.eq(inner(C, o, o).real, np.sum(C.arr(d)**2), "power conserved", tol=F(1, 100))

@case(budget=(50, 300))
def enmap_dct(C):
    """enmap.dct/idct are inverses in every normalisation and have true adjoints"""
    e, np = C.px.enmap, C.np
    sh = C.choice("sh", [(2, 3), (3, 4), (2, 2, 3)])
    norm = C.choice("norm", [True, "phys"])
    d, w, m = emap(C, "CAR", sh)
    g, _, h = emap(C, "CAR", sh, tag="g")
    o = e.dct(m, normalize=norm)
    C.eq(e.idct(o, normalize=norm), d, "round trip"); C.eq(m, d, "input unchanged")
    C.eq(inner(C, g, o), inner(C, e.dct_adjoint(h, normalize=norm), d), "dct_adjoint", tol=F(1, 1000))
    C.eq(inner(C, g, e.idct(m, normalize=norm)), inner(C, e.idct_adjoint(h, normalize=norm), d), "idct_adjoint", tol=F(1, 1000))

SPINS = [(3, [0, 2], None), (2, [2], None), (2, [0], None), (1, [0, 2], None), (4, [2], None), (4, [0, 2, 0], None), (4, [0, 1], None), (None, [0, 2], None)]
@case(params=["CAR", ""], budget=(50, 300))
def harm(C, kind):
    """map2harm turns spin pairs into E,B with the rotation of each mode's direction, harm2map inverts it; both have true adjoints"""
    e, np = C.px.enmap, C.np
    nc, spin, _ = C.choice("spin", SPINS)
    iau = C.choice("iau", [False, True]); norm = C.choice("norm", [True, "phys", False])
    ny, nx = 3, 3
    sh = (ny, nx) if nc is None else (nc, ny, nx)
    d, w, m = emap(C, kind, sh)
    g, _, h = emap(C, kind, sh, True, "g")
    o = e.map2harm(m, normalize=norm, iau=iau, spin=spin)
    C.eq(m, d, "input unchanged")
    F_ = C.arr(e.fft(m, normalize=norm))
    if nc is None: C.eq(o, F_, "plain transform without components")
    else:
        ext = m.extent(signed=True)
        i = 0; s = 0
        comps = []
        while i < nc:
            sp = spin[s % len(spin)]; s += 1
            if sp == 0: comps.append((0, i)); i += 1
            else: comps.append((sp, i)); i += 2
        for y in range(ny):
            for x in range(nx):
                ly, lx = freqs(ny)[y]*2*math.pi/float(ext[0]), freqs(nx)[x]*2*math.pi/float(ext[1])
                for sp, i in comps:
                    if sp == 0: C.eq(o[i, y, x], F_[i, y, x], "scalar component"); continue
                    a = sp*math.atan2(-lx if iau else lx, ly)
                    q, u = F_[i, y, x], F_[i+1, y, x]
                    C.eq(o[i, y, x], q*math.cos(a)-u*math.sin(a), "E"); C.eq(o[i+1, y, x], q*math.sin(a)+u*math.cos(a), "B")
    C.eq(e.harm2map(o, normalize=norm, iau=iau, spin=spin), C.arr(d)*(1 if norm else ny*nx), "round trip")
    C.eq(inner(C, g, o), inner(C, e.map2harm_adjoint(h, normalize=norm, iau=iau, spin=spin, keep_imag=True), d), "map2harm_adjoint", tol=F(1, 1000))
    C.eq(inner(C, d, e.harm2map(h, normalize=norm, iau=iau, spin=spin, keep_imag=True)), inner(C, e.harm2map_adjoint(m, normalize=norm, iau=iau, spin=spin), g), "harm2map_adjoint", tol=F(1, 1000))
    C.eq(h, g, "input unchanged")
