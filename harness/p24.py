from .fourier import *
from .common import F
import itertools
PRELOAD = ["fft", "utils", "resample"]
BOUNDS = "arrays of up to 3 dimensions with 1-7 samples per resampled axis and the listed choices of lengths, factors and axes; 103 rows where rows are processed in groups; data unconstrained reals in [-100,100] (complex: both parts); the listed sets of uneven sample times"
ASSUMPTIONS = ["numpy.fft and ducc0.fft compute the discrete sums they document and scipy.ndimage.map_coordinates interpolates linearly at order 1 (compared with the installed libraries on every replay)"]

# shape, lengths, axes
RS = {"1d": [((4,), 7, None), ((5,), 7, None), ((5,), 8, [0]), ((6,), 4, None), ((6,), 5, None), ((7,), 5, None), ((7,), 4, [-1]), ((5,), 3, None), ((1,), 3, None), ((4,), 1, None), ((3,), 4, None), ((5,), 5, None)],
      "rows": [((2, 4), 6, None), ((2, 5), 7, None), ((3, 5), 6, [1]), ((2, 6), 5, None), ((2, 7), 5, [-1]), ((2, 6), 4, None), ((3, 2), 2, None), ((1, 3), 5, [-1])],
      "nd": [((2, 3), [4], [0]), ((3, 2), [5, 3], None), ((3, 4), [4, 3], None), ((2, 3), [3, 2], [1, 0]), ((2, 3), [3, 3], None), ((2, 2, 3), [5], None), ((3, 2, 2), [5], [0]), ((2, 5, 3), [3], [1]), ((3, 2, 3), [5, 2], [0, 2]), ((2, 3, 4), [4], [0]), ((2, 3), 4, [0, 1]), ((3, 2, 3), [2, 4], [-1, -3])],
      "group": [((103, 2), 3, None), ((103, 3), 2, [1]), ((201, 2), 3, [-1])]}

def modes(C, o, d, sh, osh, axes):
    """every Fourier mode below both Nyquist frequencies is kept, and none is added"""
    Fi, Fo = ft(C, d, axes, -1), ft(C, o, axes, -1)
    Ni, No = prod(sh[x] for x in axes), prod(osh[x] for x in axes)
    for I in itertools.product(*[range(osh[x]) if x in axes else [slice(None)] for x in range(len(sh))]):
        J = list(I); low, gone = True, False
        for x in axes:
            k = freqs(osh[x])[I[x]]
            if 2*abs(k) > min(sh[x], osh[x]): gone = True
            elif 2*abs(k) == min(sh[x], osh[x]) and osh[x] != sh[x]: low = False
            J[x] = k % sh[x]
        if gone: C.eq(Fo[I], C.arr(Fo[I])*0, "no new modes")
        elif low: C.eq(Fo[I], C.arr(Fi[tuple(J)])*(1.0*No/Ni), "common modes kept")

@case(params=list(RS), budget=(60, 300))
def fourier(C, kind):
    """resample_fft keeps every Fourier mode that both grids have, along the axes asked for"""
    r, np = C.px.resample, C.np
    sh, n, ax = C.choice("c", RS[kind])
    cplx = C.choice("cplx", [False, True])
    if kind == "group":
        # concrete rows except around the group edges
        d = np.array([[(i*7+j*3) % 11-5.0 for j in range(sh[1])] for i in range(sh[0])])*(1+0.5j if cplx else 1)
        d = C.arr(d.tolist()); v = C.data("d", (2, sh[1]), cplx=cplx)
        d = np.concatenate([d[:99], C.arr(v), d[101:]])
    else: d = C.data("d", sh, cplx=cplx)
    a = C.arr(d).copy()
    o = r.resample_fft(a, n, ax)
    ns = n if isinstance(n, list) else [n]*(len(ax) if ax else 1)
    axes = [x % len(sh) for x in (ax if ax is not None else range(-len(ns), 0))]
    osh = list(sh)
    for x, v in zip(axes, ns): osh[x] = v
    C.same(tuple(o.shape), tuple(osh), "shape"); C.same(bool(np.iscomplexobj(o)), cplx, "real stays real")
    C.eq(a, d, "input unchanged")
    if kind == "group":
        rows = [0, 1, 98, 99, 100, 101, 102, 200]; rows = [i for i in rows if i < sh[0]]
        modes(C, C.arr(o)[rows], C.arr(d)[rows], (len(rows), sh[1]), (len(rows), osh[1]), axes)
    else: modes(C, o, d, sh, osh, axes)

FC = [((4,), 0.5, None), ((5,), 0.5, None), ((3,), 2, None), ((2, 3), [2], None), ((2, 4), [1.5, 0.5], None), ((4, 2), [0.5], [0]), ((2, 3), [1, 1], None), ((3, 4), [2, 0.25], [1, 0]), ((2, 3, 2), [1, 2], [0, 1])]
@case(params=["fft", "bin"], budget=(40, 200))
def factors(C, method):
    """resample scales each axis by its own factor, with either method"""
    r, np = C.px.resample, C.np
    sh, f, ax = C.choice("c", FC)
    d = C.data("d", sh)
    a = C.arr(d).copy()
    o = r.resample(a, f, ax, method=method)
    C.eq(a, d, "input unchanged")
    fs = list(f) if isinstance(f, list) else [f]
    axes = [x % len(sh) for x in (ax if ax is not None else range(-len(fs), 0))]
    if method == "fft":
        osh = list(sh)
        for x, v in zip(axes, fs): osh[x] = int(sh[x]*v+0.5)
        C.same(tuple(o.shape), tuple(osh), "shape")
        modes(C, o, d, sh, osh, axes)
    else:
        if 1.5 in fs: return
        down, up = [1]*len(sh), [1]*len(sh)
        for x, v in zip(axes, fs): down[x], up[x] = max(1, int(round(1/v))), max(1, int(round(v)))
        ref = block(C, d, down)
        blocks(C, o, ref, [n*u for n, u in zip(ref.shape, up)], lambda I: tuple(i//u for i, u in zip(I, up)), "bins")

def block(C, d, steps):
    """means over whole blocks"""
    np = C.np
    d = C.arr(d); osh = [n//s for n, s in zip(d.shape, steps)]
    out = C.arr([[F(0)]*1]*1) if 0 in osh else None
    vals = []
    for I in itertools.product(*[range(n) for n in osh]):
        acc = 0
        for J in itertools.product(*[range(s) for s in steps]): acc = acc+d[tuple(i*s+j for i, s, j in zip(I, steps, J))]
        vals.append(acc/prod(steps))
    return C.arr(vals).reshape(osh) if vals else np.zeros(osh)

def blocks(C, o, ref, osh, at, label):
    C.same(tuple(o.shape), tuple(osh), "shape")
    if prod(osh) == 0: return
    want = C.arr([ref[at(I)] for I in itertools.product(*[range(n) for n in osh])]).reshape(osh)
    C.eq(o, want, label)

ST = [((6,), [2], None), ((7,), [3], None), ((5,), [1], None), ((2, 5), [2], None), ((5, 2), [2], [0]), ((4, 3), [2, 3], None), ((4, 3), [3, 2], [1, 0]), ((2, 4, 3), [2, 3], [0, 2]), ((3, 2, 4), [2, 2], None), ((3, 2, 4), [3, 4], [-3, -1]), ((2, 3), [4], None)]
@case(params=["down", "up"], budget=(40, 200))
def binning(C, what):
    """downsample_bin averages whole blocks, upsample_bin repeats samples, along the axes asked for"""
    r, np = C.px.resample, C.np
    sh, steps, ax = C.choice("c", ST)
    cplx = C.choice("cplx", [False, True])
    d = C.data("d", sh, cplx=cplx); a = C.arr(d).copy()
    full = [1]*len(sh)
    for x, v in zip(ax if ax is not None else range(-len(steps), 0), steps): full[x] = v
    if what == "down":
        o = r.downsample_bin(a, steps, ax)
        ref = block(C, d, full)
        blocks(C, o, ref, ref.shape, lambda I: I, "block means")
    else:
        o = r.upsample_bin(a, steps, ax)
        blocks(C, o, C.arr(d), [n*s for n, s in zip(sh, full)], lambda I: tuple(i//s for i, s in zip(I, full)), "repeated samples")
        C.eq(r.downsample_bin(o, steps, ax), d, "averaging again gives the samples back")
    C.eq(a, d, "input unchanged")

TT = [[0, 1, 2, 3, 4], [0, 1, 2, 3.5, 4.5, 5.5, 6.5], [10, 10.5, 11, 12, 12.5, 13], [5, 4, 3, 1.5, 0.5], [0, 0.25, 1.25, 2.25, 3.25, 4.25]]
@case(params=["1d", "2d", "nan"], budget=(40, 200))
def equispaced(C, kind):
    """make_equispaced gives the samples at evenly spaced times from the first to the last sample, interpolated in time"""
    r, np = C.px.resample, C.np
    t = C.choice("t", TT if kind != "nan" else [x for x in TT if x[0] < x[-1]])
    q = C.choice("q", [0.1, 0.5])
    n = len(t); pre = () if kind == "1d" else (2,)
    d = C.data("d", pre+(n,))
    bad = C.choice("bad", [(0, 1), (1, n-1)]) if kind == "nan" else None
    a = C.arr(d).copy()
    if bad: a[bad] = np.nan
    o, to = r.make_equispaced(a, np.array(t, dtype=float), quantile=q, order=1, mask_nan=bool(bad))
    import numpy
    steps = sorted(abs(y-x) for x, y in zip(t[:-1], t[1:]))
    p = q*(len(steps)-1); i = int(p); dt = steps[i]+(steps[min(i+1, len(steps)-1)]-steps[i])*(p-i)
    nout = int(round(abs(t[-1]-t[0])/dt))+1
    C.same(tuple(to.shape), (nout,), "number of times"); C.same(tuple(o.shape), pre+(nout,), "shape")
    tw = [t[0]+(t[-1]-t[0])*k/(nout-1) for k in range(nout)]
    C.eq(to, C.arr(tw), "even times", tol=1e-9)
    s = 1 if t[-1] > t[0] else -1
    for k in range(nout):
        x = tw[k]
        i = max([j for j in range(n-1) if s*(t[j]-x) <= 1e-9]+[0]); f = (x-t[i])/(t[i+1]-t[i])
        for P in itertools.product(*[range(m) for m in pre]):
            if bad and P == bad[:1]:
                # gone where the nearest sample is missing
                if abs(f-0.5) < 1e-6: continue
                gone = (i if f < 0.5 else i+1) == bad[1]
                C.same(bool(np.isnan(o[P+(k,)])), gone, "missing samples")
                continue
            C.eq(o[P+(k,)], d[P+(i,)]*(1-f)+d[P+(i+1,)]*f, "interpolated in time", tol=1e-6)
