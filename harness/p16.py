from .common import *
import itertools
PRELOAD = ["utils"]
BOUNDS = "arrays of up to 4 dimensions of up to 3 entries with any values (no arithmetic on them but sums and means); binning of up to 9 (20 thorough) samples; linear systems of 1-2 unknowns (3 thorough, diagonally dominant)"
ASSUMPTIONS = ["np.linalg.solve and inv are exact"]

def lst(a): return [a[i] for i in range(len(a))]
def I(x): return int(x)
def shape_(C, nd, tag="s"):
    k = C.pick(tag, 0, C.q(1, 2))
    return tuple([2, 3, 1, 2][(i+k) % 4] for i in range(nd))
def flat_index(i, shape):
    k = 0
    for a, n in zip(i, shape): k = k*n+a
    return k

@case(budget=(40, 200))
def partial(C):
    """partial_flatten moves the listed axes last (around the flattened one); partial_expand and flatview undo it"""
    u, np = C.px.utils, C.np
    nd = C.pick("nd", 1, C.q(3, 4)); shape = shape_(C, nd)
    k = C.pick("k", 0, min(nd, 2))
    axes = C.choice("axes", [list(p) for p in itertools.permutations(range(nd), k)]+([[-1]] if k == 1 else []))
    pos = C.pick("pos", 0, k)
    a = C.data("a", shape); a0 = C.arr(a).copy()
    pax = [x % nd for x in axes]; rest = [d for d in range(nd) if d not in pax]
    f = C.arr(u.partial_flatten(a, axes, pos)).copy()
    nrest = 1
    for d in rest: nrest *= shape[d]
    want = [shape[d] for d in pax]; want.insert(pos, nrest)
    C.same(tuple(f.shape), tuple(want), "shape")
    for i in itertools.product(*[range(s) for s in shape]):
        j = [i[d] for d in pax]; j.insert(pos, flat_index([i[d] for d in rest], [shape[d] for d in rest]))
        C.eq(f[tuple(j)], a0[i], "element")
    C.eq(u.partial_expand(f, shape, axes, pos), a0, "expanded")
    with u.flatview(a, axes, pos=pos) as v:
        C.eq(v, f, "flat view")
        v[...] = v*2+1
    C.eq(a, a0*2+1, "changes to the view reach the array")
    with u.flatview(a, axes, mode="r", pos=pos) as v: C.eq(v, f*2+1, "read view")

@case(params=["add", "del", "move", "at3", "atN", "toN", "pre", "post"], budget=(30, 60))
def axes(C, what):
    """addaxes, delaxes, moveaxes, atleast_3d, atleast_Nd, to_Nd, preflat, postflat keep elements in order"""
    u, np = C.px.utils, C.np
    nd = C.pick("nd", 0 if what in ("at3", "atN") else 1, 4 if what != "move" else 3); shape = shape_(C, nd) if nd else ()
    a = C.data("a", shape) if nd else C.arr(C.real("a_s"))
    if what == "add":
        ax = C.pick("ax", 0, nd); two = C.choice("two", [False, True])
        r = u.addaxes(a, [ax]+([0] if two else []))
        w = list(shape); w.insert(ax, 1)
        if two: w.insert(0, 1)
        C.same(tuple(r.shape), tuple(w), "shape"); C.eq(r.reshape(shape), a, "elements")
    elif what == "del":
        ax = C.choice("ax", [list(p) for k in range(min(nd, 2)+1) for p in itertools.permutations(range(nd), k)]+[[-1]])
        r = u.delaxes(a, ax)
        sel = [slice(None)]*nd
        for x in ax: sel[x] = 0
        C.eq(r, a[tuple(sel)], "first entry along the axes")
    elif what == "move":
        o = C.choice("o", list(itertools.permutations(range(nd), min(2, nd)))); n = C.choice("n", list(itertools.permutations(range(nd), min(2, nd))))
        r = u.moveaxes(a, o, n)
        order = [d for d in range(nd) if d not in o]
        for x, y in sorted(zip(n, o)): order.insert(x, y)
        C.eq(r, np.transpose(a, order), "moved")
        C.eq(u.moveaxis(a, o[0], n[0]), np.moveaxis(a, o[0], n[0]), "one")
    elif what == "at3":
        r = u.atleast_3d(a)
        C.same(tuple(r.shape), (1,)*(3-nd)+shape, "shape"); C.eq(r.reshape(shape), a, "elements")
    elif what == "atN":
        n = C.pick("n", 0, 5); r = u.atleast_Nd(a, n)
        C.same(tuple(r.shape), (1,)*max(0, n-nd)+shape, "shape"); C.eq(r.reshape(shape), a, "elements")
    elif what == "toN":
        n = C.pick("n", 1, 5)
        m = min(n, nd+1) if n >= nd else n
        if n >= nd:
            ax = C.pick("ax", -nd-1, nd); p = ax if ax >= 0 else nd+1+ax
            w = shape[:p]+(1,)*(n-nd)+shape[p:]
        else:
            ax = C.pick("ax", -n, n-1); p = ax if ax >= 0 else n+ax
            t = 1
            for s in shape[p:p+1+nd-n]: t *= s
            w = shape[:p]+(t,)+shape[p+1+nd-n:]
        r, sh = u.to_Nd(a, n, axis=ax, return_inverse=True)
        C.same((tuple(r.shape), tuple(sh)), (w, shape), "shape"); C.eq(r.reshape(shape), a, "elements")
        C.eq(u.to_Nd(a, n, axis=ax), r, "without inverse")
    else:
        n = C.choice("n", [k for k in range(-nd, nd+1) if k])
        f = u.preflat if what == "pre" else u.postflat
        r = f(a, n)
        k = n if n > 0 else nd+n      # number of flattened dimensions
        t = 1
        for s in (shape[:k] if what == "pre" else shape[nd-k:]): t *= s
        C.same(tuple(r.shape), (t,)+shape[k:] if what == "pre" else shape[:nd-k]+(t,), "shape"); C.eq(r.reshape(shape), a, "elements")

@case(budget=(30, 60))
def broadcast(C):
    """broadcast_shape and broadcast_arrays with exempt dimensions and a chosen place for new ones"""
    u, np = C.px.utils, C.np
    n1, n2 = C.pick("n1", 0, 3), C.pick("n2", 0, C.q(2, 3))
    full = (2, 3, 2)
    at = C.choice("at", [0, -1, 1, 2])
    N = max(n1, n2)
    def pad(n): return n if at >= 0 else n+1+at
    def place(n):   # positions of an n-dimensional operand's dimensions in the result
        p = min(at, n) if at >= 0 else n+1+at
        return list(range(p))+list(range(p+N-n, N))
    ones = [C.choice("o%d" % k, [None]+list(range(min(n, 2)))) for k, n in enumerate((n1, n2))]
    shp = []
    for k, n in enumerate((n1, n2)):
        s = [full[j] for j in place(n)]
        if ones[k] is not None and ones[k] < n: s[ones[k]] = 1
        shp.append(tuple(s))
    want = [1]*N
    for s in shp:
        for d, j in zip(s, place(len(s))): want[j] = max(want[j], d)
    C.same(tuple(u.broadcast_shape(*shp, at=at)), tuple(want), "shape")
    pre = C.pick("pre", 0, 1); post = C.pick("post", 0, 1) if C.tier != "quick" else 1-pre
    a, b = C.data("a", (2,)*pre+shp[0]+(3,)*post), C.data("b", shp[1]) if shp[1] else C.arr(C.real("b"))
    ra, rn, rb = u.broadcast_arrays(a, None, b, npre=[pre, 0, 0], npost=[post, 0, 0], at=at)
    C.check(rn is None, "None passed through")
    C.same((tuple(ra.shape), tuple(rb.shape)), ((2,)*pre+tuple(want)+(3,)*post, tuple(want)), "shapes of the arrays")
    for i in itertools.product(*[range(w) for w in want]):
        def src(k): return tuple(0 if d == 1 else i[j] for d, j in zip(shp[k], place(len(shp[k]))))
        C.eq(rb[i], b[src(1)], "second array")
        C.eq(ra[(0,)*pre+i+(2,)*post], a[(0,)*pre+src(0)+(2,)*post], "first array")
    if n1 and n2 and want[-1] > 1 and at == 0: C.raises(ValueError, lambda: u.broadcast_shape(tuple(want), tuple(want[:-1])+(want[-1]+1,)), "shapes that do not match")

@case(params=["multi", "count"], budget=(30, 100))
def histograms(C, what):
    """bin_multi and bincount add up the weights of the samples in each bin"""
    u, np = C.px.utils, C.np
    n = C.pick("n", 1, C.q(2, 3)); wt = C.choice("w", [False, True])
    if what == "multi":
        nd = C.pick("nd", 1, 2); shape = (3, 2)[:nd]
        p = C.idata("p", (nd, n), -1, 3 if nd == 1 else 2)
        P = np.array([[I(p[d, i]) for i in range(n)] for d in range(nd)], int)
        w = C.data("w_", (n,)) if wt else None
        r = u.bin_multi(P, shape, weights=w)
        C.same(tuple(r.shape), shape, "shape")
        for b in itertools.product(*[range(s) for s in shape]):
            hit = [i for i in range(n) if all(min(max(int(P[d, i]), 0), shape[d]-1) == b[d] for d in range(nd))]
            C.eq(r[b], sum([w[i] for i in hit], 0) if wt else len(hit), "samples in the bin (outside ones in the nearest)")
    else:
        pre = C.pick("pre", 0, 1); ml = C.choice("ml", [0, 4])
        p = C.idata("p", (2,)*pre+(n,), 0, C.q(2, 3) if n < 3 or not pre else 1)
        P = np.array([[I(p[k, i]) for i in range(n)] for k in range(2)] if pre else [I(p[i]) for i in range(n)], int)
        w = C.data("w_", (n,)) if wt else None
        r = u.bincount(P, weights=w, minlength=ml)
        nb = max(int(P.max())+1, ml)
        C.same(tuple(r.shape), (2,)*pre+(nb,), "shape")
        for k in range(2 if pre else 1):
            row = P[k] if pre else P; rr = r[k] if pre else r
            for b in range(nb):
                hit = [i for i in range(n) if int(row[i]) == b]
                C.eq(rr[b], sum([w[i] for i in hit], 0) if wt else len(hit), "samples with the value")

@case(params=["grid", "resize", "outer", "repeat", "rescale", "deslope"], budget=(30, 100))
def spacing(C, what):
    """grid, resize_array, outer_stack, repeat_filler, rescale, deslope"""
    u, np = C.px.utils, C.np
    if what == "grid":
        nd = C.pick("nd", 1, 2); shape = tuple(C.picks("s", nd, 2, 3)); box = C.data("b", (2, nd))
        end, flat = C.choice("end", [True, False]), C.choice("flat", [False, True]); ax = C.choice("ax", [0, 1])
        r = u.grid(box, shape, endpoint=end, axis=ax, flat=flat)
        w = shape if not flat else (int(np.prod(shape)),)
        C.same(tuple(r.shape), w[:ax]+(nd,)+w[ax:], "shape")
        r = np.moveaxis(r, ax, 0)
        for i in itertools.product(*[range(s) for s in shape]):
            for d in range(nd):
                v = box[0, d]+(box[1, d]-box[0, d])*C.rat(i[d], shape[d]-1 if end else shape[d])
                C.eq(r[(d,)+((flat_index(i, shape),) if flat else i)], v, "coordinate")
    elif what == "resize":
        nd = C.pick("nd", 1, 2); shape = (2, 3)[:nd]; a = C.data("a", shape); val = C.choice("val", [0, 5])
        form = C.choice("form", ["all", "one"])
        if form == "all": size = tuple(C.picks("n", nd, 0, 4)); r = u.resize_array(a, size, val=val); w = size
        else:
            ax = C.pick("ax", -nd, nd-1); size = C.pick("n", 0, 4); r = u.resize_array(a, size, axis=ax, val=val)
            w = list(shape); w[ax] = size; w = tuple(w)
        C.same(tuple(r.shape), w, "shape")
        for i in itertools.product(*[range(s) for s in w]): C.eq(r[i], a[i] if all(x < s for x, s in zip(i, shape)) else val, "old value or fill")
    elif what == "outer":
        ns = C.picks("n", C.pick("k", 1, 3), 1, 3); arrs = [C.data("a%d" % i, (n,)) for i, n in enumerate(ns)]
        r = u.outer_stack(arrs)
        C.same(tuple(r.shape), (len(ns),)+tuple(ns), "shape")
        for i in itertools.product(*[range(s) for s in ns]):
            for k in range(len(ns)): C.eq(r[(k,)+i], arrs[k][i[k]], "value")
    elif what == "repeat":
        m, n = C.pick("m", 1, 3), C.pick("n", 1, 9); a = C.data("a", (m,))
        r = u.repeat_filler(a, n)
        C.same(len(r), n, "length")
        for i in range(n): C.eq(r[i], a[i % (2*m)] if i % (2*m) < m else a[2*m-1-i % (2*m)], "mirrored repetition")
    elif what == "rescale":
        n = C.pick("n", 2, 3); a = C.idata("a", (n,), -9, 9); lo, hi = C.int("lo", -9, 9), C.int("hi", -9, 9)
        for i in range(1, n): C.assume(a[i-1] <= a[i])
        C.assume(a[0]+1 <= a[n-1])
        D = I(a[n-1]-a[0])
        perm = C.choice("perm", list(itertools.permutations(range(n))))
        r = u.rescale(C.arr([a[i] for i in perm]), [lo, hi])
        for q, i in zip(lst(r), perm): C.eq(q, lo+(a[i]-a[0])*(hi-lo)*C.rat(1, D), "linear")
    else:
        nd = C.pick("nd", 1, 2); n = C.pick("n", 2, 4); w = C.pick("w", 1, min(2, n)); ax = C.choice("ax", [-1, 0])
        a = C.data("a", ((n, 2) if ax == 0 else (2, n)) if nd == 2 else (n,)); a0 = C.arr(a).copy()
        inp = C.choice("inplace", [False, True])
        r = u.deslope(a, w=w, inplace=inp, axis=ax)
        C.eq(a, r if inp else a0, "in place or not")
        rr, aa = np.moveaxis(r, ax, -1).reshape(-1, n), np.moveaxis(a0, ax, -1).reshape(-1, n)
        for k in range(len(aa)):
            m0, m1 = sum(lst(aa[k])[:w])*C.rat(1, w), sum(lst(aa[k])[n-w:])*C.rat(1, w)
            for i in range(n): C.eq(rr[k, i], aa[k, i]-m0-(m1-m0)*C.rat(i, n-1), "line removed")

@case(params=["lin", "linsize", "exp", "edges", "data"], budget=(40, 200), max_paths=(4000, 40000))
def bins(C, what):
    """linbin and expbin cover all points once in order; edges; bin_data, bin_expand"""
    u, np = C.px.utils, C.np
    if what in ("lin", "linsize", "exp"):
        n = C.pick("n", 1, C.q(12, 30))
        if what == "lin":
            k = C.pick("k", 0, 6); b = u.linbin(n, nbin=k or None)
            sz = [int(v[1])-int(v[0]) for v in b]
            C.check(max(sz)-min(sz) <= 1, "approximately equal")
            if k: C.same(len(b), k, "number of bins")
        elif what == "linsize":
            k = C.pick("k", 1, 6); b = u.linbin(n, bsize=k)
            C.same([int(v[1])-int(v[0]) for v in b], [k]*(-(-n//k)), "bins of the size")
        else:
            k = C.pick("k", 0, 6); nmin = C.choice("nmin", [1, 2, 5, 8, 20]); nmax = C.choice("nmax", [0, 3])
            b = u.expbin(n, nbin=k or None, nmin=nmin, nmax=nmax)
            if n >= nmin and not nmax: C.check(min(int(v[1])-int(v[0]) for v in b) >= nmin, "enough points per bin")
            if nmax: C.check(max(int(v[1])-int(v[0]) for v in b[:-1]) <= nmax if len(b) > 1 else True, "not too many points per bin")
        x = C.int("x", 0, 40)
        C.assume(x < n)
        inb = [C.and_(int(v[0]) <= x, x < int(v[1])) for v in b]
        C.check(C.or_(*inb), "every point in a bin")
        for p, q in itertools.combinations(inb, 2): C.check(C.not_(C.and_(p, q)), "no point in two bins")
        C.same([int(v) for v in b[1:, 0]], [int(v) for v in b[:-1, 1]], "bins in order")
        C.same((int(b[0, 0]), n if what == "linsize" else int(b[-1, 1])), (0, n), "whole range")
        return
    k = C.pick("k", 1, 3)
    e = [0]
    for i in range(k): e.append(e[-1]+C.pick("w%d" % i, 1, 3))
    E = np.array(e, int)
    b = u.edges2bins(E)
    if what == "edges":
        C.same([[int(x) for x in v] for v in b], [[e[i], e[i+1]] for i in range(k)], "bins of the edges")
        C.same([int(v) for v in u.bins2edges(b)], e, "edges of the bins")
    else:
        pre = C.pick("pre", 0, 2); op = C.choice("op", ["mean", "sum"])
        d = C.data("d", (2, 2)[:pre]+(e[-1]+C.pick("extra", 0, 1),))
        r = u.bin_data(b, d) if op == "mean" else u.bin_data(b, d, op=np.sum)
        C.same(tuple(r.shape), (2, 2)[:pre]+(k,), "shape")
        for i in range(k):
            t = sum([d[..., j] for j in range(e[i], e[i+1])])
            C.eq(r[..., i], t*C.rat(1, e[i+1]-e[i]) if op == "mean" else t, "binned")
        f = u.bin_expand(b, r)
        C.same(tuple(f.shape), (2, 2)[:pre]+(e[-1],), "expanded shape")
        for i in range(k):
            for j in range(e[i], e[i+1]): C.eq(f[..., j], r[..., i], "value of the bin")

@case(params=["reduce", "filter", "slice", "linear"], budget=(40, 200))
def blocks(C, what):
    """block_reduce, block_expand, block_mean_filter, slice_downgrade"""
    u, np = C.px.utils, C.np
    nd = C.pick("nd", 1, 2); n = C.pick("n", 1, C.q(5 if what == "slice" else 6, 8)); bs = C.pick("b", 1, C.q(3, 4))
    ax = C.choice("ax", [-1, 0]) if nd == 2 and what in ("reduce", "slice") else -1
    a = C.data("a", (n,) if nd == 1 else (2, n) if ax == -1 else (n, 2))
    A = np.moveaxis(a, ax, -1)
    if what == "reduce":
        off = C.pick("off", 0, min(n, bs-1)); inc = C.choice("inc", [True, False]); op = C.choice("op", ["mean", "sum"])
        kw = {} if op == "mean" else {"op": np.sum}
        if not inc and (n-off) < bs: return
        r = u.block_reduce(a, bs, axis=ax, off=off, inclusive=inc, **kw)
        bl = [(0, off)] if off and inc else []
        s = off
        while s+bs <= n: bl.append((s, s+bs)); s += bs
        if s < n and inc: bl.append((s, n))
        R = np.moveaxis(r, ax, -1)
        C.same(tuple(R.shape), tuple(A.shape[:-1])+(len(bl),), "shape")
        for i, (s, e) in enumerate(bl):
            t = sum([A[..., j] for j in range(s, e)])
            C.eq(R[..., i], t*C.rat(1, e-s) if op == "mean" else t, "block")
        f = np.moveaxis(u.block_expand(r, bs, n, axis=ax, off=off, inclusive=inc), ax, -1)
        C.same(tuple(f.shape), tuple(A.shape), "expanded shape")
        for j in range(n):
            i = [k for k, (s, e) in enumerate(bl) if s <= j < e]
            C.eq(f[..., j], R[..., i[0]] if i else 0*A[..., j], "value of the block")
    elif what == "linear":
        # a straight line comes back between the block centers
        nb = n; o = nb*bs
        sl, c0 = C.real("sl"), C.real("c0")
        v = C.arr([c0+sl*(i*bs+C.rat(bs-1, 2)) for i in range(nb)])
        f = u.block_expand(v, bs, o, op="linear")
        C.same(len(f), o, "shape")
        for j in range(o):
            t = min(max(F(j), F(bs-1, 2)), F((nb-1)*bs)+F(bs-1, 2))
            C.eq(f[j], c0+sl*C.rat(t.numerator, t.denominator), "interpolated")
    elif what == "filter":
        a0 = C.arr(a).copy()
        r = u.block_mean_filter(a, bs)
        C.eq(a, a0, "the input is left alone"); C.same(tuple(r.shape), tuple(a.shape), "shape")
        if n < bs:
            for j in range(n): C.eq(r[..., j], sum([a[..., i] for i in range(n)])*C.rat(1, n), "mean")
        else:
            for j in range(n):
                s = j//bs*bs
                # an incomplete last block is filled up with the mirrored samples before the end
                C.eq(r[..., j], sum([a[..., i if i < n else 2*n-2-i] for i in range(s, s+bs)])*C.rat(1, bs), "mean of the block")
    else:
        st = C.choice("st", [None, bs, -bs]); lo, hi = C.choice("lo", [None, 0, 1, n-1]), C.choice("hi", [None, n, -1, 1])
        sel = slice(lo, hi, st)
        idx = list(range(n))[slice(lo, hi, -1 if st and st < 0 else 1)]
        if not idx: return
        r = np.moveaxis(u.slice_downgrade(a, sel, axis=ax), ax, -1)
        w = abs(st or 1)
        C.same(r.shape[-1], -(-len(idx)//w), "length")
        for i in range(-(-len(idx)//w)):
            q = idx[i*w:(i+1)*w]
            C.eq(r[..., i], sum([A[..., j] for j in q])*C.rat(1, len(q)), "mean over the step")

@case(budget=(40, 200))
def interp(C):
    """interp with leading dimensions is the piecewise linear interpolation of each row"""
    u, np = C.px.utils, C.np
    n, pre = C.pick("n", 1, 3), C.pick("pre", 0, 1)
    xp = np.array([0, 2, 3][:n], float) if C.sym else np.array([0., 2, 3][:n])
    fp = C.data("f", (2,)*pre+(n,)); x = C.data("x", (2,), -2, 5)
    r = u.interp(x, xp, fp)
    C.same(tuple(r.shape), (2,)*pre+(2,), "shape")
    X = [0, 2, 3][:n]
    for k in range(2 if pre else 1):
        f, q = (fp[k], r[k]) if pre else (fp, r)
        for j in range(2):
            v = x[j]
            if bool(v <= 0): w = f[0]
            elif bool(v >= X[-1]): w = f[n-1]
            else:
                i = 0 if n == 2 or bool(v < 2) else 1
                w = f[i]+(f[i+1]-f[i])*(v-X[i])*C.rat(1, X[i+1]-X[i])
            C.eq(q[j], w, "interpolated")

@case(params=["solve", "cond"], budget=(40, 200))
def linear(C, what):
    """solve: A x = b along any axes; build_conditional: the conditional distribution of a Gaussian"""
    u, np = C.px.utils, C.np
    if what == "solve":
        n = C.pick("n", 1, C.q(2, 2)); pre = C.pick("pre", 0, 1); m = 2 if pre else 1
        A = C.data("A", (m, n, n), -2, 2); 
        B = np.zeros((m, n, n))+A
        for i in range(n): B[:, i, i] = B[:, i, i]*0+5+i
        cols = C.choice("cols", [0, 2]); form = C.choice("form", ["last", "first"]) if pre else "last"
        b = C.data("b", (m, n)+((cols,) if cols else ()))
        if not pre: AA, bb, ax = B[0], b[0], [-2, -1]
        elif form == "last": AA, bb, ax = B, b, [-2, -1]
        else:
            # matrix axes first
            AA, bb, ax = np.moveaxis(B, 0, -1), np.moveaxis(b, 0, -1), [0, 1]
        masked = C.choice("masked", [False, True]) if pre else False
        if masked:
            # entries with a zero first element are skipped
            B[1] = 0
            AA = B if form == "last" else np.moveaxis(B, 0, -1)
        b = C.arr(b).copy()
        x = u.solve(AA, bb, axes=ax, masked=masked)
        C.same(tuple(x.shape), tuple(bb.shape), "shape")
        X = x[None] if not pre else x if form == "last" else np.moveaxis(x, -1, 0)
        for k in range(m):
            if masked and k == 1: C.eq(X[k], 0*X[k], "skipped"); continue
            for c in range(max(cols, 1)):
                for i in range(n):
                    t = sum([B[k, i, j]*(X[k, j, c] if cols else X[k, j]) for j in range(n)])
                    C.eq(t, b[k, i, c] if cols else b[k, i], "solution", tol=1e-6)
    else:
        n = 2 if C.tier == "quick" else C.pick("n", 2, 3)
        r = C.int("r", -2, 2); cross = I(r)
        S = [[5, cross, 1], [cross, 7, 2], [1, 2, 6]]
        S = np.array([row[:n] for row in S[:n]], float)
        m = C.pick("m", 1, n-1); inds = C.choice("inds", list(itertools.combinations(range(n), m)))
        extra = C.choice("extra", [False, True])
        ps = np.stack([S, S*2], -1) if extra else S
        A, cov = u.build_conditional(ps, list(inds))
        k, q = list(inds), [i for i in range(n) if i not in inds]
        C.same((tuple(A.shape), tuple(cov.shape)), ((len(q), len(k))+((2,) if extra else ()), (len(q), len(q))+((2,) if extra else ())), "shapes")
        x = C.data("x", (m,))
        for e in range(2 if extra else 1):
            Ae, ce = (A[..., e], cov[..., e]) if extra else (A, cov)
            sc = e+1
            # mean: A S_kk = S_qk ; covariance: S_qq - A S_kq
            for i in range(len(q)):
                for j in range(m): C.eq(sum([float(Ae[i, l])*float(S[k[l], k[j]]) for l in range(m)])*x[j], float(S[q[i], k[j]])*x[j], "mean", tol=1e-6)
                for j in range(len(q)): C.eq(float(ce[i, j]), sc*(float(S[q[i], q[j]])-sum([float(Ae[i, l])*float(S[k[l], q[j]]) for l in range(m)])), "covariance", tol=1e-6)
