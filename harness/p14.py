from .common import *
from .comm import World
import itertools
PRELOAD = ["utils"]
BOUNDS = "ranges: up to 3 against 3 with integer ends in -30..30 (2 against 2 when quick); masks of up to 6 samples; lists of up to 4 weights; boxes of 1-3 dimensions with real corners; strided boxes with ends in -20..20 and steps -3..3; wraps 5-9; up to 2 tasks with up to 2 boxes each in redistribution"
ASSUMPTIONS = ["MPI is simulated by tasks that switch only at communication calls; message buffers are compared by number of elements"]

def ranges(C, name, n, lo=-30, hi=30, empty=False):
    a = C.idata(name, (n, 2), lo, hi)
    for i in range(n): C.assume(a[i, 0] <= a[i, 1] if empty else a[i, 0] < a[i, 1])
    return a
def disjoint(C, a):
    for i in range(len(a)):
        for j in range(i): C.assume(C.or_(a[i, 1] <= a[j, 0], a[j, 1] <= a[i, 0]))
def member(C, x, a): return C.or_(False, *[C.and_(a[i][0] <= x, x < a[i][1]) for i in range(len(a))])
def iff(C, a, b): return C.and_(C.implies(a, b), C.implies(b, a))

@case(budget=(30, 100))
def mask2range(C):
    """the ranges of a mask: non-empty, separated, in order, and covering exactly the true samples"""
    u, np = C.px.utils, C.np
    n = C.pick("n", 0, C.q(5, 7))
    m = C.idata("m", (n,), 0, 1)
    r = u.mask2range(m != 0 if n else np.zeros(0, bool))
    C.same(tuple(r.shape[1:]), (2,), "shape")
    k = len(r)
    for i in range(k):
        C.check(r[i, 0] < r[i, 1], "not empty")
        if i: C.check(r[i-1, 1] < r[i, 0], "separated and in order")
    for x in range(n): C.check(iff(C, m[x] != 0, member(C, x, r)), "membership")
    C.check(k == 0 or r[k-1, 1] <= n, "within the mask")

@case(budget=(60, 600), max_paths=(20000, 200000))
def range_sub(C):
    """the ranges of a without those of b"""
    u, np = C.px.utils, C.np
    na, nb = C.pick("na", 0, C.q(2, 3)), C.pick("nb", 0, C.q(2, 3))
    a, b = ranges(C, "a", na, empty=True), ranges(C, "b", nb)
    disjoint(C, a); disjoint(C, b)
    if C.tier == "quick" and na == 2 and nb == 2: C.assume(a[0, 0] <= a[1, 0])
    x = C.int("x", -31, 31)
    c, rmap, abmap = u.range_sub(a, b, mapping=True)
    C.same((len(rmap), c.ndim), (len(c), 2), "shape")
    C.eq(u.range_sub(a, b), c, "without mapping")
    C.check(iff(C, member(C, x, c), C.and_(member(C, x, a), C.not_(member(C, x, b)))), "membership")
    for i in range(len(c)):
        C.check(c[i, 0] < c[i, 1], "not empty")
        if i: C.check(c[i-1, 1] <= c[i, 0], "in order")
        r = int(rmap[i])
        C.check(C.and_(a[r, 0] <= c[i, 0], c[i, 1] <= a[r, 1]), "mapping to a")
    ab = [int(v) for v in abmap]
    C.same([v for v in ab if v >= 0], list(range(len(c))), "output ranges in the combined order")
    C.same(len([v for v in ab if v < 0]), len(set(v for v in ab if v < 0)), "each b range once")
    ends = [(c[v] if v >= 0 else b[-v-1]) for v in ab]
    for p, q in zip(ends[:-1], ends[1:]): C.check(p[1] <= q[0], "combined order")

@case(budget=(60, 600), max_paths=(20000, 200000))
def range_union(C):
    """overlapping and touching ranges merged"""
    u, np = C.px.utils, C.np
    n = C.pick("n", 0, C.q(3, 4))
    a = ranges(C, "a", n, empty=True)
    x = C.int("x", -31, 31)
    b, rmap = u.range_union(a.reshape(n, 2), mapping=True)
    C.same((len(rmap), tuple(b.shape[1:])), (n, (2,)), "shape")
    C.eq(u.range_union(a.reshape(n, 2)), b, "without mapping")
    C.check(iff(C, member(C, x, a), member(C, x, b)), "membership")
    for i in range(len(b)):
        if i: C.check(b[i-1, 1] < b[i, 0], "separated and in order")
    for i in range(n):
        r = int(rmap[i])
        C.check(C.and_(b[r, 0] <= a[i, 0], a[i, 1] <= b[r, 1]), "mapping")
    C.same(sorted(set(int(v) for v in rmap)), list(range(len(b))), "no range from nothing")

@case(budget=(30, 200))
def range_normalize(C):
    """empty and reversed ranges dropped, the others unchanged"""
    u = C.px.utils
    n = C.pick("n", 1, C.q(3, 4))
    a = C.idata("a", (n, 2), -9, 9)
    r = u.range_normalize(a)
    keep = [i for i in range(n) if bool(a[i, 0] < a[i, 1])]
    C.eq(r, C.arr([[a[i, 0], a[i, 1]] for i in keep]).reshape(len(keep), 2), "ranges")

@case(budget=(60, 300), max_paths=(20000, 200000))
def range_cut(C):
    """ranges cut at given positions: same points, no range crosses a cut"""
    u = C.px.utils
    n, k = C.pick("n", 1, 2), C.pick("k", 1, C.q(2, 3))
    a = ranges(C, "a", n); disjoint(C, a)
    c = C.idata("c", (k,), -30, 30)
    for i in range(k-1): C.assume(c[i] < c[i+1])
    x = C.int("x", -31, 31)
    r = u.range_cut(a, c)
    C.check(iff(C, member(C, x, a), member(C, x, r)), "membership")
    for i in range(len(r)):
        C.check(r[i, 0] < r[i, 1], "not empty")
        for j in range(k): C.check(C.or_(c[j] <= r[i, 0], c[j] >= r[i, 1]), "no cut inside")
        if i: C.check(C.or_(r[i-1, 1] < r[i, 0], *[C.and_(r[i-1, 1] == r[i, 0], r[i, 0] == c[j]) for j in range(k)], *[C.and_(r[i-1, 1] == r[i, 0], r[i, 0] == a[j, 0]) for j in range(n)]), "split only at cuts")

@case(budget=(60, 200))
def cumsplit(C):
    """where each capacity runs out"""
    u, np = C.px.utils, C.np
    n, k = C.pick("n", 1, C.q(3, 4)), C.pick("k", 1, 2)
    s, c = C.idata("s", (n,), 0, 9), C.idata("c", (k,), 0, 20)
    r = u.cumsplit(s, c)
    C.same(tuple(r.shape), (k,), "shape")
    cap = 0
    for j in range(k):
        cap = cap+c[j]; i = int(r[j])
        C.check(sum([s[q] for q in range(i)], 0*s[0]) <= cap, "what is before fits")
        if i < n: C.check(sum([s[q] for q in range(i+1)], 0*s[0]) > cap, "what follows does not")

@case(params=["equal_split", "greedy_split_simple", "greedy_split"], budget=(60, 200))
def splits(C, fun):
    """every element in exactly one group; the groups' totals differ by no more than the largest element"""
    u, np = C.px.utils, C.np
    n, k = C.pick("n", 1, C.q(3, 5)), C.pick("k", 1, 3)
    if fun == "greedy_split":
        w = [C.int("w%d" % i, 0, 20) for i in range(n)]
        g, cost, work = u.greedy_split(w, n=k, workfun=lambda w, x: 0 if x is None else x+w)
    else:
        w = C.data("w", (n,), 0, 20)
        g = getattr(u, fun)(w, k)
    C.same(len(g), k, "number of groups")
    C.same(sorted(int(i) for x in g for i in x), list(range(n)), "a partition")
    tot = [sum([w[int(i)] for i in x], 0*w[0]) for x in g]
    if fun == "greedy_split":
        for t, v in zip(tot, work): C.check(t == v, "totals returned")
        C.check(C.and_(*[cost >= t for t in tot]), "cost"); C.check(C.or_(*[cost == t for t in tot]), "cost reached")
        # no group is larger than the best bound of list scheduling: average plus one element
        for t in tot: C.check(C.or_(*[k*t <= sum(tot, 0*w[0])+(k-1)*v for v in w]), "balanced")
    else:
        for s in tot:
            for t in tot: C.check(C.or_(*[s-t <= v for v in w]), "balanced")

@case(params=["bound", "corners", "overlap", "pad", "widen", "contour", "area"], budget=(30, 200))
def boxes(C, what):
    """bounding boxes, corners, outlines, overlaps, widened and padded boxes"""
    u, np = C.px.utils, C.np
    nd = C.pick("nd", 1, C.q(2, 3))
    if what == "bound":
        n = C.pick("n", 1, 3)
        pts = C.data("p", (n, nd))
        b = u.bounding_box(pts)
        for d in range(nd):
            C.check(C.and_(*[b[0, d] <= pts[i, d] for i in range(n)]), "lower bound"); C.check(C.or_(*[b[0, d] == pts[i, d] for i in range(n)]), "lower bound reached")
            C.check(C.and_(*[b[1, d] >= pts[i, d] for i in range(n)]), "upper bound"); C.check(C.or_(*[b[1, d] == pts[i, d] for i in range(n)]), "upper bound reached")
        q = C.data("q", (n, 2, nd))
        b = u.bounding_box(q)
        for d in range(nd):
            C.check(C.and_(*[b[0, d] <= q[i, 0, d] for i in range(n)]), "lower bound of boxes"); C.check(C.or_(*[b[0, d] == q[i, 0, d] for i in range(n)]), "lower bound of boxes reached")
            C.check(C.and_(*[b[1, d] >= q[i, 1, d] for i in range(n)]), "upper bound of boxes"); C.check(C.or_(*[b[1, d] == q[i, 1, d] for i in range(n)]), "upper bound of boxes reached")
        return
    box = C.data("b", (2, nd)); b0 = C.arr(box).copy()
    if what == "corners":
        r = u.box2corners(box)
        want = [[box[(i >> d) & 1, d] for d in range(nd)] for i in range(2**nd)]
        C.eq(r, C.arr(want), "corners")
    elif what == "contour":
        k = C.pick("k", 2, 3)
        r = u.box2contour(box, k)
        C.same(tuple(r.shape), (nd*2**(nd-1)*k, nd), "points of all the edges")
        # points of every edge, in order along it
        want = []
        for d in range(nd):
            for j in range(2**nd):
                if (j >> d) & 1: continue
                for t in range(k): want.append([box[0, d]+(box[1, d]-box[0, d])*F(t, k-1) if q == d else box[(j >> q) & 1, q] for q in range(nd)] if C.sym else [float(box[0, d]+(box[1, d]-box[0, d])*t/(k-1)) if q == d else float(box[(j >> q) & 1, q]) for q in range(nd)])
        C.eq(r, C.arr(want), "points along the edges")
    elif what == "area":
        for d in range(2, nd): C.assume(box[0, d] == d, box[1, d] == 2*d+1) if C.sym else None
        t = 1
        for d in range(nd): t = t*(box[1, d]-box[0, d])
        r = u.box_area(box)
        C.check(r >= 0, "area not negative")
        C.check(C.or_(abs(r-t) <= 1e-6, abs(r+t) <= 1e-6) if not C.sym else C.or_(r == t, r == -t), "area")
    elif what == "overlap":
        o = C.data("o", (2, nd))
        for d in range(nd): C.assume(box[0, d] <= box[1, d], o[0, d] <= o[1, d])
        form = C.choice("form", ["one", "many"]) if C.tier != "quick" or nd == 1 else "many"
        if form == "one": r = u.box_overlap(box, o)
        else:
            r = u.box_overlap(C.arr([box, box]), C.arr([o, o, o]))
            C.same(tuple(r.shape), (2, 3), "shape")
            r = r[1, 2]
        t = 1
        for d in range(nd):
            lo = box[0, d] if bool(box[0, d] >= o[0, d]) else o[0, d]
            hi = box[1, d] if bool(box[1, d] <= o[1, d]) else o[1, d]
            t = t*(hi-lo if bool(hi > lo) else 0)
        C.eq(r, t+0*r, "overlap")
        s = u.box_slice(box, o)
        C.same(tuple(s.shape), (2, nd), "shape of box_slice")
        for d in range(nd):
            for k in range(2):
                w = o[k, d]-box[0, d]
                if bool(w < 0): w = 0*w
                elif bool(w > box[1, d]-box[0, d]): w = box[1, d]-box[0, d]
                C.eq(s[k, d], w, "box_slice")
    else:
        p = C.data("m", (nd,), 0, 10) if C.choice("perdim", [True, False]) else C.real("m", 0, 10)
        pp = [p[d] for d in range(nd)] if hasattr(p, "shape") and p.shape else [p]*nd
        if what == "pad": r = u.pad_box(box, p)
        else:
            rel = C.choice("rel", [False, True])
            r = u.widen_box(box, p, relative=rel)
        for d in range(nd):
            w = box[1, d]-box[0, d]
            s = sgn2(w)
            if what == "pad": g = s*pp[d]
            elif rel: g = abs(w)*pp[d]*s*C.rat(1, 2) if bool(w > 0) or bool(w == 0) else None
            else: g = (s if s else 1)*pp[d]*C.rat(1, 2)
            if g is None: continue   # relative margins of descending boxes: not claimed
            C.eq(r[0, d], box[0, d]-g, "lower edge"); C.eq(r[1, d], box[1, d]+g, "upper edge")
    C.eq(box, b0, "the box is left alone")
def sgn2(w): return 1 if bool(w > 0) else -1 if bool(w < 0) else 0

@case(budget=(30, 100))
def unwrap(C):
    """unwrap_range: same positions, width within one period, straddling zero where it can"""
    u = C.px.utils
    n = C.pick("n", 1, 2); P = C.choice("P", [360, F(7, 2), 24])
    r = C.data("r", (2, n), -1000, 1000)
    r0 = C.arr(r).copy()
    o = u.unwrap_range(r, P if C.sym else float(P))
    for i in range(n):
        C.eqmod(o[0, i], r0[0, i], P, "start"); C.eqmod(o[1, i], r0[1, i], P, "end")
        w = o[1, i]-o[0, i]
        e = F(1, 10**6)
        C.check(C.and_(w >= -e, w < P+e), "width")
        C.check(C.and_(o[1, i] >= -e, o[1, i] < P+e), "end just above zero")

# ---- strided boxes: [start,end,step] stands for the pixels start, start+step, ... before end
def sbox(C, name, lo=-20, hi=20, steps=(-3, -2, -1, 1, 2, 3), nmin=1, nmax=6):
    """a strided box and its number of pixels (given); start symbolic"""
    st = C.choice(name+"st", list(steps)); n = C.pick(name+"n", nmin, nmax)
    s = C.int(name+"s", lo, hi)
    # the end may be anything that makes n pixels
    x = C.int(name+"x", 0, abs(st)-1)
    e = s+st*n-sg(st)*x if n else s
    return C.arr([s, e, st]), s, n, st
def sg(x): return 1 if x > 0 else -1
def pix(b, k): return b[0]+k*b[2]
def count(b):
    """number of pixels of a concrete or symbolic box with exact ends"""
    return (b[1]-b[0])//b[2]

@case(budget=(60, 200))
def sbox_basic(C):
    """size, normalized end, flipping and conversion to slices"""
    u, np = C.px.utils, C.np
    b, s, n, st = sbox(C, "a", 0, 20)
    b0 = C.arr(b).copy()
    C.check(u.sbox_size(b) == n, "size")
    f = u.sbox_fix(b)
    C.eq(f, C.arr([s, s+n*st, st]), "end a whole number of steps from the start")
    g = u.sbox_flip(f)
    C.check(u.sbox_size(g) == n, "size of the flipped box")
    for k in range(n): C.check(pix(g, k) == pix(f, n-1-k), "flipped order")
    C.eq(b, b0, "the box is left alone")
    two = u.sbox_fix([s, s+n]); C.eq(two, C.arr([s, s+n, 1]), "step one if missing")

@case(budget=(60, 200))
def sbox_slice(C):
    """sbox2slice picks the pixels of the box"""
    u, np = C.px.utils, C.np
    N = 8
    st = C.choice("st", [-3, -2, -1, 1, 2, 3]); n = C.pick("n", 1, 4); s = C.pick("s", 0, N-1)
    C.assume(0 <= s+st*(n-1) < N)
    d = C.data("d", (2, N))
    r = d[u.sbox2slice(np.array([[s, s+n*st, st]]))]
    C.eq(r, C.arr([[d[i, s+k*st] for k in range(n)] for i in range(2)]), "pixels")

@case(budget=(60, 300), max_paths=(20000, 200000))
def sbox_divmul(C):
    """arr[a] = arr[b][sbox_div(a,b)], arr[sbox_mul(a,b)] = arr[a][b]"""
    u, np = C.px.utils, C.np
    b, s, n, st = sbox(C, "b", nmin=C.q(3, 1), nmax=C.q(4, 6), steps=C.q((-2, 1, 3), (-3, -2, -1, 1, 2, 3)))
    b = u.sbox_fix(b)
    k0, m, sk = C.pick("k0", 0, n-1), C.pick("m", 1, n), C.choice("sk", [-2, -1, 1, 2])
    C.assume(0 <= k0+(m-1)*sk < n)
    sub = C.arr([k0, k0+m*sk, sk])
    a = C.arr([s+k0*st, s+(k0+m*sk)*st, sk*st])
    how = C.choice("how", ["div", "mul"])
    if how == "div":
        c = u.sbox_div(a, b)
        C.check(u.sbox_size(c) == m, "size of the quotient")
        for k in range(m): C.check(pix(c, k) == k0+k*sk, "quotient")
    else:
        c = u.sbox_mul(b, sub)
        C.check(u.sbox_size(c) == m, "size of the product")
        for k in range(m): C.check(pix(c, k) == s+(k0+k*sk)*st, "product")

@case(budget=(60, 400), max_paths=(20000, 200000))
def sbox_intersect1(C):
    """the intersection of two strided boxes: exactly the pixels in both, without and with wrapping"""
    u, np = C.px.utils, C.np
    w = C.choice("wrap", [0, 5, 7] if C.tier != "quick" else [0, 5])
    steps = (-2, 1, 3) if C.tier == "quick" else (-3, -2, -1, 1, 2, 3)
    a, s1, n1, t1 = sbox(C, "a", -8, 8, steps=steps, nmax=3)
    b, s2, n2, t2 = sbox(C, "b", -8, 8, steps=steps, nmax=3)
    if w: C.assume(abs(t1)*n1 <= w, abs(t2)*n2 <= w)
    r = u.sbox_intersect_1d(a, b, wrap=w)
    pts = []
    for q in r:
        C.check(q[2] > 0, "steps upwards")
        k = u.sbox_size(C.arr(list(q))); k = split(C, k, 0, 6)
        C.same(k > 0, True, "not empty")
        pts += [q[0]+i*q[2] for i in range(k)]
    A, B = [s1+i*t1 for i in range(n1)], [s2+i*t2 for i in range(n2)]
    eqv = (lambda x, y: (x-y) % w == 0) if w else (lambda x, y: x == y)
    for p in pts:
        C.check(C.or_(*[eqv(p, x) for x in A]), "in the first"); C.check(C.or_(*[eqv(p, x) for x in B]), "in the second")
    for x in A:
        C.check(C.implies(C.or_(*[eqv(x, y) for y in B]), C.or_(False, *[eqv(x, p) for p in pts])), "nothing left out")
    for i in range(len(pts)):
        for j in range(i): C.check(C.not_(eqv(pts[i], pts[j])), "nothing twice")
def split(C, v, lo, hi):
    v = v if not hasattr(v, "item") or not hasattr(v, "shape") or v.shape else v.item()
    for k in range(lo, hi+1):
        if bool(v == k): return k
    return None

@case(budget=(60, 300), max_paths=(20000, 200000))
def sbox_intersect(C):
    """intersection in two dimensions, of one box or many"""
    u, np = C.px.utils, C.np
    def bx(nm, fix):
        y, x = (1 if fix else C.pick(nm+"y", 0, C.q(2, 3))), C.int(nm+"x", 0, 6)
        h, wd = (2 if fix else C.pick(nm+"h", 1, 2)), C.pick(nm+"w", 1, C.q(2, 3))
        return C.arr([[y, y+h, 1], [x, x+wd, 1]]), (y, x, h, wd)
    a, A = bx("a", C.tier == "quick"); b, B = bx("b", False)
    form = C.choice("form", ["one", "many", "left"])
    if form == "one": r = u.sbox_intersect(a, b)
    elif form == "many":
        r = u.sbox_intersect(C.arr([b, a]), C.arr([a, b]))
        C.same(tuple(r.shape), (2, 2), "shape"); r = r[1, 1]
    else:
        r = u.sbox_intersect(C.arr([a, a, b]), b)
        C.same(tuple(r.shape), (3,), "shape"); r = r[1]
    y1, y2 = max(A[0], B[0]), min(A[0]+A[2], B[0]+B[2])
    x1 = A[1] if bool(A[1] >= B[1]) else B[1]
    e1, e2 = A[1]+A[3], B[1]+B[3]
    x2 = e1 if bool(e1 <= e2) else e2
    if y1 < y2 and bool(x1 < x2):
        C.same(len(r), 1, "one overlap")
        q = r[0]
        C.eq(C.arr([[v for v in row] for row in q]), C.arr([[y1, y2, 1], [x1, x2, 1]]), "overlap")
    else: C.same(len(r), 0, "no overlap")

@case(budget=(60, 400), max_paths=(20000, 200000))
def sbox_wrap(C):
    """cutting a strided box at the wrapping point and the edges of the array: every pixel that exists, once, at its place"""
    u, np = C.px.utils, C.np
    w = C.choice("wrap", [0, 5, 7] if C.tier != "quick" else [0, 5])
    cap = C.choice("cap", [0, 3, 5, 7] if C.tier != "quick" else [0, 4])
    if w: C.assume(cap <= w)
    b, s, n, st = sbox(C, "a", -12, 12, steps=(-3, -2, -1, 1, 2, 3) if C.tier != "quick" else (-2, -1, 1, 3), nmax=4)
    r = u.sbox_wrap(C.arr([b]), wrap=w, cap=cap)
    got = []
    for (i,), (o,) in r:
        k = split(C, u.sbox_size(C.arr(list(i))), 0, 8)
        C.check(u.sbox_size(C.arr(list(o))) == k, "as many in as out")
        for j in range(k): got.append((i[0]+j*i[2], o[0]+j*o[2]))
    for p, k in got:
        if cap: C.check(C.and_(p >= 0, p < cap), "within the array")
        elif w: C.check(C.and_(p >= 0, p < w), "within a turn")
    for k in range(n):
        x = s+k*st
        m = x % w if w else x
        exists = C.and_(m >= 0, m < cap) if cap else True
        hits = [C.and_(q == k, p == m) for p, q in got]
        C.check(iff(C, exists, C.or_(False, *hits)), "every pixel that exists at its place")
    for i in range(len(got)):
        C.check(C.and_(got[i][1] >= 0, got[i][1] < n), "within the output")
        for j in range(i): C.check(got[i][1] != got[j][1], "no place twice")

@case(budget=(60, 200))
def slices(C):
    """expand_slice, split_slice and slice_downgrade"""
    u, np = C.px.utils, C.np
    what = C.choice("what", ["expand", "split", "downgrade"])
    if what == "expand":
        n = C.pick("n", C.q(2, 1), C.q(3, 5)); lim = n+2
        st = C.choice("st", C.q([None, -2, 2], [None, -2, -1, 1, 2]))
        a = C.int("a", -lim, lim) if C.choice("ha", [True, False]) else None
        b = C.int("b", -lim, lim) if C.choice("hb", [True, False]) else None
        r = u.expand_slice(slice(a, b, st), n)
        k = C.int("k", 0, 9)
        # k is selected iff it is in start..stop by steps of step, all within the array
        s = st or 1
        if s > 0:
            A = 0 if a is None else C.ite(a < 0, C.ite(a+n < 0, 0, a+n), C.ite(a > n, n, a))
            B = n if b is None else C.ite(b < 0, C.ite(b+n < 0, 0, b+n), C.ite(b > n, n, b))
            want = C.and_(k < n, k >= A, k < B, (k-A) % s == 0)
            got = C.and_(k >= r.start, k < r.stop, (k-r.start) % r.step == 0)
        else:
            A = n-1 if a is None else C.ite(a < 0, C.ite(a+n < 0, -1, a+n), C.ite(a >= n, n-1, a))
            B = -1 if b is None else C.ite(b < 0, C.ite(b+n < 0, -1, b+n), C.ite(b >= n, n-1, b))
            want = C.and_(k < n, k <= A, k > B, (A-k) % -s == 0)
            got = C.and_(k <= r.start, k > r.stop, (r.start-k) % -r.step == 0)
        C.same(r.step, s, "step")
        C.check(iff(C, want, got), "pixels")
    elif what == "downgrade":
        n = C.pick("n", 1, C.q(4, 5)); axis = C.choice("axis", [0, -1]); st = C.choice("st", [-2, -1, 1, 2, 3])
        d = C.data("d", (n,)); dd = C.arr([d, 2*d]) if axis == -1 else C.arr([[v, 2*v] for v in d])
        a = C.choice("a", [None, 0, 1]) if st > 0 else None
        r = u.slice_downgrade(dd, slice(a, None, st), axis=axis)
        vals = [d[i] for i in range(n)][a:]
        if st < 0: vals = vals[::-1]
        m = abs(st); want = []
        for i in range(0, len(vals), m): want.append(sum(vals[i:i+m], 0*d[0])/len(vals[i:i+m]))
        C.eq(r[0] if axis == -1 else r[:, 0], C.arr(want), "block means"); C.eq(r[1] if axis == -1 else r[:, 1], C.arr([2*v for v in want]), "block means")
    else:
        sel = C.choice("sel", [(Ellipsis, 0), (0, Ellipsis, slice(1, 3)), (slice(0, 1), None, 1), (Ellipsis,), (None, Ellipsis, None, 1), (1,), (1, 0, slice(None), 1), (slice(None), 1, Ellipsis)])
        d = C.data("d", (2, 2, 3, 2))
        s1, s2 = u.split_slice(sel, [2, 2])
        # the first part uses up the first two axes, the second the last two
        used = sum(v is not None for v in s1)
        C.same(used <= 2 and sum(v is not None for v in s2) <= 2, True, "indices per part")
        full1 = s1+(slice(None),)*(2-used)
        ncut = sum(isinstance(v, int) for v in s1)
        nnew = sum(v is None for v in s1)
        r = d[full1][(slice(None),)*(2-ncut+nnew)+s2]
        C.eq(r, d[sel], "two steps as one")

# ---- several tasks
@case(budget=(60, 200))
def gather(C):
    """allgatherv: every task gets the concatenation of all the tasks' arrays, in order, whatever their lengths"""
    u, np = C.px.utils, C.np
    nt = C.pick("nt", 1, C.q(2, 3))
    ns = [C.pick("n%d" % t, 0, 2) for t in range(nt)]
    form = C.choice("form", ["1d", "2d", "axis1", "bool", "int"])
    def mk(t):
        n = ns[t]
        if form == "1d": return C.data("a%d" % t, (n,))
        if form == "int": return C.idata("a%d" % t, (n,), -9, 9) if n else np.zeros(0, int)
        if form == "2d": return C.data("a%d" % t, (n, 2))
        if form == "axis1": return C.data("a%d" % t, (2, n))
        import numpy
        return numpy.array([(t+i) % 2 == 0 for i in range(n)], bool)
    arrs = [mk(t) for t in range(nt)]
    ax = 1 if form == "axis1" else 0
    res = World(nt).run(lambda comm: u.allgatherv(arrs[comm.rank], comm, axis=ax))
    N = sum(ns)
    for t in range(nt):
        r = res[t]
        if N == 0: C.same(int(np.prod(np.array(r.shape))), 0, "empty"); continue
        if form == "axis1": want = C.arr([[arrs[q][i, k] for q in range(nt) for k in range(ns[q])] for i in range(2)])
        else: want = C.arr([arrs[q][k] for q in range(nt) for k in range(ns[q])])
        C.same(tuple(r.shape), tuple(want.shape), "shape")
        if form == "bool": C.same([bool(v) for v in r], [bool(v) for v in want], "values")
        else: C.eq(r, want, "values")

@case(budget=(60, 200))
def reductions(C):
    """allreduce, reduce, allgather, send and recv"""
    u, np = C.px.utils, C.np
    nt = C.pick("nt", 1, 3); shape = C.choice("shape", [(2,), (1, 2), ()])
    arrs = [C.data("a%d" % t, shape) for t in range(nt)]
    tot = C.arr(arrs[0]).copy()
    for a in arrs[1:]: tot = tot+a
    what = C.choice("what", ["allreduce", "op", "reduce", "allgather", "send"])
    if what == "allreduce":
        for r in World(nt).run(lambda comm: u.allreduce(arrs[comm.rank], comm)): C.eq(r, tot, "sum")
    elif what == "op":
        for r in World(nt).run(lambda comm: u.allreduce(arrs[comm.rank], comm, op=lambda a, b: a-b)):
            w = C.arr(arrs[0]).copy()
            for a in arrs[1:]: w = w-a
            C.eq(r, w, "given operation")
    elif what == "reduce":
        root = nt-1
        for t, r in enumerate(World(nt).run(lambda comm: u.reduce(arrs[comm.rank], comm, root=root))):
            if t == root: C.eq(r, tot, "sum on the root")
            else: C.same(r is None, True, "nothing elsewhere")
    elif what == "allgather":
        for r in World(nt).run(lambda comm: u.allgather(arrs[comm.rank], comm)): C.eq(r, C.arr(arrs).reshape((nt,)+shape), "all")
    else:
        if nt < 2: C.assume(False)
        def f(comm):
            if comm.rank == 0:
                u.send(arrs[0], comm, dest=1, tag=3); return None
            if comm.rank == 1: return u.recv(comm, source=0, tag=3)
        C.eq(World(nt).run(f)[1], arrs[0], "received")

@case(budget=(90, 600), max_paths=(20000, 200000))
def redistribute(C):
    """redistribute: each task ends up with its own boxes of the global array, whatever boxes the tasks had before"""
    u, np = C.px.utils, C.np
    H, W = 3, 6
    d = C.data("d", (H, W))
    k = C.choice("cfg", list(range(len(CFG))))
    ins, outs, wrap = CFG[k]
    npre = C.choice("pre", [0, 1])
    nt = len(ins)
    def cut(b):
        y, x = [list(range(*(t if len(t) == 3 else t+[1]))) for t in b]
        r = [[d[j, i % W] for i in x] for j in y]
        return C.arr([r, [[2*v for v in q] for q in r]]) if npre else C.arr(r)
    def f(comm):
        ib, ob = ins[comm.rank], outs[comm.rank]
        return u.redistribute([cut(b) for b in ib], np.array(ib), np.array(ob), comm, wrap=wrap)
    res = World(nt).run(f)
    for t in range(nt):
        C.same(len(res[t]), len(outs[t]), "number of boxes")
        for b, r in zip(outs[t], res[t]): C.eq(r, cut(b), "pixels")

def _mk(*b): return [[list(y), list(x)] for y, x in b]
CFG = [
    # one task, one box
    ([_mk(((0, 3), (0, 6)))], [_mk(((1, 3), (2, 5)))], 0),
    # one task, several boxes each way
    ([_mk(((0, 3), (0, 2)), ((0, 3), (2, 6)))], [_mk(((0, 2), (1, 4)), ((1, 3), (0, 3)))], 0),
    # two tasks swap columns for rows
    ([_mk(((0, 3), (0, 3))), _mk(((0, 3), (3, 6)))], [_mk(((0, 1), (0, 6))), _mk(((1, 3), (0, 6)))], 0),
    # two tasks, two boxes each
    ([_mk(((0, 1), (0, 6)), ((2, 3), (0, 6))), _mk(((1, 2), (0, 3)), ((1, 2), (3, 6)))], [_mk(((0, 3), (0, 1)), ((0, 3), (3, 5))), _mk(((0, 2), (1, 4)), ((2, 3), (4, 6)))], 0),
    # uneven numbers of boxes
    ([_mk(((0, 3), (0, 2))), _mk(((0, 1), (2, 6)), ((1, 3), (2, 6)))], [_mk(((0, 3), (1, 3)), ((0, 2), (2, 6)), ((2, 3), (0, 6))), _mk(((0, 3), (5, 6)))], 0),
    # strided boxes
    ([_mk(((0, 3, 1), (0, 6, 2))), _mk(((0, 3, 1), (1, 6, 2)))], [_mk(((0, 3, 2), (0, 3, 1))), _mk(((1, 2, 1), (0, 6, 3)))], 0),
    # across the wrapping point
    ([_mk(((0, 3), (0, 3))), _mk(((0, 3), (3, 6)))], [_mk(((0, 2), (4, 8))), _mk(((1, 3), (-1, 2)))], [0, 6]),
    ([_mk(((0, 3), (4, 7)), ((0, 3), (1, 4)))], [_mk(((0, 2), (5, 9)), ((2, 3), (2, 5)))], [0, 6]),
    ([_mk(((0, 3, 1), (0, 6, 1)))], [_mk(((0, 3, 1), (4, 10, 2)), ((0, 2, 1), (7, 3, -1)))], [0, 6]),
]
