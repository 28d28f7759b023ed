from .common import *
import itertools
PRELOAD = ["utils"]
BOUNDS = "arrays of up to 4 entries (5 thorough) with integer values in -6..6 or real values in -100..100, in every order; up to 3 arrays; factorization of numbers up to 60, indices into shapes of up to 3 dimensions of up to 3"
ASSUMPTIONS = ["nearest_ind, weighted_quantile: real values at exact ties may be resolved either way only where the statement allows it"]

def iff(C, a, b): return C.and_(C.implies(a, b), C.implies(b, a))
def isin(C, x, vals): return C.or_(False, *[x == v for v in vals])
def lst(a): return [a[i] for i in range(len(a))]
def distinct(C, a):
    for i in range(len(a)):
        for j in range(i): C.assume(a[i] != a[j])
def I(x): return int(x)

@case(budget=(30, 200))
def find(C):
    """find gives an index of each value; missing ones get the default or an error"""
    u, np = C.px.utils, C.np
    n, m = C.pick("n", 0, 3), C.pick("m", 0, C.q(2, 2))
    if C.tier == "quick" and n == 3: C.assume(m < 2); C.feasible()
    a = C.idata("a", (n,), -4, 4); v = C.idata("v", (m,), -5, 5)
    form = C.choice("form", ["default", "strict", "any"] if m else ["default", "any"])
    if form == "any":
        r = u.find_any(a, v)
        r = [I(r[k]) for k in range(len(r))]
        k = 0
        for i in range(m):
            if bool(isin(C, v[i], lst(a))):
                C.check(k < len(r) and 0 <= r[k] < n and a[r[k]] == v[i], "index of the value"); k += 1
        C.same(len(r), k, "one index per value present")
    elif form == "default":
        r = u.find(a, v, default=-7)
        C.same(tuple(np.shape(r)), (m,), "shape")
        for i in range(m):
            k = I(r[i])
            C.check(C.implies(k == -7, C.not_(isin(C, v[i], lst(a)))), "default only when missing")
            C.check(k == -7 or (0 <= k < n and a[k] == v[i]), "index of the value")
    else:
        allin = C.and_(True, *[isin(C, v[i], lst(a)) for i in range(m)])
        if bool(allin):
            r = u.find(a, v)
            for i in range(m): C.check(a[I(r[i])] == v[i], "index of the value")
        else: C.raises(ValueError, lambda: u.find(a, v), "missing value")

@case(budget=(30, 200))
def nearest_ind(C):
    """no entry is closer than the one pointed at"""
    u, np = C.px.utils, C.np
    n, m = C.pick("n", 1, C.q(3, 4)), C.pick("m", 1, 2)
    a = C.data("a", (n,)); v = C.data("v", (m,))
    srt = C.choice("sorted", [False, True])
    if srt:
        for i in range(1, n): C.assume(a[i-1] < a[i])
    r = u.nearest_ind(a, v, sorted=srt)
    for i in range(m):
        k = I(r[i])
        for j in range(n): C.check(abs(a[k]-v[i]) <= abs(a[j]-v[i])+F(1, 10**9), "closest")

@case(params=["contains", "common", "union"], budget=(30, 200))
def sets(C, what):
    """contains, common_vals, common_inds, union"""
    u, np = C.px.utils, C.np
    if what == "contains":
        n, m = C.pick("n", 0, C.q(3, 4)), C.pick("m", 0, C.q(2, 3))
        a = C.idata("a", (n,), -4, 4); b = C.idata("b", (m,), -4, 4)
        r = u.contains(a, b)
        C.same(tuple(r.shape), (n,), "shape")
        for i in range(n): C.check(iff(C, r[i], isin(C, a[i], lst(b))), "membership")
        return
    k = C.pick("k", 2, C.q(2, 3))
    ns = [C.pick("n%d" % i, 1, (C.q(3, 3), C.q(2, 3), 1)[i]) for i in range(k)]
    arrs = [C.idata("a%d" % i, (ns[i],), -4, 4) for i in range(k)]
    for a in arrs: distinct(C, a)
    x = C.int("x", -5, 5)
    inall = C.and_(*[isin(C, x, lst(a)) for a in arrs]); inany = C.or_(*[isin(C, x, lst(a)) for a in arrs])
    if what == "union":
        r = u.union(arrs)
        C.check(iff(C, isin(C, x, lst(r)), inany), "membership")
        for i in range(1, len(r)): C.check(r[i-1] < r[i], "each value once, in order")
        return
    r = u.common_vals(arrs)
    C.check(iff(C, isin(C, x, lst(r)), inall), "membership")
    for i in range(1, len(r)): C.check(r[i-1] < r[i], "each value once, in order")
    q = u.common_inds(arrs)
    C.same([len(p) for p in q], [len(r)]*k, "an index per common value and array")
    for a, p in zip(arrs, q):
        for i in range(len(r)): C.check(a[I(p[i])] == r[i], "index of the common value")

@case(params=["inverse", "complement", "transpose", "unmask"], budget=(20, 60))
def orders(C, what):
    """inverse_order undoes a reordering; complement_inds; transpose_inds; unmask undoes masking"""
    u, np = C.px.utils, C.np
    if what == "inverse":
        n = C.pick("n", 0, C.q(3, 4))
        o = C.idata("o", (n,), 0, max(n-1, 0)); distinct(C, o)
        o = np.array([I(v) for v in lst(o)], int)
        d = C.data("d", (n,))
        r = u.inverse_order(o)
        C.eq(d[o][r], d, "order then inverse"); C.eq(d[r][o], d, "inverse then order")
    elif what == "complement":
        n = C.pick("n", 1, C.q(4, 5)); m = C.pick("m", 0, 3)
        o = C.idata("o", (m,), 0, n-1)
        r = u.complement_inds(lst(o), n)
        r = [I(v) for v in r]
        C.same(r, sorted(set(r)), "in order, each once")
        for k in range(n): C.check(iff(C, k in r, C.not_(isin(C, k, lst(o)))), "membership")
        C.check(all(0 <= v < n for v in r), "within range")
    elif what == "transpose":
        nr, nc = C.int("nr", 1, 9), C.int("nc", 1, 9)
        r, c = C.int("r", 0, 8), C.int("c", 0, 8)
        C.assume(r < nr, c < nc)
        nr, nc = I(nr), I(nc)
        C.eq(u.transpose_inds(C.arr([r*nc+c]), nr, nc), C.arr([c*nr+r]), "index in the transposed array")
    else:
        n, pre = C.pick("n", 1, 4), C.pick("pre", 0, 1)
        m = C.idata("m", (n,), 0, 1)
        mask = np.array([bool(v != 0) for v in lst(m)], bool)
        d = C.data("d", (2,)*pre+(n,))
        fill = C.choice("fill", [0, 7])
        r = u.unmask(d[..., mask], mask, axis=C.choice("axis", [pre, -1]), fill=fill)
        C.eq(r, np.where(mask, d, fill), "values back in place")

@case(params=["groups", "fast", "unique", "multi"], budget=(40, 200))
def groups(C, what):
    """find_equal_groups, find_equal_groups_fast, label_unique, label_multi"""
    u, np = C.px.utils, C.np
    if what == "multi":
        k = C.pick("k", 1, 3); n = C.pick("n", 1, C.q(2 if k == 3 else 3, 3))
        vs = [C.idata("v%d" % i, (n,), 0, 2) for i in range(k)]
        r = u.label_multi(vs)
        C.same(tuple(r.shape), (n,), "shape")
        for i in range(n):
            for j in range(i):
                same = C.and_(*[v[i] == v[j] for v in vs])
                C.check(iff(C, r[i] == r[j], same), "same label exactly for the same values")
        C.same(sorted(set(I(r[i]) for i in range(n))), list(range(len(set(I(r[i]) for i in range(n))))), "labels count up from 0")
        return
    nd = C.pick("nd", 1, 2) if what in ("groups", "unique") else 1
    n = C.pick("n", 1, C.q(3, 4) if nd == 1 else C.q(3, 3))
    a = C.idata("a", (n,) if nd == 1 else (n, 2), -3, 3)
    eq = lambda i, j: C.and_(*[a[i, d] == a[j, d] for d in range(2)]) if nd == 2 else a[i] == a[j]
    if what == "groups":
        g = [[I(k) for k in q] for q in u.find_equal_groups(a)]
        lab = {}
        for gi, q in enumerate(g):
            for k in q: lab[k] = gi
        C.same(sorted(k for q in g for k in q), list(range(n)), "every entry in one group")
    elif what == "fast":
        uv, order, edges = u.find_equal_groups_fast(a)
        order, edges = [I(v) for v in order], [I(v) for v in edges]
        C.same((sorted(order), edges[0], edges[-1], len(edges)), (list(range(n)), 0, n, len(uv)+1), "partition")
        lab = {}
        for gi in range(len(uv)):
            for k in order[edges[gi]:edges[gi+1]]: lab[k] = gi; C.check(a[k] == uv[gi], "value of the group")
            if gi: C.check(uv[gi-1] < uv[gi], "groups in order")
            q = order[edges[gi]:edges[gi+1]]
            C.same(q, sorted(q), "original order within a group")
    else:
        r = u.label_unique(a, axes=() if nd == 1 else (C.choice("axis", [1, -1]),), rtol=0, atol=C.choice("atol", [0, 1e-8]))
        C.same(tuple(r.shape), (n,), "shape")
        lab = {i: I(r[i]) for i in range(n)}
        C.same(sorted(set(lab.values())), list(range(len(set(lab.values())))), "labels count up from 0")
    for i in range(n):
        for j in range(i): C.check(iff(C, lab[i] == lab[j], eq(i, j)), "together exactly when equal")

@case(budget=(20, 60))
def tolerance_groups(C):
    """find_equal_groups with a tolerance: members are close to the group's first entry"""
    u, np = C.px.utils, C.np
    n = C.pick("n", 1, C.q(3, 4)); tol = C.choice("tol", [1, F(5, 2)])
    a = C.data("a", (n,), -9, 9)
    g = [[I(k) for k in q] for q in u.find_equal_groups(a, tol=tol if C.sym else float(tol))]
    C.same(sorted(k for q in g for k in q), list(range(n)), "every entry in one group")
    for q in g:
        for k in q: C.check(abs(a[k]-a[q[0]]) <= tol+F(1, 10**9), "close to the group's first")
    for q, p in itertools.combinations(g, 2): C.check(abs(a[p[0]]-a[q[0]]) > tol-F(1, 10**9), "different groups start apart")

@case(params=["byid", "cumsum", "uncat", "dedup"], budget=(20, 60))
def sums(C, what):
    """sum_by_id, cumsum, uncat, dedup"""
    u, np = C.px.utils, C.np
    if what == "byid":
        n, nd = C.pick("n", 1, 3), C.pick("nd", 1, 2)
        ax = C.choice("ax", [0] if nd == 1 else [0, 1, -1])
        shape = (n,) if nd == 1 else ((n, 2) if ax == 0 else (2, n))
        d = C.data("d", shape); ids = C.idata("id", (n,), 0, 2)
        idl = [I(v) for v in lst(ids)]
        r = u.sum_by_id(d, idl, axis=ax)
        dd, rr = np.moveaxis(d, ax, 0), np.moveaxis(r, ax, 0)
        C.same(len(rr), max(idl)+1, "one entry per id")
        for k in range(max(idl)+1): C.eq(rr[k], sum([dd[i] for i in range(n) if idl[i] == k], 0*dd[0]), "sum of the entries with the id")
    elif what == "cumsum":
        nd = C.pick("nd", 1, 2)
        shape = tuple(C.pick("s%d" % i, 1, 3) for i in range(nd))
        ax = C.choice("ax", [None, 0, -1]); end = C.choice("end", [False, True])
        d = C.data("d", shape)
        r = u.cumsum(d, endpoint=end, axis=ax)
        dd = d.reshape(-1) if ax is None else np.moveaxis(d, ax, 0)
        rr = r if ax is None else np.moveaxis(r, ax, 0)
        C.same(len(rr), len(dd)+end, "length")
        t = 0*dd[0]
        for i in range(len(rr)):
            C.eq(rr[i], t, "sum of the earlier entries")
            if i < len(dd): t = t+dd[i]
    elif what == "uncat":
        lens = C.picks("l", C.pick("k", 1, 3), 0, 3)
        parts = [C.data("d%d" % i, (l,)) for i, l in enumerate(lens)]
        r = u.uncat(np.concatenate(parts), lens)
        C.same([len(p) for p in r], lens, "lengths")
        for p, q in zip(parts, r): C.eq(q, p, "parts")
    else:
        n = C.pick("n", 0, C.q(4, 5))
        a = C.idata("a", (n,), 0, 3); a0 = C.arr(a).copy()
        r = u.dedup(a)
        want = [a0[i] for i in range(n) if i == 0 or bool(a0[i] != a0[i-1])]
        C.same(len(r), len(want), "length")
        for i in range(len(want)): C.check(r[i] == want[i], "value")
        C.eq(a, a0, "the input is left alone")

@case(params=["search", "quantile", "median", "medmean"], budget=(40, 200), max_paths=(4000, 40000))
def quantiles(C, what):
    """search; weighted_quantile against the definition; medmean"""
    u, np = C.px.utils, C.np
    if what == "search":
        n, pre = C.pick("n", 1, 3), C.pick("pre", 0, 1)
        a = C.data("a", (2,)*pre+(n,), -9, 9); v = C.data("v", (2,)*pre, -9, 9) if pre else C.real("v", -9, 9)
        side = C.choice("side", ["left", "right"])
        r = u.search(a, v, side=side)
        for k in range(2 if pre else 1):
            ak, vk, rk = (a[k], v[k], r[k]) if pre else (a, v, r)
            want = sum([C.ite(ak[i] < vk, 1, 0) if side == "left" else C.ite(ak[i] <= vk, 1, 0) for i in range(n)])
            C.check(rk == want, "number of entries before")
    elif what == "medmean":
        n = C.pick("n", 1, C.q(4, 5)); frac = C.choice("frac", [0.5, 0.25, 0.0])
        a = C.data("a", (n,), -9, 9)
        r = u.medmean(a, frac=frac)
        s = sorted_(C, lst(a)); i = int(n*frac)//2
        C.eq(r, sum(s[i:n-i])*C.rat(1, n-2*i), "mean of the middle part")
    else:
        n = C.pick("n", 1, 3); pre = C.pick("pre", 0, 1) if n < 3 or C.tier != "quick" else int(what == "median"); ax = C.choice("ax", [-1, 0]) if pre and n == 2 else 0 if pre else -1
        x = C.data("x", (n,), -9, 9); w = C.idata("w", (n,), 1, C.q(2, 3))
        xa = x if not pre else (np.stack([x, x+1]) if ax == -1 else np.stack([x, x+1], -1))
        wa = w if not pre or ax == -1 else w[:, None]
        if what == "median": r = u.weighted_median(xa, wa, axis=ax); q = F(1, 2)
        else:
            q = C.choice("q", [F(1, 4), F(5, 8)])
            r = u.weighted_quantile(xa, wa, float(q), axis=ax)
        idx = list(range(n))
        # order by value
        for i in range(n):
            for j in range(n-1-i):
                if bool(x[idx[j]] > x[idx[j+1]]): idx[j], idx[j+1] = idx[j+1], idx[j]
        for i in range(1, n): C.assume(x[idx[i]] > x[idx[i-1]])
        ws = [I(w[i]) for i in idx]; tot = sum(ws)
        mid = [F(sum(ws[:i])*2+ws[i], 2*tot) for i in range(n)]
        if q <= mid[0]: want = x[idx[0]]
        elif q >= mid[-1]: want = x[idx[-1]]
        else:
            i = max(j for j in range(n) if mid[j] < q)
            t = (q-mid[i])/(mid[i+1]-mid[i])
            want = x[idx[i]]+(x[idx[i+1]]-x[idx[i]])*(t if C.sym else float(t))
        if pre:
            C.same(tuple(r.shape), (2,), "shape"); C.eq(r[0], want, "quantile"); C.eq(r[1], want+1, "quantile of the second")
        else: C.eq(r, want, "quantile")

def sorted_(C, s):
    s = list(s)
    for i in range(len(s)):
        for j in range(len(s)-1-i):
            if bool(s[j] > s[j+1]): s[j], s[j+1] = s[j+1], s[j]
    return s

@case(params=["product", "primes", "gcd", "ndigit"], budget=(40, 200), max_paths=(4000, 40000))
def numbers(C, what):
    """nearest_product, primes, gcd, lcm, ndigit"""
    u, np = C.px.utils, C.np
    if what == "product":
        fac = C.choice("fac", [[2, 3], [3, 2], [2, 3, 5, 7], [3, 5], [2], [7, 2]])
        d = C.choice("d", ["below", "above"])
        n = C.pick("n", min(fac), C.q(30, 60))
        r = u.nearest_product(n, fac, d)
        k = C.int("k", 1, 8*n)
        t = [p for p in range(2, 8*n) if smooth(p, fac)]
        ok = C.or_(*[k == p for p in t])
        C.check(int(r) in t and (r <= n if d == "below" else r >= n), "a product on the right side")
        C.check(C.implies(C.and_(ok, k <= n if d == "below" else k >= n), k <= r if d == "below" else k >= r), "none nearer")
    elif what == "primes":
        n = C.pick("n", 2, C.q(40, 120))
        f = [int(v) for v in u.primes(n)]
        t = 1
        for v in f: t *= v
        C.same((t, f), (n, sorted(f)), "product")
        d = C.int("d", 2, 12)
        for v in sorted(set(f)): C.check(C.implies(d < v, C.and_(*[C.implies(d == q, v % q != 0) for q in range(2, 13)])), "prime")
    elif what == "gcd":
        g, a, b = C.pick("g", 1, 4), C.pick("a", 1, 6), C.pick("b", 1, 6)
        x = C.int("x", 1, 30)
        r, l = u.gcd(g*a, g*b), u.lcm(g*a, g*b)
        C.check(C.implies(C.and_((g*a) % x == 0, (g*b) % x == 0) if not C.sym else C.and_(*[C.implies(x == q, g*a % q == 0 and g*b % q == 0) for q in range(1, 31)]), x <= r), "greatest")
        C.same((g*a % r, g*b % r, l % (g*a), l % (g*b), l*r), (0, 0, 0, 0, g*a*g*b), "common")
    else:
        n = C.choice("n", [0, 1, 5, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 123456])
        C.same(int(u.ndigit(n)), len(str(n)), "digits")
def smooth(p, fac):
    for f in fac:
        while p % f == 0: p //= f
    return p == 1

@case(params=["nditer", "count", "combi", "inds", "split"], budget=(30, 60))
def iterators(C, what):
    """nditer, count_variable_basis, list_combination_iter, without_inds, only_inds, listsplit"""
    u, np = C.px.utils, C.np
    if what == "nditer":
        nd = C.pick("nd", 0, 3); shape = tuple(C.picks("s", nd, 0, 2 if nd == 3 else 3))
        axes = C.choice("axes", [None]+[list(p) for r in range(nd+1) for p in itertools.permutations(range(nd), r)] if nd < 3 else [None, [0], [2, 0], [-1], [1, 2]])
        got = list(itertools.islice(u.nditer(shape, axes=axes), 40))
        ax = list(range(nd)) if axes is None else sorted(a % nd for a in axes)
        want = []
        for p in itertools.product(*[range(shape[a]) for a in ax]):
            t = [slice(None)]*nd
            for a, i in zip(ax, p): t[a] = i
            want.append(tuple(t))
        C.same(len(got), len(want), "number of indices")
        for g, w in zip(got, want): C.check(all((x == y) if not isinstance(y, slice) else isinstance(x, slice) for x, y in zip(g, w)) and len(g) == len(w), "index")
    elif what == "count":
        nb = C.pick("n", 1, 3); b = C.picks("b", nb, 1, 3)
        C.same([list(v) for v in u.count_variable_basis(b)], [list(p) for p in itertools.product(*[range(k) for k in b])], "every combination in order")
    elif what == "combi":
        b = C.picks("b", C.pick("n", 1, 3), 1, 2)
        ls = [C.data("l%d" % i, (k,)) for i, k in enumerate(b)]
        got = list(u.list_combination_iter(ls))
        want = list(itertools.product(*[lst(l) for l in ls]))
        C.same(len(got), len(want), "number")
        for g, w in zip(got, want):
            for x, y in zip(g, w): C.eq(x, y, "combination")
    elif what == "inds":
        n = C.pick("n", 1, 4); i = C.pick("i", -n, n-1); j = C.pick("j", -n, n-1)
        a = lst(C.data("a", (n,)))
        one = C.choice("one", [True, False])
        w, o = u.without_inds(a, i if one else [i, j]), u.only_inds(a, i if one else [i, j])
        s = [i] if one else [i, j]
        C.same(len(w), n-len(set(k % n for k in s)), "number left")
        for x, k in zip(w, [k for k in range(n) if k not in [q % n for q in s]]): C.eq(x, a[k], "left")
        C.same(len(o), len(s), "number kept")
        for x, k in zip(o, s): C.eq(x, a[k], "kept")
    else:
        n = C.pick("n", 0, 4); a = C.idata("a", (n,), 0, 2); e = C.int("e", 0, 2)
        s = lst(a)
        r = u.listsplit(s, e)
        k, parts = 0, [[]]
        for v in s:
            if bool(v == e): parts.append([])
            else: parts[-1].append(v)
        C.same([len(p) for p in r], [len(p) for p in parts], "lengths")
        for p, q in zip(r, parts):
            for x, y in zip(p, q): C.eq(x, y, "parts")
