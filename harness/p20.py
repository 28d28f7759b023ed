from .common import *
from .comm import World
import itertools
PRELOAD = ["utils", "wcsutils", "enmap", "tilemap", "multimap"]
BOUNDS = "tilings of maps of up to 5 x 5 pixels into tiles of 1-3 x 1-4 pixels (incomplete last tiles included), any order and choice of up to 4 active tiles, 0-2 leading dimensions, any contents; up to 3 tasks with any ownership of up to 4 tiles; multimaps of 1-3 maps of different shapes"
ASSUMPTIONS = ["an arithmetic operator between tile maps is only claimed to treat missing tiles as zero for + and -, or where the tile is active in the second operand; message passing is simulated, every task being run to its next communication in order of rank"]

TILINGS = [((3, 4), (2, 3)), ((4, 4), (2, 2)), ((2, 5), (3, 2)), ((5, 2), (2, 4))]
def wcsof(C, kind=""): return symwcs(C, kind, cd=(F(1, 8), 4), cp=10, cv=120, sx=-1, sy=1)

def boxes(shape, ts):
    """[(y1,y2,x1,x2)] of every tile in order"""
    ny, nx = shape[-2:]
    return [(y, min(y+ts[0], ny), x, min(x+ts[1], nx)) for y in range(0, ny, ts[0]) for x in range(0, nx, ts[1])]

def mk(C, tag, geo, full=None):
    """a tile map with unconstrained contents, and its tiles as {index: array}"""
    tm = C.px.tilemap; B = boxes(geo.shape, geo.tile_shape)
    n = sum((B[g][1]-B[g][0])*(B[g][3]-B[g][2]) for g in geo.active)
    d = C.data(tag, tuple(geo.pre)+(n,))
    t, o = {}, 0
    for g in geo.active:
        y1, y2, x1, x2 = B[g]; k = (y2-y1)*(x2-x1)
        t[int(g)] = C.np.array(d[..., o:o+k]).reshape(tuple(geo.pre)+(y2-y1, x2-x1)); o += k
    return tm.TileMap(d, geo), t

def same_tiles(C, m, want, label):
    """m's tiles are want {index: array}, None elsewhere"""
    C.same(sorted(int(g) for g in m.active), sorted(want), label+": active tiles")
    for g in range(m.ntile):
        if g in want: C.eq(m.tiles[g], want[g], label+": tile")
        else: C.check(m.tiles[g] is None, label+": inactive tile")

@case(params=TILINGS, budget=(30, 100))
def tiling(C, shape, ts):
    """the tiles partition the map, and each has its own place on the sky"""
    tm, e = C.px.tilemap, C.px.enmap
    w = wcsof(C); pre = C.choice("pre", [(), (2,)])
    B = boxes(shape, ts); n = len(B)
    act = C.choice("act", [[], [0], [n-1, 0], list(range(n))])
    g = tm.geometry(pre+shape, w, tile_shape=ts, active=act)
    C.same((g.ntile, g.nactive, tuple(g.pre), [int(a) for a in g.active]), (n, len(act), pre, act), "summary")
    tot = 0
    for i, (y1, y2, x1, x2) in enumerate(B):
        t = g.tiles[i]
        C.same(tuple(t.shape), pre+(y2-y1, x2-x1), "tile shape")
        C.same(tuple(int(v) for v in g.tile_shapes[i]), (y2-y1, x2-x1), "tile shapes"); C.same(int(g.npixs[i]), (y2-y1)*(x2-x1), "tile size")
        same_pos(C, t.wcs, 0, 0, w, y1, x1, "first pixel of a tile"); same_pos(C, t.wcs, y2-y1-1, x2-x1-1, w, y2-1, x2-1, "last pixel of a tile")
        ty, tx = g.ind2grid(i)
        C.same((int(ty), int(tx)), (y1//ts[0], x1//ts[1]), "grid position"); C.same(int(g.grid2ind(ty, tx)), i, "tile number")
        C.same(int(g.lookup[i]), act.index(i) if i in act else -1, "lookup")
        if i in act: tot += (y2-y1)*(x2-x1)
    C.same(int(g.size), tot*(2 if pre else 1), "number of values")
    if ts[0] == ts[1]: C.same(tm.geometry(pre+shape, w, tile_shape=ts[0]).ntile, n, "square tiles")
    new = C.choice("new", [[0], [n-1, 0], "all"])
    want = list(range(n)) if isinstance(new, str) else new
    h = g.copy(active=new)
    C.same([int(a) for a in h.active], want, "replaced active tiles"); C.same([int(a) for a in h.lookup], [want.index(i) if i in want else -1 for i in range(n)], "lookup of the copy")
    h = g.copy(add_active=new, pre=(4, 1))
    want = act+[i for i in want if i not in act]
    C.same(([int(a) for a in h.active], tuple(h.pre)), (want, (4, 1)), "added active tiles"); C.same([int(a) for a in h.lookup], [want.index(i) if i in want else -1 for i in range(n)], "lookup after adding")
    C.same([int(a) for a in g.active], act, "the original is unchanged")

@case(params=TILINGS, budget=(30, 100))
def access(C, shape, ts):
    """tiles are views of the stored pixels at the right place, in any order of active tiles"""
    tm, e, np = C.px.tilemap, C.px.enmap, C.np
    w = wcsof(C); pre = C.choice("pre", C.q([(), (2,)], [(), (2,), (1, 2)]))
    n = len(boxes(shape, ts)); B = boxes(shape, ts)
    act = C.choice("act", [[], [n-1, 0], [1, 0, n-1] if n > 2 else [1], list(range(n))])
    g = tm.geometry(pre+shape, w, tile_shape=ts, active=act)
    m, T = mk(C, "d", g)
    same_tiles(C, m, T, "tiles")
    C.same((len(m.tiles), len(m.active_tiles), m.ntile, m.nactive), (n, len(act), n, len(act)), "numbers of tiles")
    for a, g_ in enumerate(act):
        C.eq(m.active_tiles[a], T[g_], "active tile")
        y1, y2, x1, x2 = B[g_]
        same_pos(C, m.active_tiles[a].wcs, 0, 0, w, y1, x1, "place of a tile")
        C.eq(m.tiles[(g_, Ellipsis, slice(0, 1), slice(None))], T[g_][..., :1, :], "part of a tile")
    it = list(m.tiles); C.same(len(it), n, "all tiles visited")
    for i in range(n): C.eq(it[i], T[i], "iteration") if i in T else C.check(it[i] is None, "no tile")
    it = list(m.active_tiles); C.same(len(it), len(act), "active tiles visited")
    for a in range(len(act)): C.eq(it[a], T[act[a]], "iteration over active tiles")
    C.raises(IndexError, lambda: m.active_tiles[len(act)], "beyond the active tiles")
    full = tm.to_enmap(m)
    C.same(tuple(full.shape), pre+shape, "shape of the full map"); same_pos(C, full.wcs, 0, 0, w, 0, 0, "place of the full map")
    for i, (y1, y2, x1, x2) in enumerate(B): C.eq(full[..., y1:y2, x1:x2], T[i] if i in T else np.zeros(pre+(y2-y1, x2-x1)), "full map")
    if act:
        back = tm.from_tiles([full[..., y1:y2, x1:x2] if i in T else None for i, (y1, y2, x1, x2) in enumerate(B)], tm.geometry((7,)+shape, w, tile_shape=ts, active=[0]))
        same_tiles(C, back, T, "from tiles"); C.same(tuple(back.pre), pre, "leading dimensions of the tiles")
        back = tm.from_active_tiles([T[i] for i in act], g); same_tiles(C, back, T, "from active tiles"); C.eq(back, m, "same storage order")
        C.raises(ValueError, lambda: tm.from_active_tiles([T[i] for i in act]+[T[act[0]]], g), "wrong number of tiles")
        if pre:
            s = m[0]; same_tiles(C, s, {i: T[i][0] for i in T}, "one component"); C.same(tuple(s.geometry.shape), pre[1:]+shape, "logical shape of a component")
            s = m[..., 1:2, :] ; C.same(tuple(m.geometry.shape), pre+shape, "slicing leaves the geometry alone")
            same_tiles(C, m[..., ::-1, :][..., ::-1, :], T, "reversed twice")
        c = m.copy(); i = act[-1]
        val = C.real("val", -9, 9); old = np.array(T[i])
        how = C.choice("how", ["tile", "active", "pixel", "array"])
        if how == "tile": c.tiles[i] = val; T[i] = T[i]*0+val
        elif how == "active": c.active_tiles[len(act)-1] = val; T[i] = T[i]*0+val
        elif how == "array": c.tiles[i] = T[i]*2; T[i] = T[i]*2
        else: c.tiles[(i, Ellipsis, 0, 0)] = val; T[i][..., 0, 0] = val
        same_tiles(C, c, T, "after assignment")
        C.eq(m.tiles[i], old, "a copy is independent")
        m.tiles[i][...] = 5; C.eq(m.tiles[i], old*0+5, "a tile is a view")
    off = [i for i in range(n) if i not in T]
    if off:
        def f(): m.tiles[off[0]] = 3
        C.raises(IndexError, f, "assignment to an inactive tile")
    for make, v in ((tm.zeros, 0), (lambda g: tm.full(g, 7), 7)):
        z = make(g); C.same((tuple(z.shape), [int(a) for a in z.active]), (tuple(m.shape), act), "constructed"); C.eq(z, np.zeros(m.shape)+v, "constructed value")

OPS = ["add", "sub", "mul", "truediv", "lt"]
def app(op, a, b): return {"add": lambda: a+b, "sub": lambda: a-b, "mul": lambda: a*b, "truediv": lambda: a/b, "lt": lambda: a < b}[op]()
ACT = [([0, 2], [0, 2]), ([0, 2], [2, 0]), ([0, 2], [1]), ([2], [0, 1, 2]), ([3, 0, 1], [1, 3]), ([], [1, 0]), ([1], [])]
@case(params=[(o, a) for o in ("add", "sub", "mul", "truediv") for a in range(len(ACT))], budget=(30, 100))
def arith(C, op, act):
    """arithmetic acts tile by tile, by tile number rather than by storage order; missing tiles are zero"""
    tm, np = C.px.tilemap, C.np
    shape, ts = (3, 4), (2, 3)
    A, Bc = ACT[act]
    w = wcsof(C); pre = C.choice("pre", [((), ()), ((2,), (2,)), ((2,), ()), ((1,), (2,))])
    a, TA = mk(C, "a", tm.geometry(pre[0]+shape, w, tile_shape=ts, active=A)); b, TB = mk(C, "b", tm.geometry(pre[1]+shape, w, tile_shape=ts, active=Bc))
    if op == "truediv":
        for v in np.asarray(b).reshape(-1): C.assume(v >= 1)
        C.feasible()
    a0, b0 = np.array(a), np.array(b)
    r = app(op, a, b)
    opre = pre[1] if pre[1] == (2,) else pre[0]
    C.same((tuple(r.pre), tuple(r.geometry.shape), isinstance(r, tm.TileMap)), (opre, opre+shape, True), "result geometry")
    C.same(sorted(int(v) for v in r.active), sorted(set(A) | set(Bc)), "union of the active tiles")
    for g in set(A) | set(Bc):
        if g not in TB:
            if op in ("add", "sub"): C.eq(r.tiles[g], TA[g]+np.zeros(opre+TA[g].shape[-2:]), "tile of the first only")
        elif g in TA: C.eq(r.tiles[g], app(op, TA[g], TB[g]), "tile of both")
        else: C.eq(r.tiles[g], app(op, np.zeros(pre[0]+TB[g].shape[-2:]), TB[g]), "tile of the second only")
    C.eq(a, a0, "first operand unchanged"); C.eq(b, b0, "second operand unchanged")
    s = C.real("s", 1, 5)
    q = app(op, a, s); same_tiles(C, q, {g: app(op, TA[g], s) for g in TA}, "with a number")
    if op == "add": same_tiles(C, 2*a, {g: 2*TA[g] for g in TA}, "number first"); same_tiles(C, -a, {g: -TA[g] for g in TA}, "minus")

@case(params=["add", "sub", "mul"], budget=(30, 100))
def inplace(C, op):
    """in-place arithmetic changes the first operand's own tiles only"""
    tm, np = C.px.tilemap, C.np
    shape, ts = (3, 4), (2, 3)
    A, Bc = C.choice("act", ACT)
    w = wcsof(C); pre = C.choice("pre", [((), ()), ((2,), (2,)), ((2,), ())])
    a, TA = mk(C, "a", tm.geometry(pre[0]+shape, w, tile_shape=ts, active=A)); b, TB = mk(C, "b", tm.geometry(pre[1]+shape, w, tile_shape=ts, active=Bc))
    def go():
        r = a
        if op == "add": r += b
        elif op == "sub": r -= b
        else: r *= b
        return r
    if set(Bc)-set(A): C.raises(ValueError, go, "no room for the tiles of the second"); return
    r = go()
    for m in (r, a):
        C.same([int(v) for v in m.active], A, "active tiles stay")
        for g in A: C.eq(m.tiles[g], app(op, TA[g], TB[g]) if g in TB else TA[g], "tile")
    for g in Bc: C.eq(b.tiles[g], TB[g], "second operand unchanged")

@case(params=[False, True], budget=(30, 100))
def with_tiles(C, strict):
    """with_tiles: same data, the other's tiles"""
    tm, np = C.px.tilemap, C.np
    shape, ts = (3, 4), (2, 3)
    A, Bc = C.choice("act", ACT); w = wcsof(C); pre = C.choice("pre", [(), (2,)])
    a, TA = mk(C, "a", tm.geometry(pre+shape, w, tile_shape=ts, active=A))
    b = tm.zeros(tm.geometry(shape, w, tile_shape=ts, active=Bc))
    r = a.with_tiles(b if C.choice("how", ["map", "list"]) == "map" else Bc, strict=strict)
    want = Bc if strict else A+[g for g in Bc if g not in A]
    C.same([int(g) for g in r.active], want, "active tiles")
    Z = boxes(shape, ts)
    same_tiles(C, r, {g: TA[g] if g in TA else np.zeros(pre+(Z[g][1]-Z[g][0], Z[g][3]-Z[g][2])) for g in want}, "tiles")
    if A:
        r[...] = 1
        C.eq(a.tiles[A[0]], TA[A[0]], "independent of the original")

@case(budget=(30, 100))
def tools(C):
    """insert, map_mul, samegeo, compatible"""
    tm, np = C.px.tilemap, C.np
    shape, ts = (3, 4), (2, 3); w = wcsof(C)
    A, Bc = C.choice("act", ACT)
    ga, gb = tm.geometry(shape, w, tile_shape=ts, active=A), tm.geometry(shape, w, tile_shape=ts, active=Bc)
    a, TA = mk(C, "a", ga); b, TB = mk(C, "b", gb)
    r = a.insert(b) if C.choice("meth", [True, False]) else tm.insert(a, b)
    same_tiles(C, r, {g: TB[g] if g in TB else TA[g] for g in set(A) | set(Bc)}, "inserted")
    same_tiles(C, tm.insert(a, b, op=lambda x, y: x+2*y), {g: TA.get(g, 0)+2*TB[g] if g in TB else TA[g] for g in set(A) | set(Bc)}, "inserted with an operation")
    for g in A: C.eq(a.tiles[g], TA[g], "insert leaves its input alone")
    C.same(ga.compatible(gb), 2 if A == Bc else 1, "compatible"); C.same(ga.compatible(ga.copy()), 2, "compatible with itself")
    C.same(ga.compatible(tm.geometry(shape, w, tile_shape=(2, 2), active=A)), 0, "other tiles"); C.same(ga.compatible(tm.geometry((3, 5), w, tile_shape=ts, active=A)), 0, "other map")
    if A:
        M, TM = mk(C, "m", tm.geometry((2, 2)+shape, w, tile_shape=ts, active=A)); v, TV = mk(C, "v", tm.geometry((2,)+shape, w, tile_shape=ts, active=A))
        same_tiles(C, tm.map_mul(M, v), {g: [[M_[0]*x[0]+M_[1]*x[1] for M_ in TM[g]] for x in [TV[g]]][0] and np.array([TM[g][i, 0]*TV[g][0]+TM[g][i, 1]*TV[g][1] for i in range(2)]) for g in A}, "matrix times vector")
        same_tiles(C, tm.samegeo(np.asarray(v)[0], None, a), {g: TV[g][0] for g in A}, "same geometry")

@case(params=[(n, k) for n in (1, 2, 3) for k in ("auto", "active", "omap", "reduce")], budget=(40, 200), max_paths=(400, 4000))
def spread(C, nt, kind):
    """redistribute and reduce: every tile is the sum over the tasks that had it, wherever it is wanted"""
    tm, np = C.px.tilemap, C.np
    shape, ts = (3, 4), (2, 3); w = wcsof(C); pre = C.choice("pre", C.q([(2,)], [(), (2,), (1, 2)]))
    OWN = {1: [[[0, 2]], [[3, 1, 0]], [[]]], 2: [[[0, 2], [2, 1]], [[], [3, 0]], [[1, 0, 3], [0, 1]]], 3: [[[0, 2], [2], [2, 3]], [[], [1], []]]}[nt]
    own = C.choice("own", OWN)
    maps = [mk(C, "t%d_" % r, tm.geometry(pre+shape, w, tile_shape=ts, active=own[r])) for r in range(nt)]
    tot = {}
    for _, T in maps:
        for g in T: tot[g] = tot[g]+T[g] if g in tot else T[g]
    Z = boxes(shape, ts); zero = lambda g: np.zeros(pre+(Z[g][1]-Z[g][0], Z[g][3]-Z[g][2]))
    allt = sorted(tot)
    if kind == "auto":
        res = World(nt).run(lambda comm: tm.redistribute(maps[comm.rank][0], comm))
        got = [int(g) for r in res for g in r.active]
        C.same(sorted(got), allt, "every tile is owned exactly once")
        for r in res: same_tiles(C, r, {int(g): tot[int(g)] for g in r.active}, "tiles")
    elif kind in ("active", "omap"):
        want = C.choice("want", {1: [[[2, 0]], [[1]]], 2: [[[2, 0, 1], [2]], [[], [3]]], 3: [[[2], [], [0, 2]], [[3], [1, 3], [3]]]}[nt])
        if kind == "active": res = World(nt).run(lambda comm: tm.redistribute(maps[comm.rank][0], comm, active=want[comm.rank]))
        else:
            om = [tm.full(tm.geometry(pre+shape, w, tile_shape=ts, active=want[r]), 9) for r in range(nt)]
            res = World(nt).run(lambda comm: tm.redistribute(maps[comm.rank][0], comm, omap=om[comm.rank]))
            for r in range(nt): C.eq(om[r], res[r], "omap is filled")
        for r in range(nt): C.same([int(g) for g in res[r].active], want[r], "requested tiles"); same_tiles(C, res[r], {g: tot.get(g, zero(g)) if g in tot else zero(g) for g in want[r]}, "tiles")
    else:
        root = C.choice("root", list(range(nt)))
        res = World(nt).run(lambda comm: tm.reduce(maps[comm.rank][0], comm, root=root) if root or C.tier == "quick" else tm.reduce(maps[comm.rank][0], comm))
        for r in range(nt): same_tiles(C, res[r], tot if r == root else {}, "reduced")
        act = World(nt).run(lambda comm: tm.get_active_distributed(maps[comm.rank][0], comm))
        for a in act: C.same([int(g) for g in a], allt, "tiles owned by anybody")
    for r in range(nt): same_tiles(C, maps[r][0], maps[r][1], "input")

GEOS = [[(2, 2)], [(1, 2), (2, 3)], [(2, 1), (1, 1), (1, 3)]]
def mmaps(C, pre, shapes, cplx=False):
    e = C.px.enmap
    ws = [C.wcs("CAR", [C.real("cv%d" % i, -60, 60), 0], [-1-F(i, 2), 1+F(i, 4)], [C.real("cx%d" % i, -5, 5), 2]) for i in range(len(shapes))]
    return [e.ndmap(C.data("m%d" % i, pre+s, cplx=cplx), w) for i, (s, w) in enumerate(zip(shapes, ws))]

@case(params=GEOS, budget=(30, 100))
def multi(C, shapes):
    """a multimap holds all its maps, each with its own geometry"""
    mm, e, np = C.px.multimap, C.px.enmap, C.np
    pre = C.choice("pre", C.q([(), (2,)], [(), (2,), (1, 2)]))
    maps = mmaps(C, pre, shapes); M = mm.multimap(maps); n = len(shapes)
    C.same((M.nmap, int(M.ntot), tuple(M.pre), [int(v) for v in M.npixs], tuple(M.shape)), (n, sum(a*b for a, b in shapes), pre, [a*b for a, b in shapes], pre+(sum(a*b for a, b in shapes),)), "summary")
    def like(R, want, label):
        C.same((len(R.maps), isinstance(R, mm.ndmaps)), (n, True), label+": number of maps")
        for i in range(n):
            C.eq(R.maps[i], want[i], label); same_pos(C, R.maps[i].wcs, 0, 0, maps[i].wcs, 0, 0, label+": place"); same_pos(C, R.maps[i].wcs, 1, 1, maps[i].wcs, 1, 1, label+": pixels")
    like(M, maps, "maps")
    like(M*2+1, [m*2+1 for m in maps], "arithmetic"); like(M-M*3, [m*-2 for m in maps], "difference")
    C.eq(M.maps[n-1, ..., 0], maps[n-1][..., 0], "part of a map")
    if pre: like(M[0], [m[0] for m in maps], "one component")
    R = M.copy(); v = C.real("v", -9, 9)
    how = C.choice("how", ["map", "pixel"])
    if how == "map": R.maps[n-1] = v
    else: R.maps[n-1, ..., 0, 0] = v
    want = [np.array(m) for m in maps]
    if how == "map": want[n-1][...] = v
    else: want[n-1][..., 0, 0] = v
    like(R, want, "assigned"); like(M, maps, "the original")
    geos = [m.geometry for m in maps]
    like(mm.zeros(geos), [m*0 for m in maps], "zeros"); like(mm.full(geos, v), [m*0+v for m in maps], "full")
    vals = [C.real("v%d" % i, -9, 9) for i in range(n)]
    like(mm.full(geos, C.arr(vals), dtype=float), [m*0+x for m, x in zip(maps, vals)], "full with a value per map")
    if pre == (2,):
        vv = C.data("vv", (2, n)); like(mm.full(geos, vv, dtype=float), [m*0+vv[:, i, None, None] for i, m in enumerate(maps)], "full with a value per map and component")
    like(mm.samegeos(np.asarray(M)*2, None, M), [m*2 for m in maps], "same geometries")
    if n > 1: C.raises(ValueError, lambda: mm.multimap([maps[0], e.ndmap(np.zeros((3,)+pre+(1, 1)), maps[1].wcs)]), "different leading dimensions")

@case(params=GEOS, budget=(30, 100))
def mtools(C, shapes):
    """statistics, coordinates and products of every map"""
    mm, e, np = C.px.multimap, C.px.enmap, C.np
    n = len(shapes); maps = mmaps(C, (2,), shapes); M = mm.multimap(maps)
    what = C.choice("what", ["stats", "coords", "mul", "rot"])
    def like(R, want, label):
        C.same(len(R.maps), n, label+": number of maps")
        for i in range(n): C.eq(R.maps[i], want[i], label); same_pos(C, R.maps[i].wcs, 0, 0, maps[i].wcs, 0, 0, label+": place")
    if what == "stats":
        fl = [np.array(m).reshape(2, -1) for m in maps]
        for i in range(n):
            k = fl[i].shape[1]
            for c in range(2):
                x = [fl[i][c, j] for j in range(k)]
                mu = sum(x)/k
                C.eq(mm.mean(M)[i, c], mu, "mean"); C.eq(mm.var(M)[i, c]*k, sum((v-mu)*(v-mu) for v in x), "variance")
                if c == 0 and k < 4:
                    a, b = mm.max(M)[i, c], mm.min(M)[i, c]
                    C.check(C.and_(C.or_(*[a == v for v in x]), *[a >= v for v in x]), "max"); C.check(C.and_(C.or_(*[b == v for v in x]), *[b <= v for v in x]), "min")
    elif what == "coords":
        P = [(m.shape, m.wcs) for m in maps]
        geos = [m.geometry for m in maps]
        like(M.posmap(), [e.posmap(*p) for p in P], "positions"); like(mm.posmap(geos, corner=True), [e.posmap(*p, corner=True) for p in P], "corner positions")
        like(M.posmap(corner=True), [e.posmap(*p, corner=True) for p in P], "corner positions")
        like(M.pixmap(), [e.pixmap(*p) for p in P], "pixels"); like(mm.pixmap(geos), [e.pixmap(*p) for p in P], "pixels")
        like(M.lmap(), [e.lmap(*p) for p in P], "multipoles"); like(mm.lmap(geos), [e.lmap(*p) for p in P], "multipoles")
        like(mm.pixsizemap(geos), [e.pixsizemap(*p) for p in P], "pixel areas")
        C.eq(M.pixsize(), C.arr([e.pixsize(*p) for p in P]), "mean pixel area"); C.eq(mm.pixsize(geos), C.arr([e.pixsize(*p) for p in P]), "mean pixel area")
    elif what == "mul":
        A = mmaps2(C, (2, 2), shapes, maps); 
        like(mm.map_mul(mm.multimap(A), M), [np.array([a[i, 0]*m[0]+a[i, 1]*m[1] for i in range(2)]) for a, m in zip(A, maps)], "matrix times vector")
        s = C.real("s", -3, 3); like(mm.map_mul(s, M), [m*s for m in maps], "number times vector")
    else:
        ang = C.real("ang", -3, 3); c, s = np.cos(2*ang), np.sin(2*ang)
        like(mm.rotate_pol(M, ang), [np.array([c*m[0]-s*m[1], s*m[0]+c*m[1]]) for m in maps], "rotated polarization")
        like(M, maps, "the input")

def mmaps2(C, pre, shapes, maps): return [C.px.enmap.ndmap(C.data("A%d" % i, pre+s), m.wcs) for i, (s, m) in enumerate(zip(shapes, maps))]

@case(params=GEOS, budget=(40, 100))
def mfourier(C, shapes):
    """the transforms of a multimap are those of its maps, and invert each other"""
    mm, e, np = C.px.multimap, C.px.enmap, C.np
    n = len(shapes); pre = C.choice("pre", [(), (2,)]); maps = mmaps(C, pre, shapes); M = mm.multimap(maps)
    def like(R, want, label):
        C.same(len(R.maps), n, label+": number of maps")
        for i in range(n): C.eq(R.maps[i], want[i], label, tol=1e-9); same_pos(C, R.maps[i].wcs, 0, 0, maps[i].wcs, 0, 0, label+": place")
    nrm = C.choice("norm", [True, False, "phys"])
    f = mm.fft(M, normalize=nrm)
    like(f, [e.fft(m, normalize=nrm) for m in maps], "fft")
    like(mm.ifft(f, normalize=nrm), [e.ifft(e.fft(m, normalize=nrm), normalize=nrm) for m in maps], "ifft")
    if nrm is True:
        like(mm.ifft(f), [np.array(m)+0j for m in maps], "inverse")
        like(mm.fft_adjoint(f), [e.fft_adjoint(e.fft(m)) for m in maps], "adjoint of fft"); like(mm.ifft_adjoint(f), [e.ifft_adjoint(e.fft(m)) for m in maps], "adjoint of ifft")
    like(M, maps, "the input")

@case(params=GEOS, budget=(40, 100))
def mfiles(C, shapes):
    """write_map and read_map give back all the maps, and the same part of each with sel"""
    mm, e, np = C.px.multimap, C.px.enmap, C.np
    n = len(shapes); pre = C.choice("pre", [(), (2,)]); maps = mmaps(C, pre, shapes); M = mm.multimap(maps)
    f = C.file("mm.fits")
    mm.write_map(f, M)
    R = mm.read_map(f)
    C.same((R.nmap, tuple(R.pre)), (n, pre), "number of maps")
    for i in range(n):
        C.eq(R.maps[i], maps[i], "map"); same_pos(C, R.maps[i].wcs, 0, 0, maps[i].wcs, 0, 0, "place"); same_pos(C, R.maps[i].wcs, 1, 1, maps[i].wcs, 1, 1, "pixels")
        C.eq(e.read_map(f, hdu=i), maps[i], "read individually")
    sel = (Ellipsis, slice(0, 1), slice(None, None, -1))
    R = mm.read_map(f, sel=sel)
    for i in range(n): C.eq(R.maps[i], maps[i][sel], "part of each map")
    C.eq(M.maps[0], maps[0], "the input")
