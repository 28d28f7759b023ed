"""Symbolic scalars (Sym) over z3 and the path-exploring engine.

A Sym is a real- or integer-valued Laurent polynomial with exact rational
coefficients over *atoms*.  Atoms are z3 terms: the harness' input variables,
floor/ite/sqrt/trig terms made on the way, and so on.  The normal form is only
term rewriting (it makes x*c/c the same object as x); every feasibility and
every property question is put to z3.
"""
import sys, math, time, itertools, operator
from fractions import Fraction
import numpy as _np
import z3

import os
DEBUG = bool(os.environ.get("SYMX_DEBUG"))
PI = Fraction(math.pi)           # "pi" is this one rational, everywhere


class Unsupported(Exception):
    """The encoding cannot follow this step."""


class Infeasible(Exception):
    """This path's assumptions are contradictory."""


class Inconclusive(Exception):
    pass


# ---------------------------------------------------------------- literals

_snap_cache = {}

def snap(f):
    """Read a float constant as the exact number it stands for: a short decimal,
    a simple rational, or a simple rational multiple of pi or 1/pi."""
    f = float(f)
    r = _snap_cache.get(f)
    if r is not None: return r
    if f != f or f in (math.inf, -math.inf):
        raise Unsupported("non-finite constant %r met a symbolic value" % f)
    if f == int(f) and abs(f) < 2**60:
        r = Fraction(int(f))
    else:
        r = None
        s = repr(f)
        if len(s.split("e")[0].replace("-", "").replace(".", "").strip("0")) <= 12:
            r = Fraction(s)
        else:
            for conv, back in ((lambda x: x, lambda q: q),
                               (lambda x: x/math.pi, lambda q: q*PI),
                               (lambda x: x*math.pi, lambda q: q/PI)):
                q = Fraction(conv(f)).limit_denominator(200000)
                if q != 0 and abs(float(back(q)) - f) <= 8e-16*abs(f):
                    r = back(q); break
            if r is None: r = Fraction(f)
    if len(_snap_cache) < 100000: _snap_cache[f] = r
    return r


def is_sym(x): return isinstance(x, Sym)
def is_symbool(x): return isinstance(x, SymBool)
def is_symb(x): return isinstance(x, (Sym, SymBool, SymComplex))


# ---------------------------------------------------------------- atoms

class Atom:
    __slots__ = ("id", "z", "isint", "name", "deps", "cons", "ev", "rng")
    def __init__(self, id, z, isint, name, cons=(), ev=None):
        self.id, self.z, self.isint, self.name = id, z, isint, name
        self.cons = cons
        self.ev = ev
        self.rng = None     # () -> (lo,hi), for derived terms


class Engine:
    """One symbolic execution campaign over one harness case."""
    cur = None

    def __init__(self, max_paths=2000, feas_ms=2000, check_ms=20000, deadline=None, pi_exact=True, seed=0):
        self.max_paths, self.feas_ms, self.check_ms = max_paths, feas_ms, check_ms
        self.deadline = deadline
        self.seed = seed
        self.atoms = []
        self.atom_by_key = {}
        self.stats = dict(paths=0, infeasible=0, feas_queries=0, checks=0, unsat=0, sat=0, unknown=0,
                          solver_s=0.0, truncated=0, forks=0, unsupported=0, exceptions=0, max_concretize=0)
        self.inputs = {}
        self.cexs = []
        self.witnesses = []
        self.unsupported_msgs = []
        self.inconclusive = []
        self.nfresh = 0
        self.ncex = {}
        self.failed_witnesses = []
        self.uf_args = {}
        self.ite_args = {}
        self.invs = {}
        import random
        self.rnd = random.Random(seed)
        self.sq = {}            # atom -> polynomial its square equals

    # -- atoms
    def atom(self, key, mk, isint, name, cons=None, ev=None):
        a = self.atom_by_key.get(key)
        if a is None:
            z = mk()
            a = Atom(len(self.atoms), z, isint, name, ev=ev)
            self.atoms.append(a)
            self.atom_by_key[key] = a
            if cons is not None: a.cons = tuple(cons(z))
        if a.cons and self.active:
            if a.id not in self.consd:
                self.consd.add(a.id)
                for c in a.cons: self.solver.add(c)
        return a

    # -- interval reasoning: bounds of the inputs declared on this path, and of terms built from them
    bnd = {}
    def atom_range(self, i):
        r = self.bnd.get(i, 0)
        if r == 0:
            a = self.atoms[i]
            r = a.rng() if a.rng else None
            self.bnd[i] = r
        return r
    def range(self, p):
        """interval of a polynomial, or None"""
        lo = hi = Fraction(0)
        for m, c in p.items():
            a = b = c
            for k, x in m:
                r = self.atom_range(k)
                if r is None: return None
                if x < 0:
                    if r[0] <= 0 <= r[1]: return None
                    r = (1/r[1], 1/r[0]); x = -x
                l, h = r
                if x > 1:
                    q = (l**x, h**x)
                    l, h = min(q), max(q)
                    if x % 2 == 0 and r[0] <= 0 <= r[1]: l = Fraction(0)
                q = (a*l, a*h, b*l, b*h)
                a, b = min(q), max(q)
            lo += a; hi += b
        return lo, hi

    def var(self, name, isint):
        key = ("var", name)
        mk = (lambda: z3.Int(name)) if isint else (lambda: z3.Real(name))
        a = self.atom(key, mk, isint, name)
        return Sym({((a.id, 1),): Fraction(1)}, isint)

    # -- path control
    active = False

    def start(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_ms)
        self.solver.set("random_seed", self.seed & 0xffff)
        self.consd = set()
        self.bnd = {}
        self.active = True
        self.path_asserted = []

    def _check(self, *extra, ms=None):
        t = time.time()
        if self.deadline and t > self.deadline: raise Inconclusive("time budget")
        self.solver.set("timeout", int(ms or self.feas_ms))
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.time()-t
        return r

    def assume(self, c):
        if isinstance(c, (bool, _np.bool_)):
            if not c: raise Infeasible()
            return
        z = tobool(c)
        self.solver.add(z)
        if isinstance(c, SymBool) and c.lin: self.narrow(c.lin, True)

    def narrow(self, lin, val):
        """a condition a*x+b op 0 that holds (or not) on this path narrows the interval of x"""
        p, op = lin
        if not val: op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
        if op == "!=": return
        vs = [m for m in p if m != ()]
        if len(vs) != 1 or len(vs[0]) != 1 or vs[0][0][1] != 1: return
        k, a, b = vs[0][0][0], p[vs[0]], p.get((), Fraction(0))
        x = -b/a
        if a < 0: op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}[op]
        r = self.atom_range(k)
        if r is None:
            if op != "==": return
            r = (x, x)
        lo, hi = r
        if op in ("<", "<=", "=="): hi = min(hi, x)
        if op in (">", ">=", "=="): lo = max(lo, x)
        if self.atoms[k].isint: lo, hi = Fraction(math.ceil(lo)), Fraction(math.floor(hi))
        if lo <= hi: self.bnd[k] = (lo, hi)

    def assume_nn(self, a):
        """a is non-negative by construction: say so to the solver"""
        k = ("nn", a.key())
        if k not in self.consd:
            self.consd.add(k); self.solver.add(a.rz() >= 0)

    def assume_check(self):
        self.stats["feas_queries"] += 1
        if self._check() == z3.unsat: raise Infeasible()

    def branch(self, z):
        """z: z3 Bool. Decide it on this path."""
        if z3.is_true(z): return True
        if z3.is_false(z): return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.solver.add(z if d else z3.Not(z))
            return d
        self.stats["feas_queries"] += 2
        rt = self._check(z)
        if rt == z3.unsat:
            d, both = False, False
        else:
            rf = self._check(z3.Not(z))
            if rf == z3.unsat: d, both = True, False
            else: d, both = True, True
        if both:
            self.stats["forks"] += 1
            self.pending.append(self.trace + [not d])
        self.trace.append(d)
        self.solver.add(z if d else z3.Not(z))
        return d

    def split(self, s, lo, hi):
        """one path per value lo..hi of the input s (no solver call; infeasible ones die later)"""
        z = s.z3()
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i][1]
        else:
            v = lo
            for o in range(hi, lo, -1): self.pending.append(self.trace+[("v", o)])
            self.stats["forks"] += hi-lo
        self.trace.append(("v", v))
        self.solver.add(z == v)
        return v

    def concretize(self, s):
        """Pick a concrete integer for s on this path, forking over all the others."""
        if s.isconst(): 
            c = s.const()
            return int(c)
        n = 0
        z = s.z3()
        while True:
            # values are recorded in the trace as ("v", value) decisions
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                self.trace.append(d)
                kind, v = d
                if kind == "v":
                    self.solver.add(z == v); return v
                else:
                    self.solver.add(z != v)
                    n += 1
                    continue
            self.stats["feas_queries"] += 1
            r = self._check(ms=max(self.feas_ms, 5000))
            if r == z3.unsat: raise Infeasible()
            if r != z3.sat: raise Unsupported("cannot enumerate the values of an index term")
            m = self.solver.model()
            v = m.eval(z, model_completion=True)
            if z3.is_int_value(v): v = v.as_long()
            elif z3.is_rational_value(v):
                if v.denominator_as_long() != 1: raise Unsupported("non-integer index")
                v = v.numerator_as_long()
            else: raise Unsupported("index value %s" % v)
            self.stats["feas_queries"] += 1
            if self._check(z != v) != z3.unsat:
                self.pending.append(self.trace + [("n", v)])
                self.stats["forks"] += 1
            self.trace.append(("v", v))
            self.solver.add(z == v)
            n += 1
            self.stats["max_concretize"] = max(self.stats["max_concretize"], n)
            if n > 400: raise Unsupported("index term with too many values")
            return v

    def model_inputs(self, m):
        out = {}
        for name, (kind, sym, default, lo, hi, isint) in self.inputs.items():
            z = sym.z3()
            v = m.eval(z, model_completion=False)
            if z3.is_int_value(v): v = v.as_long()
            elif z3.is_rational_value(v): v = Fraction(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                a = v.approx(40)
                v = Fraction(a.numerator_as_long(), a.denominator_as_long())
            else: v = default
            out[name] = v
        return out

    def prove(self, z, label, info=None):
        """z must hold on this path."""
        self.stats["checks"] += 1
        if isinstance(z, (bool, _np.bool_)): z = z3.BoolVal(bool(z))
        if z3.is_true(z):
            # decided by the term normal form
            self.stats["unsat"] += 1; self.stats["by_rewriting"] = self.stats.get("by_rewriting", 0)+1
            return True
        self.solver.push()
        self.solver.add(z3.Not(z))
        r = self._check(ms=self.check_ms)
        if r == z3.unsat:
            self.stats["unsat"] += 1
            self.solver.pop()
            return True
        if r == z3.sat:
            self.stats["sat"] += 1
            self.add_cex(label, info, self.solver.model())
            self.solver.pop()
            return False
        self.solver.pop()
        # second opinion with a fresh solver (nlsat tactic)
        try:
            s2 = z3.Then("simplify", "purify-arith", "solve-eqs", "smt").solver()
            s2.set("timeout", int(self.check_ms))
            for a in self.solver.assertions(): s2.add(a)
            s2.add(z3.Not(z))
            r = s2.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            self.stats["unsat"] += 1; return True
        if r == z3.sat:
            self.stats["sat"] += 1
            self.cexs.append((label, self.model_inputs(s2.model()), info)); return False
        self.stats["unknown"] += 1
        self.inconclusive.append(label)
        return None

    def add_cex(self, label, info, model):
        """the solver is still in the scope of the failed query"""
        self.ncex[label] = self.ncex.get(label, 0)+1
        if self.ncex[label] > 4: return
        self.cexs.append((label, self.model_inputs(model), info))
        for inp in self.diverse(2, tries=3): self.cexs.append((label, inp, info))

    def diverse(self, n, tries=8):
        """other models of the solver's current state: inputs are nudged to random values where possible"""
        out = []
        for _ in range(n):
            self.solver.push()
            try:
                names = list(self.inputs)
                self.rnd.shuffle(names)
                got = 0
                for nm in names[:tries]:
                    kind, sym, default, lo, hi, isint = self.inputs[nm]
                    if isint: v = self.rnd.randint(int(lo), int(hi))
                    else:
                        a, b = float(lo if lo is not None else -10), float(hi if hi is not None else 10)
                        v = Fraction(round((a+(b-a)*self.rnd.random())*64), 64)
                    self.solver.push()
                    self.solver.add(sym.z3() == (z3.IntVal(v) if isint else z3.RealVal(v)))
                    self.stats["feas_queries"] += 1
                    if self._check(ms=500) != z3.sat: self.solver.pop()
                    else: got += 1
                if self._check(ms=2000) == z3.sat: out.append(self.model_inputs(self.solver.model()))
                for _ in range(got): self.solver.pop()
            except (Inconclusive, z3.Z3Exception): 
                try: 
                    while self.solver.num_scopes() > 1: self.solver.pop()
                except z3.Z3Exception: pass
                return out
            self.solver.pop()
        return out

    def explore(self, fn, max_cex=40, keep_witness=6):
        """Run fn() along every feasible path."""
        self.pending = [[]]
        Engine.cur = self
        try:
            while self.pending:
                if self.stats["paths"] >= self.max_paths or len(self.cexs) >= max_cex or \
                        (self.deadline and time.time() > self.deadline):
                    self.stats["truncated"] += len(self.pending)
                    break
                prefix = self.pending.pop()
                self.start(prefix)
                try:
                    fn()
                    # a path whose assumptions contradict each other proves nothing
                    self.stats["feas_queries"] += 1
                    r = self._check(ms=5000)
                    if r == z3.unsat: self.stats["infeasible"] += 1
                    else: self.stats["paths"] += 1
                    if r == z3.sat:
                        self.stats["nonvacuous"] = self.stats.get("nonvacuous", 0)+1
                        n = self.stats["nonvacuous"]
                        if len(self.witnesses) < keep_witness or (n & (n-1)) == 0 and len(self.witnesses) < 3*keep_witness:
                            self.witnesses.append(self.model_inputs(self.solver.model()))
                except Infeasible:
                    self.stats["infeasible"] += 1
                except Unsupported as e:
                    if DEBUG: import traceback; traceback.print_exc()
                    self.stats["unsupported"] += 1
                    self.unsupported_msgs.append(str(e)[:300])
                    self._witness_of_failed()
                except Inconclusive as e:
                    self.inconclusive.append(str(e))
                except z3.Z3Exception as e:
                    self.stats["unsupported"] += 1
                    self.unsupported_msgs.append("z3: "+str(e)[:200])
                    self._witness_of_failed()
                except RecursionError:
                    raise
                except Exception as e:
                    # the code under test raised on this path: the harness decides by replay
                    # whether the real code raises as well
                    self.stats["exceptions"] += 1
                    import traceback
                    tb = traceback.format_exc(limit=-4)
                    try:
                        r = self._check(ms=5000)
                    except Exception:
                        r = None
                    if r == z3.sat:
                        self.cexs.append(("raises:%s" % type(e).__name__, self.model_inputs(self.solver.model()), tb[-1500:]))
                    elif r == z3.unsat: pass
                    else: self.inconclusive.append("raises:%s on an undecided path" % type(e).__name__)
                finally:
                    self.active = False
        finally:
            Engine.cur = None
        return self

    def _witness_of_failed(self):
        if len(self.failed_witnesses) >= 60: return
        try:
            if self._check(ms=5000) == z3.sat:
                self.failed_witnesses.append(self.model_inputs(self.solver.model()))
                self.failed_witnesses += self.diverse(6 if len(self.failed_witnesses) < 30 else 1)
        except Exception: pass


def E():
    e = Engine.cur
    if e is None: raise RuntimeError("symbolic value used outside the engine")
    return e


# ---------------------------------------------------------------- polynomials

def _mulmono(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b:
        v = d.get(k, 0)+e
        if v: d[k] = v
        else: del d[k]
    return tuple(sorted(d.items()))


class Sym:
    __slots__ = ("p", "isint", "_z", "_key", "nn")
    __array_priority__ = 1000

    def __init__(self, p, isint, nn=False):
        self.p = p
        self.nn = nn        # known to be non-negative by construction (sum of squares)
        self.isint = isint
        self._z = None
        self._key = None

    # --- structure
    def isconst(self): return not self.p or (len(self.p) == 1 and () in self.p)
    def const(self): return self.p.get((), Fraction(0))
    def key(self):
        if self._key is None:
            self._key = (self.isint, tuple(sorted(self.p.items())))
        return self._key

    def z3(self):
        if self._z is not None: return self._z
        e = Engine.cur
        ats = e.atoms
        allint = self.isint and all(c.denominator == 1 for c in self.p.values()) and \
            all(ats[a].isint and k > 0 for m in self.p for a, k in m)
        terms = []
        for m, c in sorted(self.p.items()):
            num, den = [], []
            for a, k in m:
                z = ats[a].z
                if ats[a].isint and not allint: z = z3.ToReal(z)
                (num if k > 0 else den).extend([z]*abs(k))
            if allint: cz = z3.IntVal(int(c))
            else: cz = z3.RealVal(c)
            t = None
            for z in num: t = z if t is None else t*z
            if t is None: t = cz
            elif c != 1: t = cz*t
            if den:
                d = den[0]
                for z in den[1:]: d = d*z
                t = t/d
            terms.append(t)
        if not terms: r = z3.IntVal(0) if self.isint else z3.RealVal(0)
        elif len(terms) == 1: r = terms[0]
        else: r = z3.Sum(terms)
        if self.isint and not allint: r = z3.ToInt(r)
        self._z = r
        return r

    def rz(self):
        z = self.z3()
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z

    # --- arithmetic
    @staticmethod
    def lift(x):
        if isinstance(x, Sym): return x
        if isinstance(x, SymBool): return x.asint()
        if isinstance(x, (bool, _np.bool_)): return Sym({(): Fraction(int(x))} if x else {}, True)
        if isinstance(x, (int, _np.integer)):
            x = int(x)
            return Sym({(): Fraction(x)} if x else {}, True)
        if isinstance(x, Fraction): return Sym({(): x} if x else {}, x.denominator == 1)
        if isinstance(x, (float, _np.floating)):
            f = snap(x)
            return Sym({(): f} if f else {}, False)
        if isinstance(x, _np.ndarray) and x.ndim == 0: return Sym.lift(x.item())
        return None

    def _bin(self, o, f, rev=False):
        if isinstance(o, (complex, _np.complexfloating, SymComplex)):
            a, b = SymComplex.lift(self), SymComplex.lift(o)
            f = {s_add: operator.add, s_sub: operator.sub, s_mul: operator.mul, s_div: operator.truediv}.get(f)
            if f is None: raise TypeError("operation not defined for complex numbers")
            return f(b, a) if rev else f(a, b)
        if isinstance(o, (float, _np.floating)) and (o != o or o in (math.inf, -math.inf)):
            r = _special(self, float(o), f, rev)
            if r is not NotImplemented: return r
        l = Sym.lift(o)
        if l is None: return NotImplemented
        return f(l, self) if rev else f(self, l)

    def __add__(self, o): return self._bin(o, s_add)
    def __radd__(self, o): return self._bin(o, s_add, True)
    def __sub__(self, o): return self._bin(o, s_sub)
    def __rsub__(self, o): return self._bin(o, s_sub, True)
    def __mul__(self, o): return self._bin(o, s_mul)
    def __rmul__(self, o): return self._bin(o, s_mul, True)
    def __truediv__(self, o): return self._bin(o, s_div)
    def __rtruediv__(self, o): return self._bin(o, s_div, True)
    def __floordiv__(self, o): return self._bin(o, s_fdiv)
    def __rfloordiv__(self, o): return self._bin(o, s_fdiv, True)
    def __mod__(self, o): return self._bin(o, s_mod)
    def __rmod__(self, o): return self._bin(o, s_mod, True)
    def __divmod__(self, o): return self//o, self % o
    def __pow__(self, o):
        return s_pow(self, o)
    def __rpow__(self, o):
        raise Unsupported("constant ** symbolic")
    def __neg__(self): return norm(Sym({m: -c for m, c in self.p.items()}, self.isint))
    def __pos__(self): return self
    def __abs__(self):
        if self.isconst(): return tonum(abs(self.const()), self.isint)
        return ite(self >= 0, self, -self)

    # --- comparison
    def _cmp(self, o, op):
        if isinstance(o, (complex, SymComplex)):
            a, b = SymComplex.lift(self), SymComplex.lift(o)
            if op == "==": return b_and(a.re == b.re, a.im == b.im)
            if op == "!=": return b_not(b_and(a.re == b.re, a.im == b.im))
            return NotImplemented
        if isinstance(o, (float, _np.floating)):
            if o != o: return op == "!="
            if o == math.inf: return op in ("<", "<=", "!=")
            if o == -math.inf: return op in (">", ">=", "!=")
        l = Sym.lift(o)
        if l is None: return NotImplemented
        d = s_sub(self, l)
        if not isinstance(d, Sym):
            return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op]
        iv = E().range(d.p)
        if iv:
            lo, hi = iv
            if hi < 0: return op in ("<", "<=", "!=")
            if lo > 0: return op in (">", ">=", "!=")
            if hi == 0 and op in ("<=", ">"): return op == "<="
            if lo == 0 and op in (">=", "<"): return op == ">="
        # scale to a canonical form so that equal conditions are the same term
        c0 = d.p[max(d.p)]
        if abs(c0) != 1 and not d.isint:
            d = Sym({m: c/abs(c0) for m, c in d.p.items()}, False)
        z = d.z3()
        zero = z3.IntVal(0) if z.sort() == z3.IntSort() else z3.RealVal(0)
        r = {"<": z < zero, "<=": z <= zero, ">": z > zero, ">=": z >= zero, "==": z == zero, "!=": z != zero}[op]
        return SymBool(r, (d.p, op) if len(d.p) <= 2 else None)
    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")
    def __hash__(self): return id(self)

    # --- conversions
    def __bool__(self):
        r = self != 0
        return bool(r)
    def __index__(self):
        if not self.isint: raise TypeError("'float' object cannot be interpreted as an integer")
        return E().concretize(self)
    def __int__(self):
        t = s_trunc(self)
        if not isinstance(t, Sym): return int(t)
        return E().concretize(t)
    def __float__(self):
        if self.isconst(): return float(self.const())
        raise Unsupported("float() of a symbolic value")
    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")
    def __floor__(self): return s_floor(self)
    def __ceil__(self): return s_ceil(self)
    def __trunc__(self): return s_trunc(self)
    def __round__(self, n=None):
        r = s_rint(self) if not n else s_rint(self*10**n)/10**n
        return r
    def __repr__(self):
        e = Engine.cur
        def nm(a): return e.atoms[a].name if e else "a%d" % a
        s = " + ".join("%s%s" % (c, "".join("*%s%s" % (nm(a), "" if k == 1 else "^%d" % k) for a, k in m)) for m, c in self.p.items())
        return "Sym<%s>" % (s or "0")
    def __format__(self, spec): return repr(self)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    # --- looking like a numpy scalar
    ndim = 0
    shape = ()
    size = 1
    itemsize = 8
    nbytes = 8
    @property
    def dtype(self): return _np.dtype(object)
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def T(self): return self
    def conj(self): return self
    conjugate = conj
    def item(self): return self
    def copy(self): return self
    def any(self): return self != 0
    def all(self): return self != 0
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def tolist(self): return self
    def squeeze(self): return self
    def is_integer(self): return s_floor(self) == self
    def astype(self, dt, *a, **k):
        return cast(self, dt)
    def reshape(self, *a):
        from . import snp
        return snp.toarr(self).reshape(*a)
    def __getitem__(self, sel):
        from . import snp
        return snp.toarr(self)[sel]
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import snp
        return snp.ufunc_dispatch(ufunc, method, inputs, kw)
    def __array_function__(self, func, types, args, kwargs):
        from . import snp
        return snp.function_dispatch(func, args, kwargs)
    def floor(self): return s_floor(self)
    def rint(self): return s_rint(self)


def _special(self, o, f, rev):
    """Arithmetic with inf/nan constants."""
    if o != o: return math.nan
    if f is s_add: return o
    if f is s_sub: return o if rev else -o
    if f is s_div and not rev: return 0.0
    if f is s_mul:
        if bool(self > 0): return o
        if bool(self < 0): return -o
        return math.nan
    if f is s_mod and not rev:
        return NotImplemented
    return NotImplemented


def tonum(c, isint):
    """A constant as a plain python number."""
    if c.denominator == 1 and isint: return int(c)
    return c if isint else Fl(c)


class Fl(Fraction):
    """An exact real constant. Behaves like a float in the code under test."""
    __slots__ = ()


def norm(s):
    if not s.p: return 0 if s.isint else 0.0
    if s.isconst():
        c = s.const()
        if s.isint: return int(c)
        if c.denominator == 1 and abs(c) < 2**53: return float(int(c))
        f = float(c)
        if snap(f) == c: return f
        return s            # keep exact
    return s


def s_add(a, b):
    p = dict(a.p)
    for m, c in b.p.items():
        v = p.get(m, 0)+c
        if v: p[m] = v
        else: del p[m]
    return norm(Sym(p, a.isint and b.isint, a.nn and b.nn or a.nn and b.isconst() and b.const() >= 0 or b.nn and a.isconst() and a.const() >= 0))

def s_sub(a, b):
    p = dict(a.p)
    for m, c in b.p.items():
        v = p.get(m, 0)-c
        if v: p[m] = v
        else: del p[m]
    return norm(Sym(p, a.isint and b.isint))

def s_mul(a, b):
    p = {}
    if len(a.p)*len(b.p) > 4000: raise Unsupported("polynomial too large")
    for m1, c1 in a.p.items():
        for m2, c2 in b.p.items():
            m = _mulmono(m1, m2)
            v = p.get(m, 0)+c1*c2
            if v: p[m] = v
            else: del p[m]
    if E() is not None and E().sq: p = _squares(p)
    if E() is not None and E().invs: p = _inverses(p)
    return norm(Sym(p, a.isint and b.isint, a.p == b.p or a.nn and b.nn or a.nn and b.isconst() and b.const() >= 0 or b.nn and a.isconst() and a.const() >= 0))

def _squares(p):
    """rewrite squares of sines and square roots: sin^2 = 1-cos^2, sqrt(x)^2 = x"""
    sq = E().sq
    todo = [m for m in p if any(k > 1 and x in sq for x, k in m)]
    if not todo: return p
    p = dict(p)
    for _ in range(200):
        if not todo: return p
        for m in todo:
            c = p.pop(m, 0)
            if not c: continue
            x, k = next((x, k) for x, k in m if k > 1 and x in sq)
            rest = tuple((y, j) for y, j in m if y != x)
            if k % 2: rest = _mulmono(rest, ((x, 1),))
            fac = {(): Fraction(1)}
            for _i in range(k//2):
                f2 = {}
                for m1, c1 in fac.items():
                    for m2, c2 in sq[x].items():
                        mm = _mulmono(m1, m2); v = f2.get(mm, 0)+c1*c2
                        if v: f2[mm] = v
                        else: f2.pop(mm, None)
                fac = f2
            for m1, c1 in fac.items():
                mm = _mulmono(rest, m1); v = p.get(mm, 0)+c*c1
                if v: p[mm] = v
                else: p.pop(mm, None)
            if len(p) > 4000: raise Unsupported("polynomial too large")
        todo = [m for m in p if any(k > 1 and x in sq for x, k in m)]
    raise Unsupported("rewriting does not end")

def _inverses(p):
    """rewrite inv(P)*lead(P) = 1 - inv(P)*(P-lead(P)), lead(P) being P's largest monomial"""
    invs = E().invs
    def hit(m):
        d = dict(m)
        for x, k in m:
            if k > 0 and x in invs and all(d.get(y, 0) >= j for y, j in invs[x][0]): return x
    todo = [(m, x) for m in p for x in [hit(m)] if x is not None]
    if not todo: return p
    q = dict(p)
    for _ in range(40):
        for m, x in todo:
            c = q.pop(m, 0)
            if not c: continue
            lead, rest, one = invs[x]
            m0 = _mulmono(m, tuple((y, -j) for y, j in lead))      # m/lead
            for m1, c1 in [(((x, -1),), one)]+[(k, -v) for k, v in rest.items()]:
                mm = _mulmono(m0, m1); v = q.get(mm, 0)+c*c1
                if v: q[mm] = v
                else: q.pop(mm, None)
            if len(q) > 2000: return p
        todo = [(m, x) for m in q for x in [hit(m)] if x is not None]
        if not todo: return _squares(q) if E().sq else q
    return p

def _monoexp(b):
    (m, c), = b.p.items()
    return m, c

def s_div(a, b):
    if b.isconst():
        c = b.const()
        if c == 0:
            return _divzero(a)
        return norm(Sym({m: v/c for m, v in a.p.items()}, False))
    # nonzero?
    e = E()
    z = (b == 0)
    if is_symbool(z) and e.branch(z.z): return _divzero(a)
    if len(b.p) == 1:
        m, c = _monoexp(b)
        inv = tuple((k, -x) for k, x in m)
        return norm(Sym({_mulmono(mm, inv): v/c for mm, v in a.p.items()}, False))
    # exact division?
    q = polydiv(a, b)
    if q is not None: return norm(Sym(q, False))
    # canonical inverse atom of the polynomial
    lead = b.p[max(b.p)]
    nb = Sym({m: c/lead for m, c in b.p.items()}, False)
    at = e.atom(("inv", nb.key()), lambda: z3.Real("inv!%d" % len(e.atoms)), False, "inv(%s)" % nb,
                cons=lambda zz: [zz*nb.rz() == 1])
    if at.id not in e.invs:
        lm = max((m for m in nb.p if m and all(k > 0 for _, k in m)), default=None)
        if lm is not None: e.invs[at.id] = (lm, {m: c/nb.p[lm] for m, c in nb.p.items() if m != lm}, 1/nb.p[lm])
    return s_mul(a, Sym({((at.id, 1),): 1/lead}, False))

def _divzero(a):
    if isinstance(a, Sym) and a.isconst() is False:
        if bool(a > 0): return math.inf
        if bool(a < 0): return -math.inf
        return math.nan
    c = a.const()
    return math.inf if c > 0 else (-math.inf if c < 0 else math.nan)

def polydiv(a, b):
    """Exact polynomial division a/b if it comes out even, else None. Laurent terms allowed."""
    rem = dict(a.p); q = {}
    lm = max(b.p); lc = b.p[lm]
    inv = tuple((k, -x) for k, x in lm)
    for _ in range(4*len(a.p)+4):
        if not rem: return q
        m = max(rem)
        t = _mulmono(m, inv); c = rem[m]/lc
        q[t] = q.get(t, 0)+c
        if q[t] == 0: return None
        for bm, bc in b.p.items():
            k = _mulmono(t, bm); v = rem.get(k, 0)-c*bc
            if v: rem[k] = v
            else: rem.pop(k, None)
        if m in rem: return None
        if len(rem) > 3*len(a.p)+len(b.p): return None
    return None

def s_floor(a):
    """floor, as an integer Sym"""
    if not isinstance(a, Sym):
        if isinstance(a, (float, _np.floating)) and (a != a or abs(a) == math.inf): return a
        return math.floor(a)
    if a.isint: return a
    e = E()
    ip, rest = {}, {}
    for m, c in a.p.items():
        if m == ():
            fl = math.floor(c)
            if fl: ip[m] = Fraction(fl)
            if c-fl: rest[m] = c-fl
        elif c.denominator == 1 and all(e.atoms[k].isint and x > 0 for k, x in m): ip[m] = c
        else:
            rest[m] = c
    if not rest: return norm(Sym(ip, True))
    if set(rest) == {()}: return norm(Sym(ip, True))
    r = Sym(rest, False)
    iv = e.range(rest)
    if iv and math.floor(iv[0]) == math.floor(iv[1]):
        return norm(s_add_sym(Sym(ip, True), Sym.lift(math.floor(iv[0]))))
    at = e.atom(("floor", r.key()), lambda: z3.Int("floor!%d" % len(e.atoms)), True, "floor(%s)" % r,
                cons=lambda zz: [z3.ToReal(zz) <= r.rz(), r.rz() < z3.ToReal(zz)+1])
    if at.rng is None: at.rng = lambda: (lambda v: v and (Fraction(math.floor(v[0])), Fraction(math.floor(v[1]))))(E().range(rest))
    return norm(s_add_sym(Sym(ip, True), Sym({((at.id, 1),): Fraction(1)}, True)))

def s_add_sym(a, b):
    r = s_add(a, b)
    return r if isinstance(r, Sym) else Sym.lift(r)

def s_ceil(a):
    if not isinstance(a, Sym): return a if isinstance(a, float) and (a != a or abs(a) == math.inf) else math.ceil(a)
    if a.isint: return a
    f = s_floor(-a)
    return -f

def s_trunc(a):
    if not isinstance(a, Sym): return math.trunc(a)
    if a.isint: return a
    return ite(a >= 0, s_floor(a), s_ceil(a))

def s_rint(a):
    """round half to even, as an integer"""
    if not isinstance(a, Sym):
        if isinstance(a, (float, _np.floating)) and (a != a or abs(a) == math.inf): return a
        return round(a)
    if a.isint: return a
    # take the integer part out first to get canonical terms
    f = s_floor(a+Fraction(1, 2))
    tie = (a+Fraction(1, 2) == f)
    if isinstance(tie, (bool, _np.bool_)):
        return f-1 if tie and f % 2 == 1 else f
    odd = b_and(tie, (f % 2) == 1)
    return ite(odd, f-1, f)

def s_fdiv(a, b):
    if a.isint and b.isint and b.isconst() and b.const() != 0:
        c = b.const()
        if c < 0: return s_fdiv(Sym.lift(-a), Sym.lift(-b))
        return s_floor(asreal(s_div(a, b)))
    q = s_div(a, b)
    if not isinstance(q, Sym):
        if isinstance(q, float) and (q != q or abs(q) == math.inf): return q
        r = math.floor(q)
        return r if (a.isint and b.isint) else float(r)
    r = s_floor(asreal(q))
    if a.isint and b.isint: return r
    return asfloat(r)

def asreal(x):
    if isinstance(x, Sym) and x.isint: return Sym(x.p, False)
    return x
def asfloat(x):
    if isinstance(x, Sym): return Sym(x.p, False)
    return float(x) if isinstance(x, (int, _np.integer)) else x

def s_mod(a, b):
    if b.isconst() and b.const() == 0:
        if a.isint and b.isint: raise ZeroDivisionError("integer modulo by zero")
        return math.nan
    q = s_fdiv(a, b)
    if isinstance(q, float) and (q != q or abs(q) == math.inf): return math.nan
    r = a - b*q
    if isinstance(r, Sym) and not (a.isint and b.isint): r = Sym(r.p, False)
    return r

def s_pow(a, o):
    if isinstance(o, Sym):
        if o.isconst(): o = o.const()
        else: raise Unsupported("symbolic exponent")
    if isinstance(o, (float, _np.floating)): o = snap(o)
    o = Fraction(o) if not isinstance(o, Fraction) else o
    if o.denominator == 1:
        n = int(o)
        if n == 0: return 1 if a.isint else 1.0
        r = a
        for _ in range(abs(n)-1): r = r*a
        return r if n > 0 else 1/r
    if o == Fraction(1, 2): return s_sqrt(a)
    if o == Fraction(-1, 2): return 1/s_sqrt(a)
    raise Unsupported("power %s" % o)

def _polysqrt(a):
    "square root of a quadratic polynomial in one variable that is a perfect square"
    vs = {x for m in a.p for x, k in m}
    if len(vs) != 1: return None
    v = vs.pop(); co = {}
    for m, c in a.p.items():
        k = m[0][1] if m else 0
        if k > 2: return None
        co[k] = Fraction(c)
    A, B, D = co.get(2, 0), co.get(1, 0), co.get(0, 0)
    if A <= 0 or B*B != 4*A*D: return None
    n, d = math.isqrt(A.numerator), math.isqrt(A.denominator)
    if n*n != A.numerator or d*d != A.denominator: return None
    q = Fraction(n, d)
    return norm(Sym({((v, 1),): q, (): B/(2*q)}, False))

def s_sqrt(a):
    if not isinstance(a, Sym): return math.sqrt(a)
    e = E()
    if a.nn: e.assume_nn(a)
    elif bool(a < 0): return math.nan
    # perfect square monomials
    if len(a.p) == 1:
        m, c = _monoexp(a)
        n, d = math.isqrt(abs(c.numerator)), math.isqrt(c.denominator)
        if c > 0 and n*n == c.numerator and d*d == c.denominator and all(k % 2 == 0 for _, k in m):
            return abs(norm(Sym({tuple((x, k//2) for x, k in m): Fraction(n, d)}, False)))
    r = _polysqrt(a)
    if r is not None: return abs(r)
    at = e.atom(("sqrt", a.key()), lambda: z3.Real("sqrt!%d" % len(e.atoms)), False, "sqrt(%s)" % a,
                cons=lambda zz: [zz >= 0, zz*zz == a.rz()])
    e.sq[at.id] = dict(a.p)
    return Sym({((at.id, 1),): Fraction(1)}, False)


# ---------------------------------------------------------------- booleans

class SymBool:
    __slots__ = ("z", "lin")
    __array_priority__ = 1000
    def __init__(self, z, lin=None): self.z = z; self.lin = lin
    def __bool__(self):
        r = E().branch(self.z)
        if self.lin: E().narrow(self.lin, r)
        return r
    def asint(self):
        e = E()
        z = self.z
        at = e.atom(("b2i", z.get_id(), z.hash()), lambda: z3.Int("b2i!%d" % len(e.atoms)), True, "b2i",
                    cons=lambda zz: [zz == z3.If(z, z3.IntVal(1), z3.IntVal(0))])
        e.keep = getattr(e, "keep", []); e.keep.append(z)
        return Sym({((at.id, 1),): Fraction(1)}, True)
    def __and__(self, o): return b_and(self, o)
    __rand__ = __and__
    def __or__(self, o): return b_or(self, o)
    __ror__ = __or__
    def __xor__(self, o): return b_xor(self, o)
    __rxor__ = __xor__
    def __invert__(self): return b_not(self)
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __add__(self, o): return self.asint()+o
    def __radd__(self, o): return o+self.asint()
    def __sub__(self, o): return self.asint()-o
    def __rsub__(self, o): return o-self.asint()
    def __mul__(self, o):
        if isinstance(o, (Sym, SymComplex)): return ite(self, o, o*0)
        return self.asint()*o
    def __rmul__(self, o): return self*o
    def __truediv__(self, o): return self.asint()/o
    def __rtruediv__(self, o): return o/self.asint()
    def __mod__(self, o): return self.asint() % o
    def __floordiv__(self, o): return self.asint()//o
    def __pow__(self, o): return self.asint()**o
    def __neg__(self): return -self.asint()
    def _c(self, o, op):
        if isinstance(o, (bool, _np.bool_)): o = SymBool(z3.BoolVal(bool(o)))
        if isinstance(o, SymBool):
            if op == "==": return mkbool(self.z == o.z)
            if op == "!=": return mkbool(self.z != o.z)
        return getattr(self.asint(), {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op])(o)
    def __eq__(self, o): return self._c(o, "==")
    def __ne__(self, o): return self._c(o, "!=")
    def __lt__(self, o): return self._c(o, "<")
    def __le__(self, o): return self._c(o, "<=")
    def __gt__(self, o): return self._c(o, ">")
    def __ge__(self, o): return self._c(o, ">=")
    def __hash__(self): return id(self)
    def __repr__(self): return "SymBool<%s>" % self.z
    def __deepcopy__(self, memo): return self
    ndim = 0
    shape = ()
    size = 1
    @property
    def dtype(self): return _np.dtype(object)
    def astype(self, dt, *a, **k): return cast(self, dt)
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def item(self): return self
    def copy(self): return self
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import snp
        return snp.ufunc_dispatch(ufunc, method, inputs, kw)
    def __array_function__(self, func, types, args, kwargs):
        from . import snp
        return snp.function_dispatch(func, args, kwargs)


def mkbool(z):
    z = z3.simplify(z) if z.num_args() <= 2 else z
    if z3.is_true(z): return True
    if z3.is_false(z): return False
    return SymBool(z)

def tobool(x):
    """-> z3 Bool"""
    if isinstance(x, SymBool): return x.z
    if isinstance(x, (bool, _np.bool_)): return z3.BoolVal(bool(x))
    if isinstance(x, Sym): return (x != 0).z if isinstance(x != 0, SymBool) else z3.BoolVal(bool(x != 0))
    if isinstance(x, _np.ndarray) and x.ndim == 0: return tobool(x.item())
    if z3.is_bool(x): return x
    return z3.BoolVal(bool(x))

def _isb(x): return isinstance(x, (bool, _np.bool_))

def b_and(a, b):
    if _isb(a): return b if a else False
    if _isb(b): return a if b else False
    if isinstance(a, SymBool) or isinstance(b, SymBool): return SymBool(z3.And(tobool(a), tobool(b)))
    if isinstance(a, Sym) or isinstance(b, Sym): return s_bitand(a, b)
    return a & b

def b_or(a, b):
    if _isb(a): return True if a else b
    if _isb(b): return True if b else a
    if isinstance(a, SymBool) or isinstance(b, SymBool): return SymBool(z3.Or(tobool(a), tobool(b)))
    if isinstance(a, Sym) or isinstance(b, Sym): raise Unsupported("bitwise or")
    return a | b

def b_xor(a, b):
    if _isb(a) and _isb(b): return bool(a) ^ bool(b)
    if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(b, (SymBool, bool, _np.bool_)):
        return mkbool(z3.Xor(tobool(a), tobool(b)))
    if isinstance(a, Sym) or isinstance(b, Sym): raise Unsupported("bitwise xor")
    return a ^ b

def b_not(a):
    if _isb(a): return not a
    if isinstance(a, SymBool): return mkbool(z3.Not(a.z))
    if isinstance(a, Sym): return -a-1
    return ~a

def s_bitand(a, b):
    if isinstance(b, Sym) and b.isconst(): b = int(b.const())
    if isinstance(a, Sym) and isinstance(b, (int, _np.integer)) and b >= 0 and (int(b)+1) & int(b) == 0:
        return a % (int(b)+1)
    raise Unsupported("bitwise and")

def conj_all(xs):
    zs = []
    for x in xs:
        if _isb(x):
            if not x: return False
            continue
        zs.append(tobool(x))
    if not zs: return True
    return SymBool(zs[0] if len(zs) == 1 else z3.And(zs))

def disj_all(xs):
    zs = []
    for x in xs:
        if _isb(x):
            if x: return True
            continue
        zs.append(tobool(x))
    if not zs: return False
    return SymBool(zs[0] if len(zs) == 1 else z3.Or(zs))


def ite(c, a, b):
    """if-then-else term (no path fork)"""
    if _isb(c): return a if c else b
    if isinstance(c, Sym): c = (c != 0)
    if not isinstance(c, SymBool): return a if c else b
    if a is b: return a
    if isinstance(a, (complex, _np.complexfloating, SymComplex)) or isinstance(b, (complex, _np.complexfloating, SymComplex)):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        return SymComplex(ite(c, a.re, b.re), ite(c, a.im, b.im))
    ab, bb = isinstance(a, (SymBool, bool, _np.bool_)), isinstance(b, (SymBool, bool, _np.bool_))
    if ab and bb:
        return mkbool(z3.If(c.z, tobool(a), tobool(b)))
    for x in (a, b):
        if isinstance(x, (float, _np.floating)) and (x != x or abs(x) == math.inf):
            return a if bool(c) else b        # fork
    la, lb = Sym.lift(a), Sym.lift(b)
    if la is None or lb is None: return a if bool(c) else b
    if la.p == lb.p: return a
    isint = la.isint and lb.isint
    # common part out: keeps terms small and floor-friendly
    common = {m: v for m, v in la.p.items() if lb.p.get(m) == v}
    ra = Sym({m: v for m, v in la.p.items() if m not in common}, isint)
    rb = Sym({m: v for m, v in lb.p.items() if m not in common}, isint)
    e = E()
    za, zb = (ra.z3(), rb.z3()) if isint else (ra.rz(), rb.rz())
    if isint and (za.sort() != z3.IntSort() or zb.sort() != z3.IntSort()):
        za = za if za.sort() == z3.IntSort() else z3.ToInt(za)
        zb = zb if zb.sort() == z3.IntSort() else z3.ToInt(zb)
    t = z3.If(c.z, za, zb)
    e.keep = getattr(e, "keep", []); e.keep.append((c.z, t))
    # the term itself is the atom: no definition needed in the solver
    at = e.atom(("ite", c.z.get_id(), ra.key(), rb.key()), lambda: t, isint, "ite")
    e.ite_args[at.id] = (c, ra, rb)
    if at.rng is None:
        def rng(pa=ra.p, pb=rb.p):
            x, y = E().range(pa), E().range(pb)
            return (min(x[0], y[0]), max(x[1], y[1])) if x and y else None
        at.rng = rng
    return norm(s_add_sym(Sym(common, isint), Sym({((at.id, 1),): Fraction(1)}, isint)))


def s_min(a, b):
    if not is_symb(a) and not is_symb(b): return min(a, b) if a == a and b == b else math.nan
    c = a <= b
    if not _isb(c) and (a >= b) is True: return b
    return ite(c, a, b)
def s_max(a, b):
    if not is_symb(a) and not is_symb(b): return max(a, b) if a == a and b == b else math.nan
    c = a >= b
    if not _isb(c) and (a <= b) is True: return b
    return ite(c, a, b)

def s_sign(a):
    if not isinstance(a, Sym): return type(a)(int(a > 0)-int(a < 0))
    r = ite(a > 0, 1, ite(a < 0, -1, 0))
    return r if a.isint else asfloat(r)


# ---------------------------------------------------------------- trig as uninterpreted functions with axioms

def _canon_sign(a):
    """(sign, canonical poly) with leading coefficient positive"""
    m = max(a.p)
    if a.p[m] < 0: return -1, Sym({k: -c for k, c in a.p.items()}, False)
    return 1, Sym(dict(a.p), False)

def _of_inverse(b):
    """(cos, sin) of an inverse trigonometric function, by its definition"""
    if len(b.p) != 1: return None
    (m, c), = b.p.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1: return None
    name, args = E().uf_args.get(m[0][0], ("", ()))
    if name == "atan2":
        y, x = args
        r = s_sqrt(Sym.lift(x*x+y*y))
        if bool(r == 0): return 1, 0
        return x/r, y/r
    if name == "arctan":
        r = s_sqrt(Sym.lift(args[0]*args[0]+1))
        return 1/r, args[0]/r
    if name == "arccos": return args[0], s_sqrt(Sym.lift(1-args[0]*args[0]))
    if name == "arcsin": return s_sqrt(Sym.lift(1-args[0]*args[0])), args[0]
    return None

def _trig_const(c):
    k = c/(PI/2)
    if k.denominator == 1: return [(1, 0), (0, 1), (-1, 0), (0, -1)][int(k) % 4]
    return math.cos(float(c)), math.sin(float(c))

def resolve_ites(a):
    """a with its if-then-else terms replaced by the branch taken on this path (forking where both are possible)"""
    e = E()
    while True:
        i = next((x for m in a.p for x, k in m if x in e.ite_args), None)
        if i is None: return a
        c, ra, rb = e.ite_args[i]
        v = ra if bool(c) else rb
        r = Sym({}, False)
        for m, co in a.p.items():
            t = Sym({tuple(f for f in m if f[0] != i): co}, False)
            for x, k in m:
                if x == i:
                    for _ in range(k): t = Sym.lift(s_mul(t, Sym(dict(v.p), False)))
            r = s_add_sym(r, t)
        a = r

def _trig_pair(a):
    """(cos, sin) of Sym a, as Syms"""
    e = E()
    a = resolve_ites(Sym(dict(a.p), False))
    drop = [m for m, c in a.p.items() if m and (c/(2*PI)).denominator == 1 and all(e.atoms[x].isint and k > 0 for x, k in m)]
    if drop: a = Sym({m: c for m, c in a.p.items() if m not in drop}, False)    # whole turns
    if a.isconst(): return _trig_const(a.const())
    # reduce constant multiples of pi/2
    c = a.const()
    k = c/(PI/2)
    quad = 0
    if c and k.denominator == 1:
        quad = int(k) % 4
        p = dict(a.p); del p[()]
        a = Sym(p, False)
        if not p:
            return [(1, 0), (0, 1), (-1, 0), (0, -1)][quad]
    elif a.isconst():
        f = float(c)
        return math.cos(f), math.sin(f)
    sg, b = _canon_sign(a)
    inv = _of_inverse(b)
    if inv is not None:
        co, si = inv
        if sg < 0: si = -si
        for _ in range(quad): co, si = -si, co
        return co, si
    key = b.key()
    at_c = e.atom(("cos", key), lambda: z3.Real("cos!%d" % len(e.atoms)), False, "cos(%s)" % b)
    at_s = e.atom(("sin", key), lambda: z3.Real("sin!%d" % len(e.atoms)), False, "sin(%s)" % b)
    if e.active and ("trig", key) not in e.consd:
        e.consd.add(("trig", key))
        e.solver.add(at_c.z*at_c.z + at_s.z*at_s.z == 1, at_c.z <= 1, at_c.z >= -1, at_s.z <= 1, at_s.z >= -1)
    e.sq[at_s.id] = {(): Fraction(1), ((at_c.id, 2),): Fraction(-1)}
    co, si = Sym({((at_c.id, 1),): Fraction(1)}, False), Sym({((at_s.id, 1),): Fraction(1)}, False)
    if sg < 0: si = -si
    for _ in range(quad): co, si = -si, co
    return co, si

def s_cos(a):
    if not isinstance(a, Sym): return math.cos(a)
    return _trig_pair(a)[0]
def s_sin(a):
    if not isinstance(a, Sym): return math.sin(a)
    if len(a.p) == 1:
        (m, c), = a.p.items()
        if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and E().uf_args.get(m[0][0], ("",))[0] == "arcsin":
            x = E().uf_args[m[0][0]][1][0]
            return x if c > 0 else -x
    return _trig_pair(a)[1]
def s_tan(a):
    if not isinstance(a, Sym): return math.tan(a)
    if len(a.p) == 1:
        (m, k), = a.p.items()
        if abs(k) == 1 and len(m) == 1 and m[0][1] == 1 and E().uf_args.get(m[0][0], ("",))[0] == "arctan":
            x = E().uf_args[m[0][0]][1][0]
            return x if k > 0 else -x
    c, s = _trig_pair(a)
    return s/c

_uf = {}
def s_uf(name, *args, rng=None):
    """An uninterpreted real function of its arguments"""
    e = E()
    ls = [Sym.lift(a) for a in args]
    if any(l is None for l in ls): raise Unsupported("%s of %r" % (name, args))
    f = _uf.get((name, len(ls)))
    if f is None: f = _uf[(name, len(ls))] = z3.Function("uf_"+name, *([z3.RealSort()]*(len(ls)+1)))
    cons = None
    if rng is not None:
        lo, hi = rng
        cons = lambda zz: ([zz >= z3.RealVal(lo)] if lo is not None else [])+([zz <= z3.RealVal(hi)] if hi is not None else [])
    at = e.atom((name,)+tuple(l.key() for l in ls), lambda: f(*[l.rz() for l in ls]), False, "%s(...)" % name, cons=cons)
    e.uf_args[at.id] = (name, ls)
    return Sym({((at.id, 1),): Fraction(1)}, False)


# ---------------------------------------------------------------- complex

class SymComplex:
    __slots__ = ("re", "im")
    __array_priority__ = 1000
    def __init__(self, re, im): self.re, self.im = re, im
    @staticmethod
    def lift(x):
        if isinstance(x, SymComplex): return x
        if isinstance(x, (complex, _np.complexfloating)): return SymComplex(float(x.real), float(x.imag))
        return SymComplex(x, 0)
    def __add__(self, o): o = SymComplex.lift(o); return SymComplex(self.re+o.re, self.im+o.im)
    __radd__ = __add__
    def __sub__(self, o): o = SymComplex.lift(o); return SymComplex(self.re-o.re, self.im-o.im)
    def __rsub__(self, o): return SymComplex.lift(o)-self
    def __mul__(self, o):
        o = SymComplex.lift(o)
        return SymComplex(_mul(self.re, o.re)-_mul(self.im, o.im), _mul(self.re, o.im)+_mul(self.im, o.re))
    def __rmul__(self, o): return self*o
    def __truediv__(self, o):
        o = SymComplex.lift(o)
        if not is_symb(o.im) and o.im == 0: return SymComplex(self.re/o.re, self.im/o.re)
        d = o.re*o.re+o.im*o.im
        n = self*SymComplex(o.re, -o.im)
        return SymComplex(n.re/d, n.im/d)
    def __rtruediv__(self, o): return SymComplex.lift(o)/self
    def __neg__(self): return SymComplex(-self.re, -self.im)
    def __pow__(self, n):
        if int(n) != n or n < 0: raise Unsupported("complex power")
        r = SymComplex(1, 0)
        for _ in range(int(n)): r = r*self
        return r
    def __abs__(self): return s_sqrt(self.re*self.re+self.im*self.im)
    def __eq__(self, o):
        o = SymComplex.lift(o); return b_and(self.re == o.re, self.im == o.im)
    def __ne__(self, o): return b_not(self == o)
    def __hash__(self): return id(self)
    def __bool__(self): return bool(self != 0)
    def __repr__(self): return "SymComplex(%r,%r)" % (self.re, self.im)
    def __deepcopy__(self, memo): return self
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def conjugate(self): return SymComplex(self.re, -self.im)
    conj = conjugate
    ndim = 0
    shape = ()
    size = 1
    @property
    def dtype(self): return _np.dtype(object)
    def item(self): return self
    def astype(self, dt, *a, **k): return cast(self, dt)
    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")
    def __float__(self): raise Unsupported("float() of a symbolic complex value")
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import snp
        return snp.ufunc_dispatch(ufunc, method, inputs, kw)
    def __array_function__(self, func, types, args, kwargs):
        from . import snp
        return snp.function_dispatch(func, args, kwargs)

def _mul(a, b):
    # 0*symbolic is 0 (avoids sign-of-zero clutter)
    if not is_symb(a) and a == 0: return 0
    if not is_symb(b) and b == 0: return 0
    return a*b


def cast(x, dt):
    """astype for one element."""
    kind = _np.dtype(dt).kind if not isinstance(dt, str) or dt != "O" else "O"
    if kind in "iu":
        if isinstance(x, SymBool): return x.asint()
        if isinstance(x, Sym): return s_trunc(x)
        if isinstance(x, SymComplex): raise Unsupported("complex to int")
        if isinstance(x, Fraction): return math.trunc(x)
        return int(_np.asarray(x).astype(dt))
    if kind == "f":
        if isinstance(x, SymBool): return asfloat(x.asint())
        if isinstance(x, Sym): return asfloat(x)
        if isinstance(x, SymComplex): return asfloat(x.re)
        if isinstance(x, complex): return x.real
        return float(x) if not isinstance(x, Fraction) else asfloat(norm(Sym({(): Fraction(x)}, False)))
    if kind == "c":
        if isinstance(x, SymComplex): return x
        if is_symb(x): return SymComplex(asfloat(x) if isinstance(x, Sym) else asfloat(x.asint()), 0)
        return complex(x)
    if kind == "b":
        if isinstance(x, (SymBool, bool, _np.bool_)): return x
        return x != 0
    return x
