"""a message passing world of n tasks in one process. The tasks are threads of which exactly one runs at a
time and that only switch at communication calls, in order of rank, so a run is deterministic."""
import threading
import numpy as _np

class Abort(BaseException): pass

class World:
    def __init__(self, n):
        self.n, self.turn, self.cond = n, 0, threading.Condition()
        self.slots, self.gen, self.alive = {}, [0]*n, [True]*n
        self.mail, self.dead, self.err = {}, False, None
    def run(self, f):
        """f(comm) on every task; the list of results"""
        res, self.err = [None]*self.n, None
        def body(r):
            self._wait(r)
            try: res[r] = f(Comm(self, r))
            except Abort: pass
            except BaseException as e:
                if self.err is None: self.err = e
                self.dead = True
            with self.cond:
                self.alive[r] = False
                self._next(r); self.cond.notify_all()
        ts = [threading.Thread(target=body, args=(r,)) for r in range(self.n)]
        for t in ts: t.start()
        for t in ts: t.join()
        if self.err is not None: raise self.err
        return res
    def _next(self, r):
        for k in range(1, self.n+1):
            q = (r+k) % self.n
            if self.alive[q]: self.turn = q; return
    def _wait(self, r):
        with self.cond:
            while self.turn != r: self.cond.wait()
    def swap(self, r):
        with self.cond:
            self._next(r); self.cond.notify_all()
            while self.turn != r: self.cond.wait()
        if self.dead: raise Abort()

class Comm:
    def __init__(self, w, rank): self.w, self.rank, self.size = w, rank, w.n
    def exchange(self, kind, val):
        w, g = self.w, self.w.gen[self.rank]
        w.gen[self.rank] += 1
        slot = w.slots.setdefault(g, {})
        slot[self.rank] = (kind, val)
        n = 0
        while len(slot) < w.n:
            w.swap(self.rank); n += 1
            if n > 10*w.n: raise RuntimeError("deadlock: not every task takes part in %s" % kind)
        if {k for k, _ in slot.values()} != {kind}: raise RuntimeError("tasks call different collective functions")
        return [slot[r][1] for r in range(w.n)]
    def allgather(self, v): return self.exchange("allgather", v)
    def bcast(self, v, root=0): return self.exchange("bcast", v)[root]
    def Barrier(self): self.exchange("barrier", None)
    barrier = Barrier
    def Allgather(self, a, res):
        vals = self.exchange("Allgather", flat(a))
        put(res, 0, sum(vals, []), True)
    def Allgatherv(self, a, dest):
        res, (n, o) = dest
        vals = self.exchange("Allgatherv", flat(a))
        for v, k, i in zip(vals, n, o):
            if len(v) != int(k): raise ValueError("Allgatherv: message of %d elements where %d are expected" % (len(v), int(k)))
            put(res, int(i), v)
    def Alltoallv(self, src, dest):
        (a, (sn, so)), (res, (rn, ro)) = src, dest
        v = flat(a)
        if len(v) < max([int(i)+int(k) for k, i in zip(sn, so)]+[0]): raise ValueError("Alltoallv: send buffer too short")
        vals = self.exchange("Alltoallv", [v[int(i):int(i)+int(k)] for k, i in zip(sn, so)])
        for r in range(self.size):
            m = vals[r][self.rank]
            if len(m) != int(rn[r]): raise ValueError("Alltoallv: message of %d elements where %d are expected" % (len(m), int(rn[r])))
            put(res, int(ro[r]), m)
    def Allreduce(self, a, res, op=None):
        vals = self.exchange("Allreduce", flat(a))
        put(res, 0, fold(vals, op), True)
    def Reduce(self, a, res, op=None, root=0):
        vals = self.exchange("Reduce", flat(a))
        if self.rank == root: put(res, 0, fold(vals, op), True)
    def send(self, v, dest, tag=0): self.w.mail.setdefault((self.rank, dest, tag), []).append(v)
    def recv(self, source, tag=0):
        k = (source, self.rank, tag); n = 0
        while not self.w.mail.get(k):
            self.w.swap(self.rank); n += 1
            if n > 10*self.w.n: raise RuntimeError("deadlock in recv")
        return self.w.mail[k].pop(0)
    def Send(self, a, dest, tag=0): self.send(flat(a), dest, tag)
    def Recv(self, res, source, tag=0): put(res, 0, self.recv(source, tag), True)

def fold(vals, op):
    out = list(vals[0])
    for v in vals[1:]:
        out = [a+b for a, b in zip(out, v)] if op is None else [op(a, b) for a, b in zip(out, v)]
    return out
def flat(a):
    if not a.flags["C_CONTIGUOUS"]: raise ValueError("message buffer: not contiguous")
    return [a[i] for i in _np.ndindex(*a.shape)] if hasattr(a, "nom") else [a[i] for i in _np.ndindex(*a.shape)]
def put(res, off, vals, whole=False):
    if not res.flags["C_CONTIGUOUS"]: raise ValueError("message buffer: not contiguous")
    r = res.reshape(-1)
    if whole and len(r) != len(vals): raise ValueError("message of %d elements for a buffer of %d" % (len(vals), len(r)))
    for i, v in enumerate(vals): r[off+i] = v
