"""Canonical composition loops: what they do for every starter and every following unit (built on vec.Vec).

Outer iteration: lanes are the values of the unit at the read position.  Inner iteration: lanes are triples (current
starter, next unit, class of the last unit that was left in between); whatever the loop carries that was computed from
the starter is assumed to be that function of the current starter, and every iteration is checked to keep it so."""
import numpy as np
import ir, tables, vec, units
from ir import AnalysisError
from boxes import Undecided
from vec import CP, TOP, Vec, Val, K
from units import N, X, uni, u

CCC = "idna::get_ccc(char32_t)"


def arr(x, n, what):
    return np.broadcast_to(np.asarray(getattr(x, what), np.int64 if what == 't' else np.uint64), n)


class Scan(Vec):
    """outer part; unit 0 is the lane, unit c > 0 the symbol ('u', c)"""
    def setup(self):
        loops = self.fn.loops()
        self.rphi = None
        return loops

    def go(self, run, env, lanes, mem):
        run.wr = {}
        return super().go(run, env, lanes, mem)

    def wrote(self, b, iv, x, ls):
        if not iv.scalar():
            self.run.wr = None
        if self.run.wr is None:
            return
        k = (b, iv.t, iv.a)
        if k not in self.run.wr:
            self.run.wr[k] = [np.zeros(self.n, np.int32), np.zeros(self.n, np.uint64), np.zeros(self.n, bool)]
        w = self.run.wr[k]
        w[0][ls] = x.t
        w[1][ls] = x.a
        w[2][ls] = True

    def own(self, L, i):
        """the unit of the lane"""
        return units.big(self, L)

    def ahead(self, c, L):
        s = ('u', c)
        self.range[s] = (0, 0xFFFFFFFF)
        return self.sym(s, 32)

    def unit(self, v, b, ix, L, i):
        h = self.run.head
        if h is None or not ix.scalar() or ix.t == TOP or self.run.wr is None:
            return None
        w = self.run.wr.get((b, ix.t, ix.a))
        if w is not None and w[2][L].all():
            return self.shrink(Val(32, w[0][L], w[1][L]))
        d = self.F.get(ix.t)
        if d == {('it', h): 1} and ix.a == 0:
            if self.unitpos.setdefault(h, (b, ix.t, ix.a)) != (b, ix.t, ix.a):
                return None
            return self.own(L, i)
        p = self.readpos(h, d, i)
        if p is None:
            return self.stale_unit(h, d, b, ix, L)
        c = vec.sgn(ix.a, 64) - p
        if c < 0:
            return None
        # what was written so far cannot be behind the unit at hand; the unit itself may be gone
        if c == 0:
            for (ob, t, a), w in self.run.wr.items():
                if ob == b and (w[2][L] & ~((w[0][L] == 0) & (w[1][L] == X[L]) | (L == CP))).any():
                    return None
            return self.own(L, i)
        return self.ahead(c, L)

    def stale_unit(self, h, d, b, ix, L):
        """a unit behind the write position that was not written: left over, nothing is known about it"""
        if h != self.h1 or self.rphi is None or len(d) != 1 or list(d.values()) != [1]:
            return None
        s = next(iter(d))
        if not (isinstance(s, tuple) and s[0] == 'phi' and any(p.id == s[1] and p.ty == 'i64' for p in self.fn.blocks[h].phis())):
            return None
        c = vec.sgn(ix.a, 64)
        if c < 1 or any(ob == b and t == ix.t and vec.sgn(a, 64) >= c for ob, t, a in self.run.wr):
            return None
        g = ('left', c)
        self.range[g] = (0, 0xFFFFFFFF)
        return self.sym(g, 32)

    def readpos(self, h, d, i):
        """offset of the unit at hand relative to the form, None when the form is another position"""
        if self.rphi is None and h == self.h1:
            if len(d) == 1 and list(d.values()) == [1]:
                s = next(iter(d))
                if isinstance(s, tuple) and s[0] == 'phi' and any(p.id == s[1] for p in self.fn.blocks[h].phis()):
                    self.rphi = s
        return 0 if d == {self.rphi: 1} else None

    def hook(self, i, L, n, a, w):
        if n.startswith(CCC) and a:
            t = np.broadcast_to(np.asarray(a[0].t), len(L))
            x = np.broadcast_to(np.asarray(a[0].a, np.int64), len(L))
            bl = self.F.id({'BIG': 1})
            if ((t == 0) | ((t == bl) & (x == 0))).all():
                return self.shrink(Val(8, 0, np.where(t == bl, 0, self.ccc[np.minimum(x, CP)]).astype(np.uint64)))
        return NotImplemented


class Inner(Scan):
    """inner part; unit at hand: next unit of the lane"""
    def own(self, L, i):
        self.reads.setdefault(i.id, i)
        t = np.zeros(len(L), np.int32)
        a = self.Y[L].astype(np.uint64)
        b = a == CP
        t[b] = self.F.id({'BIG': 1})
        a[b] = 0
        return self.shrink(Val(32, t, a))

    def unit(self, v, b, ix, L, i):
        if not ix.scalar() or ix.t == TOP or self.run.wr is None:
            return None
        w = self.run.wr.get((b, ix.t, ix.a))
        if w is not None and w[2][L].all():
            return self.shrink(Val(32, w[0][L], w[1][L]))
        d = self.F.get(ix.t)
        if d == {self.jphi: 1} and vec.sgn(ix.a, 64) == self.joff:
            return self.own(L, i)
        if self.S is not None and d == {self.rphi: 1} and ix.a == 0:
            return self.shrink(Val(32, 0, self.S[L].astype(np.uint64)))
        return None


class Compose:
    def __init__(self, m, name, view=None, obj=(), args=None, cls=None):
        self.m = m
        f = self.f = m.fn(name)
        self.T = tables.load(m)
        loops = f.loops()
        top = [l for l in loops.values() if l.parent is None]
        # the loop over the string that has a loop over the following units in it
        cand = [l for l in top if any(k.parent is l for k in loops.values())]
        if len(cand) != 1:
            raise Undecided("loop structure")
        self.h1 = cand[0].header
        kids = [k for k in loops.values() if k.parent is not None and k.parent.header == self.h1]
        if len(kids) != 1:
            raise Undecided("loop structure")
        self.h2 = kids[0].header
        self.view, self.obj = view, obj
        v = self.v = (cls or Scan)(f, N, self.T, view=view, obj=obj, args=args)
        v.units = v.unit
        v.ccc = None
        v.range['BIG'] = (CP, 0xFFFFFFFF)
        v.agg = {}
        v.rphi = None
        v.h1 = self.h1
        v.skip = {self.h2}
        v.cuts = {self.h1, self.h2} | {l.header for l in top}
        for h in (self.h1, self.h2):
            for p in f.blocks[h].phis():
                if p.ty == 'i64':
                    v.range[('phi', p.id)] = (0, vec.LIM)       # positions; every change of them is compared below

    def rep(self, prevs):
        """value that stands for the previous class; -1: no unit kept yet"""
        return np.where(prevs == -1, self.prev0, prevs)

    def classes(self, ccc):
        self.ccc = self.v.ccc = ccc

    def outer(self):
        self.v.explore()
        v = self.v
        if v.rphi is None:
            raise Undecided("no read position")
        self.entries = [o for k, o in v.starts.items() if k[0] == self.h2]
        if not self.entries:
            raise Undecided("the inner loop is not reached")
        # functions of the starter and symbolic entries
        self.fun, self.lin, self.kind = {}, {}, {}
        has = np.zeros(N, bool)
        for o in self.entries:
            has[o.lanes] = True
        self.has = has
        for p in self.f.blocks[self.h2].phis():
            t = np.full(N, TOP, np.int32)
            a = np.zeros(N, np.uint64)
            for o in self.entries:
                x = o.phis[p.id]
                t[o.lanes] = x.t
                a[o.lanes] = x.a
            w = v.width(p.ty)
            ts = np.unique(t[has])
            as_ = np.unique(a[has])
            if len(ts) == 1 and ts[0] == TOP:
                raise Undecided("a carried value is not tracked")
            if len(ts) == 1 and len(as_) == 1:
                if ts[0] == 0:
                    self.kind[p.id] = ('const', vec.sgn(int(as_[0]), w))
                else:
                    self.kind[p.id] = ('lin', int(ts[0]), vec.sgn(int(as_[0]), w))
            else:
                self.kind[p.id] = ('fun', t, a)
        return self

    def inner(self, starters, ys, prevs, fixed=False):
        """lanes: parallel arrays of starter, next unit, previous class"""
        v = self.v
        n = len(starters)
        w = Inner(self.f, n, self.T, view=self.view, obj=self.obj)
        w.units = w.unit
        w.F, w.range, w.cuts, w.skip = v.F, v.range, v.cuts, ()
        w.ccc = self.ccc
        w.agg = {}
        w.Y = ys
        w.S = starters if fixed else None
        w.reads = {}
        o = self.entries[0]
        if any(e.env is None for e in self.entries):
            raise Undecided("entries")
        env = {}
        full = {}
        # values from before the loop: functions of the starter (any entry defines the lanes it brings)
        keys = set().union(*(e.env for e in self.entries))
        for k in keys:
            vs = [e.env.get(k) for e in self.entries]
            x = vs[0]
            if x is None or any(y is None for y in vs):
                continue
            if x.scalar() and all(y.scalar() and (y.t, y.a) == (x.t, x.a) for y in vs):
                env[k] = x
                continue
            t = np.full(N, TOP, np.int32)
            a = np.zeros(N, np.uint64)
            for e, y in zip(self.entries, vs):
                ya = y if y.scalar() else y.take(e.lanes)
                t[e.lanes] = ya.t
                a[e.lanes] = ya.a
            env[k] = w.shrink(Val(x.w, t[starters], a[starters]))
        # a value computed from the starter is the one of the first starter, not of what it was composed into
        self.stale = {k for k, x in env.items() if not x.scalar()}
        for k in self.stale if not fixed else ():
            env[k] = w.top(env[k].w)
        self.prev = self.kphi = self.jphi = None
        for p in self.f.blocks[self.h2].phis():
            kd = self.kind[p.id]
            wd = w.width(p.ty)
            if kd[0] == 'fun':
                env[p.id] = w.shrink(Val(wd, kd[1][starters], kd[2][starters]))
            elif kd[0] == 'const':
                if not -256 <= kd[1] <= 255 or self.prev is not None:
                    raise Undecided("a carried value that starts at %d" % kd[1])
                self.prev, self.prev0 = p.id, kd[1]
                env[p.id] = Val(wd, 0, self.rep(prevs).astype(np.int64).astype(np.uint64) & np.uint64(vec.mask(wd)))
            else:
                env[p.id] = w.sym(('phi', p.id), wd)
                d = v.F.get(kd[1])
                if d == {v.rphi: 1}:
                    if self.jphi is not None:
                        raise Undecided("two read positions")
                    self.jphi, self.j0 = p.id, kd[2]
                elif len(d) == 1 and list(d.values()) == [1] and next(iter(d))[0] == 'phi':
                    if self.kphi is not None:
                        raise Undecided("two write positions")
                    self.kphi, self.k0, self.ksym = p.id, kd[2], next(iter(d))
                else:
                    raise Undecided("a carried value that starts at %s" % (d,))
        if self.jphi is None or self.prev is None:
            raise Undecided("read position or previous class of the inner loop")
        w.jphi = ('phi', self.jphi)
        w.joff = 1 - self.j0             # the next unit, relative to the carried position
        w.rphi = v.rphi
        w.base_facts = dict(v.base_facts)
        w.starts, w.finds, w.todo, w.noinv, w.unitpos = {}, [], [], set(), {}
        mem = {}
        for k, x in o.mem.items():
            mem[k] = x if x.scalar() else w.top(x.w)
        w.region(self.h2, env, np.arange(n), mem)
        if w.todo:
            raise Undecided("another loop is entered")
        return w
