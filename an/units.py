"""Loops that treat a sequence of code points one by one: what they do for each value of the unit (built on vec.Vec)."""
import json, os
import numpy as np
import ir, tables, vec
from ir import AnalysisError
from boxes import Undecided
from vec import CP, TOP, Vec, Val, K

N = CP + 1
X = np.arange(N, dtype=np.uint64)
_d = {}


def uni():
    if not _d:
        _d.update(json.load(open(os.path.join(ir.VERIF, "data", "uni17.json"))))
    return _d


def flags(rs):
    m = np.zeros(N, bool)
    for a, b in rs:
        m[a:b + 1] = True
    return m


def u(c):
    return "U+%04X" % c if c < CP else "values above U+10FFFF"


def ul(cs):
    return " ".join(u(int(c)) for c in cs) or "nothing"


def big(v, lanes):
    t = np.zeros(len(lanes), np.int32)
    a = X[lanes].copy()
    b = lanes == CP
    if b.any():
        t[b] = v.F.id({'BIG': 1})
        a[b] = 0
    return v.shrink(Val(32, t, a))


def unit(v, b, ix, L, i):
    """the unit of the iteration: one position per loop, moving with the iteration count"""
    h = v.run.head
    if h is None or not ix.scalar() or ix.t == TOP:
        return None
    d = v.F.get(ix.t)
    if abs(d.get(('it', h), 0)) != 1:
        return None
    k = (b, ix.t, ix.a)
    if v.unitpos.setdefault(h, k) != k:
        return None
    return big(v, L)


class Loop:
    """one pass over the units"""
    def __init__(self, v, h):
        self.v, self.h = v, h
        self.f = v.fn
        rs = [r for r in v.runs if r.head == h]
        self.it = [r for r in rs if any(o.kind == 'back' and o.h == h for o in r.out) or any(e.kind == 'read' for e in r.events)]
        self.ex = [r for r in rs if r not in self.it]
        if len(self.it) != 1:
            raise Undecided("an iteration depends on more than the unit it looks at")
        self.it = self.it[0]
        self.where = self.f.blocks[h].ins[0].where()
        self.back = [o for o in self.it.out if o.kind == 'back' and o.h == h]
        self.ret = [o for o in self.it.out if o.kind == 'ret']
        self.leave = [o for o in self.it.out if o.kind == 'enter' or (o.kind == 'back' and o.h != h)]
        self.enter = [o for k, o in v.starts.items() if k[0] == h]
        self.pos = v.unitpos.get(h)

    def init(self, pid):
        vs = [o.phis[pid] for o in self.enter]
        return vs[0] if len(vs) == 1 else None

    def full(self, length):
        """True when the loop visits every position of a sequence of this length exactly once (front to back: 1, back to front: -1)"""
        v = self.v
        if self.pos is None:
            return 0
        b, t, a = self.pos
        d = v.F.get(t)
        a = vec.sgn(a, 64)
        form = v.canon({length: 1, ('it', self.h): -1})[0]
        if not self.ex or form not in v.base_facts or len(self.enter) != 1:
            return 0
        for r in self.ex:
            lo, hi = v.bounds(form, r)
            if (lo, hi) != (0, 0):
                return 0
        if d == {('it', self.h): 1} and a == 0:
            return 1
        if d == {length: 1, ('it', self.h): -1} and a == -1:
            return -1
        return 0

    def delta(self, pid, lanes=None):
        """(per-lane change of a carried number, ok mask)"""
        v = self.v
        ph = next(p for p in self.f.blocks[self.h].phis() if p.id == pid)
        me = v.F.id({('phi', pid): 1})
        d = np.zeros(N, np.int64)
        ok = np.zeros(N, bool)
        for o in self.back:
            x = o.phis[pid]
            t = np.broadcast_to(x.t, len(o.lanes))
            a = np.broadcast_to(np.asarray(x.a, dtype=np.uint64), len(o.lanes))
            g = t == me
            ok[o.lanes[g]] = True
            d[o.lanes[g]] = v.signed(a[g].copy(), x.w)
        return d, ok

    def carried(self, t):
        """phi id when the form is exactly one carried value of this loop"""
        f = self.v.F.of[t] if t not in (TOP,) else ()
        if len(f) == 1 and f[0][1] == 1 and isinstance(f[0][0], tuple) and f[0][0][0] == 'phi':
            return f[0][0][1]
        return None

    def writes(self, obj, down=False):
        """sequence of writes per lane -> (base form, count, matrix of values, problems)"""
        v = self.v
        base = None
        cnt = np.zeros(N, np.int64)
        vals = []
        prob = []
        for e in self.it.events:
            if e.kind == 'wild' or (e.kind == 'write' and e.obj not in (('buf', obj), obj) and e.obj[0] != 'alloca'):
                prob.append(('unsure', e.ins.where(), "a write that is not understood"))
                continue
            if e.kind == 'read' and e.obj == ('buf', obj):
                vals.append(('read', e, cnt[e.lanes].copy()))
                continue
            if e.kind != 'write':
                continue
            L = e.lanes
            t = np.broadcast_to(e.index.t, len(L))
            a = v.signed(np.broadcast_to(np.asarray(e.index.a, np.uint64), len(L)).copy(), 64)
            ts = np.unique(t)
            if base is None and len(ts) == 1 and ts[0] != TOP:
                base = int(ts[0])
            if base is None or (t != base).any():
                prob.append(('unsure', e.ins.where(), "a write at a position that is not tracked"))
                cnt[L] += 1
                continue
            want = -1 - cnt[L] if down else cnt[L]
            bad = a != want
            if bad.any():
                k = int(np.nonzero(bad)[0][0])
                prob.append(('bad', e.ins.where(), "for %s the value number %d is written at offset %d instead of %d" % (u(int(L[k])), int(cnt[L[k]]) + 1, int(a[k]), int(want[k]))))
            vals.append(('write', e, cnt[L].copy()))
            cnt[L] += 1
        return base, cnt, vals, prob

    def compare(self, R, vals, cnt, ref, lanes, down=False):
        """written values against the reference sequences; ref: dict cp -> tuple or None for the unit itself"""
        v = self.v
        K_ = int(cnt.max()) if len(cnt) else 0
        M = np.full((N, max(K_, 1)), -1, np.int64)
        for kind, e, at in vals:
            if kind != 'write':
                continue
            x = e.val
            t = np.broadcast_to(x.t, len(e.lanes))
            a = np.broadcast_to(np.asarray(x.a, np.uint64), len(e.lanes)).astype(np.int64)
            if (t == TOP).any():
                raise Undecided("a written value is not tracked at %s" % e.ins.where())
            bl = v.F.id({'BIG': 1})
            w = np.where((t == bl) & (a == 0), CP, a)
            if ((t != 0) & (t != bl)).any():
                raise Undecided("a written value is not tracked at %s" % e.ins.where())
            M[e.lanes, at] = w
        bad = []
        sel = np.zeros(N, bool)
        sel[lanes] = True
        plain = sel.copy()
        for c in ref:
            plain[c] = False
        pi = np.nonzero(plain)[0]
        wrong = pi[(cnt[pi] != 1) | (M[pi, 0] != pi)]
        bad += [int(c) for c in wrong]
        for c, s in ref.items():
            if sel[c]:
                g = [int(z) for z in M[c, :cnt[c]]]
                if down:
                    g = g[::-1]
                if tuple(g) != tuple(s):
                    bad.append(c)

        def got(c):
            g = [int(z) for z in M[c, :cnt[c]]]
            return ul(g[::-1] if down else g)
        return sorted(bad), got


def machine(m, name, view=None, obj=(), args=None, units=unit, n=N, cls=Vec):
    f = m.fn(name)
    v = cls(f, n, tables.load(m), view=view, obj=obj, args=args, units=units)
    v.range['BIG'] = (CP, 0xFFFFFFFF)
    v.agg = {}
    return v


def some(bad, f, n=4):
    return "; ".join(f(c) for c in bad[:n]) + (" (%d code points)" % len(bad) if len(bad) > n else "")
