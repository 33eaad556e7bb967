"""Exact summaries of functions that scan one sequence of units with several dependent loops.

The function is cut at the headers of its scanning loops (loops that move a position over the input).  Between two
headers every path is explored over boxes: interval sets for the units at  mark+constant,  intervals for differences of
positions, exact values for everything else; paths that agree on all live values are merged.  Each header becomes a
position mark.  The loop-free pieces are then composed into finite automata over marked words (words.py), so the
result - the set of all words on which the function returns true, false or reads outside the input - covers
sequences of every length.
"""
import heapq
from math import gcd
import numpy as np
from ir import AnalysisError
import boxes
from boxes import V, K, T, Box, Env, Machine, Undecided, Dead, Split, _Cmp, add, scale, neg, mask, sgn, ctab, clean
import words

LIM = 1 << 30
FULLU = [(0, 0xFFFFFFFF)]


def rank(s):
    return (2, '') if s == 'Z' else (1, '') if s == 'N' else (0, s)


def dflt(p, q):
    if p == 'N':
        return (0, LIM)
    if q == 'Z':
        return (-1, LIM)
    if q == 'N':
        return (-LIM - 1, 0)
    return (-LIM - 1, LIM + 1)


class PBox(Box):
    def __init__(self):
        super().__init__()
        self.D = {}

    def copy(self):
        n = PBox()
        n.b, n.cp, n.D = dict(self.b), dict(self.cp), dict(self.D)
        return n

    def cset(self, k):
        return self.cp.get(k, FULLU)

    def dist(self, p, q):
        return self.D.get((p, q)) or dflt(p, q)

    def limit(self, p, q, lo=None, hi=None):
        """add a fact about position(p) - position(q); False when impossible"""
        if rank(p) > rank(q):
            return self.limit(q, p, None if hi is None else -hi, None if lo is None else -lo)
        if p == q:
            return (lo is None or lo <= 0) and (hi is None or hi >= 0)
        a, b = self.dist(p, q)
        a, b = a if lo is None else max(a, lo), b if hi is None else min(b, hi)
        self.D[(p, q)] = (a, b)
        return a <= b

    def show(self):
        o = []
        for k in sorted(self.cp, key=str):
            o.append("unit[%s%+d] in {%s}" % (k[0], k[1], ",".join("%X-%X" % p for p in self.cp[k][:6])))
        for k in sorted(self.D):
            o.append("%s-%s in %s" % (k + (self.D[k],)))
        return ", ".join(o)

    def merge(self, o):
        """exact union when the boxes differ in one atom only"""
        diff = []
        for k in set(self.cp) | set(o.cp):
            if self.cset(k) != o.cset(k):
                diff.append(('c', k))
        for k in set(self.D) | set(o.D):
            if self.dist(*k) != o.dist(*k):
                diff.append(('D', k))
        if self.b or o.b:
            return None
        if len(diff) > 1:
            return None
        n = self.copy()
        if not diff:
            return n
        kind, k = diff[0]
        if kind == 'c':
            n.cp[k] = Machine.merge(self.cset(k) + o.cset(k))
            return n
        a, b = sorted((self.dist(*k), o.dist(*k)))
        if b[0] > a[1] + 1:
            return None
        n.D[k] = (min(a[0], b[0]), max(a[1], b[1]))
        return n


def vkey(v):
    if isinstance(v, _Cmp):
        return ('cmp', v.p, v.neg, vkey(v.a), vkey(v.b))
    if v.top or v.ors or v.ands:
        return ('top', id(v)) if (v.ors or v.ands) else ('top',)
    if v.key is None:
        v.key = (v.w, v.c, tuple(sorted(v.sym.items(), key=str)), tuple(sorted(((k, t.tobytes()) for k, t in v.tab.items()), key=str)),
                 tuple(sorted(v.bits.items(), key=str)))
    return v.key


class Node:
    def __init__(self, h, own, env, mem, marks):
        self.h, self.own, self.env, self.mem, self.marks = h, own, env, mem, marks
        self.edges = []          # (target, assign, box)


class PosMachine(Machine):
    def __init__(self, fn, inp, length, tables, es=4, big=False, viewarg=None):
        super().__init__(fn, inp, length, None, es, None, False, big, viewarg)
        self.tables = tables
        self.undec, self.finds = [], []
        self.live = self.liveness()
        self.rpo = self.order()
        self.demand = self.demanded()
        self.slice = self.positions()
        self.sync = {h for h in self.loops if any(p.id in self.slice for p in fn.blocks[h].phis())}
        # code after a scanning loop is explored once for all states in which the loop is left
        self.cuts = {x for h in self.sync for b in self.loops[h].body for x in fn.blocks[b].succ
                     if x not in self.loops[h].body and x not in self.sync and fn.blocks[x].ins[-1].op != 'ret'}
        self.visits = 0
        self.rmemo, self.umemo = {}, {}
        self.regions = self.find_regions()

    # ---------------------------------------------------------------- static facts
    def liveness(self):
        fn = self.fn
        use, deff = {}, {}
        for b in fn.order:
            u, d = set(), set()
            for i in fn.blocks[b].ins:
                if i.op != 'phi':
                    for o in self.ops(i):
                        if o not in d:
                            u.add(o)
                    d.add(i.id)
            use[b], deff[b] = u, d | {p.id for p in fn.blocks[b].phis()}
        live = {b: set() for b in fn.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.order):
                out = set()
                for s in fn.blocks[b].succ:
                    ph = {p.id for p in fn.blocks[s].phis()}
                    out |= live[s] - ph
                    for p in fn.blocks[s].phis():
                        out |= {v for v, pb in p.x["in"] if pb == b and v.startswith('%')}
                n = use[b] | (out - deff[b])
                n |= {p.id for p in fn.blocks[b].phis()} & (use[b] | out)
                if n != live[b]:
                    live[b] = n
                    ch = True
        return live

    @staticmethod
    def ops(i):
        o = [x for x in i.o if isinstance(x, str) and x.startswith('%')]
        o += [v for v, _ in (i.x.get("vars") or []) if v.startswith('%')]
        return o

    def order(self):
        """reverse post-order in which loop bodies are contiguous"""
        fn = self.fn
        seen, out = set(), []

        def dfs(b):
            st = [(b, iter(self.succs(b)))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succs(s))))
                        break
                else:
                    out.append(x)
                    st.pop()
        dfs(fn.entry)
        return {b: n for n, b in enumerate(reversed(out))}

    def succs(self, b):
        """successors leaving the innermost loop first: they finish first and end up later in the order"""
        inner = None
        for h, l in self.loops.items():
            if b in l.body and (inner is None or len(l.body) < len(inner)):
                inner = l.body
        return sorted(self.fn.blocks[b].succ, key=lambda s: (inner is not None and s in inner))

    def demanded(self):
        """bits of every value that can influence anything but a bitwise accumulation"""
        fn = self.fn
        dem = {i.id: 0 for i in fn.instrs() if i.id}
        users = {}
        for i in fn.instrs():
            for o in (self.ops(i) if i.op != 'phi' else [v for v, _ in i.x["in"] if v.startswith('%')]):
                users.setdefault(o, []).append(i)
        w = lambda o: mask(self.width(fn.defs[o].ty)) if o in fn.defs else 0
        work = list(dem)
        while work:
            o = work.pop()
            if o not in fn.defs:
                continue
            m = 0
            for u in users.get(o, []):
                if u.op in ('phi', 'or', 'xor', 'select', 'freeze'):
                    if u.op == 'select' and u.o[0] == o:
                        m |= w(o)
                    else:
                        m |= dem[u.id]
                elif u.op == 'and':
                    c = next((int(x.split(':')[2]) for x in u.o if x.startswith('c:')), None)
                    m |= dem[u.id] if c is None else dem[u.id] & c
                elif u.op in ('trunc', 'zext'):
                    m |= dem[u.id] & w(o)
                else:
                    m |= w(o)
            m &= w(o)
            if m != dem[o]:
                dem[o] = m
                for q in (self.ops(fn.defs[o]) if fn.defs[o].op != 'phi' else [v for v, _ in fn.defs[o].x["in"]]):
                    if q in dem:
                        work.append(q)
        return dem

    def positions(self):
        """header phis from which addresses of input units are computed"""
        fn = self.fn
        heads = {p.id for h in self.loops for p in fn.blocks[h].phis()}
        inp = fn.args[self.inp]["id"] if self.inp is not None else None

        def back(o, seen):
            if o in seen or not isinstance(o, str):
                return
            seen.add(o)
            i = fn.defs.get(o)
            if i is None or i.op in ('load', 'call', 'invoke', 'alloca', 'icmp'):
                return
            ops = [v for v, _ in i.x["in"]] if i.op == 'phi' else (i.o[1:] if i.op == 'select' else list(i.o)) + [v for v, _ in (i.x.get("vars") or [])]
            for q in ops:
                back(q, seen)
        out = set()
        for i in fn.instrs():
            if i.op == 'load':
                s = set()
                back(i.o[0], s)
                if inp in s or (self.viewarg is not None and any(self.isview(q) for q in s)):
                    out |= s & heads
        return out

    def isview(self, o):
        i = self.fn.defs.get(o)
        if i is None or i.op != 'load':
            return False
        a = i.o[0]
        d = self.fn.defs.get(a)
        off = 0
        if d is not None and d.op == 'getelementptr' and not d.x.get("vars"):
            a, off = d.o[0], d.x.get("coff", 0)
        return a == self.fn.args[self.viewarg]["id"] and off == 8

    def deltas(self, phi):
        """constant steps of a header phi around its loop, None when it is not a counter"""
        fn = self.fn
        h = phi.blk.id
        body = self.loops[h].body
        out = set()
        ok = True

        def walk(o, d, n):
            nonlocal ok
            if n > 40:
                ok = False
                return
            if o == phi.id:
                out.add(d)
                return
            i = fn.defs.get(o)
            if i is None or i.blk.id not in body:
                ok = False
                return
            w = self.width(i.ty)
            if i.op in ('add', 'sub') and i.o[1].startswith('c:'):
                c = sgn(int(i.o[1].split(':')[2]), w)
                return walk(i.o[0], d + (c if i.op == 'add' else -c), n + 1)
            if i.op == 'getelementptr' and not i.x.get("vars"):
                return walk(i.o[0], d + i.x.get("coff", 0), n + 1)
            if i.op == 'phi' and i.blk.id != h:
                for v, _ in i.x["in"]:
                    walk(v, d, n + 1)
                return
            if i.op == 'select':
                walk(i.o[1], d, n + 1)
                return walk(i.o[2], d, n + 1)
            if i.op in ('bitcast', 'freeze', 'trunc', 'zext', 'sext'):
                return walk(i.o[0], d, n + 1)
            ok = False
        for v, pb in phi.x["in"]:
            if pb in body:
                walk(v, 0, 0)
        if not ok or len(out) != 1 or 0 in out:
            return None
        return out.pop()

    # ---------------------------------------------------------------- values
    def lin(self, v):
        """(bases, {position symbol: coefficient}, constant) of a linear value"""
        if v.top or v.ors or v.tab or v.bits:
            return None
        return ({k: sgn(x, v.w) for k, x in v.sym.items() if isinstance(k, tuple)},
                {k: sgn(x, v.w) for k, x in v.sym.items() if not isinstance(k, tuple)}, sgn(v.c, v.w))

    def rng(self, box, n, c):
        """range of a linear form over positions"""
        n = {k: x for k, x in n.items() if x}
        if not n:
            return c, c
        if len(n) == 1:
            (p, g), = n.items()
            lo, hi = box.dist(p, 'Z')
        elif len(n) == 2 and sum(n.values()) == 0:
            p, q = sorted(n, key=rank)
            g = n[p]
            lo, hi = box.dist(p, q)
        else:
            return None
        a, b = g * lo + c, g * hi + c
        return min(a, b), max(a, b)

    def lincmp(self, e, n, c, op):
        n = {k: x for k, x in n.items() if x}
        if not n:
            return {'eq': c == 0, 'lt': c < 0, 'le': c <= 0}[op]
        if len(n) == 1:
            (p, g), = n.items()
            q = 'Z'
        elif len(n) == 2 and sum(n.values()) == 0:
            p, q = sorted(n, key=rank)
            g = n[p]
        else:
            raise Undecided("comparison of unrelated positions %s" % n)
        lo, hi = e.box.dist(p, q)

        def truth(x):
            v = c + g * x
            return v == 0 if op == 'eq' else v < 0 if op == 'lt' else v <= 0
        if op == 'eq':
            if (-c) % g or not lo <= -c // g <= hi:
                return False
            x = -c // g
            if lo == hi:
                return True
            raise Split(('D', (p, q)), [r for r in ((lo, x - 1), (x, x), (x + 1, hi)) if r[0] <= r[1]])
        if truth(lo) == truth(hi):
            return truth(lo)
        a, b = lo, hi
        while b - a > 1:
            m = (a + b) // 2
            if truth(m) == truth(lo):
                a = m
            else:
                b = m
        raise Split(('D', (p, q)), [(lo, a), (b, hi)])

    CMP = {'eq': lambda x, y: x == y, 'ult': lambda x, y: x < y, 'ule': lambda x, y: x <= y}

    def cmp(self, e, p, a, b):
        if p in self.CMP and not (a.top or b.top or a.ors or b.ors or a.sym or b.sym or a.tab or b.tab):
            if (b.const() and a.bits) or (a.const() and b.bits):
                r = self.unit_cmp(e, p, a, b, self.CMP[p])
                if r is not None:
                    return r
        return super().cmp(e, p, a, b)

    def cmp_sym(self, e, p, a, b):
        la, lb = self.lin(a), self.lin(b)
        if la is None or lb is None:
            d = add(a, neg(b))
            if not d.top and not d.sym:
                return self.cmp(e, p, d, K(a.w, 0)) if p == 'eq' else self.both_sides(e, p, a, b)
            raise Undecided("comparison mixes positions and data")
        if la[0] != lb[0]:
            if p == 'eq' and (not la[0] or not lb[0]):
                return False         # pointers to objects are not null
            raise Undecided("comparison of unrelated pointers")
        d = dict(la[1])
        for k, x in lb[1].items():
            d[k] = d.get(k, 0) - x
        c = la[2] - lb[2]
        if p == 'eq':
            return self.lincmp(e, d, c, 'eq')
        op = 'lt' if p.endswith('lt') else 'le'
        if p[0] == 's' or la[0]:
            return self.lincmp(e, d, c, op)
        na, nb = self.lincmp(e, la[1], la[2], 'lt'), self.lincmp(e, lb[1], lb[2], 'lt')
        if na != nb:
            return nb
        return self.lincmp(e, d, c, op)

    def both_sides(self, e, p, a, b):
        raise Undecided("comparison of data-dependent addresses")

    def zext(self, e, a, w):
        if not isinstance(a, _Cmp) and not a.top and a.sym and a.w < w:
            l = self.lin(a)
            if l and not l[0]:
                if self.lincmp(e, l[1], l[2], 'lt'):
                    c = l[2] + (1 << a.w)
                else:
                    c = l[2]
                return V(w, c, clean(w, l[1]))
        return super().zext(e, a, w)

    def sext(self, e, a, w):
        l = self.lin(a)
        if l and not l[0] and l[1]:
            return V(w, l[2], clean(w, l[1]))
        return None

    def step(self, e, i):
        if i.op == 'sext':
            a = self.val(e, i.o[0], self.width(i.x["sty"]))
            if not isinstance(a, _Cmp):
                r = self.sext(e, a, self.width(i.ty))
                if r is not None:
                    e.env[i.id] = r
                    return None
        return super().step(e, i)

    def _gep_narrow(self, e, i):
        t = add(self.val(e, i.o[0]), K(64, i.x.get("coff", 0)))
        for v, s in i.x.get("vars") or []:
            x = self.val(e, v)
            if x.w != 64:
                x = self.sext(e, x, 64) or self.pointwise(64, x, K(x.w, 0), e.box, lambda p, q, n=x.w: sgn(p, n))
            t = add(t, scale(x, s))
        e.env[i.id] = t

    def norm(self, v, box):
        return v if isinstance(v, _Cmp) else super().norm(v, box)

    def load(self, e, i):
        p = self.val(e, i.o[0])
        sz = i.x.get("sz", 8)
        w = self.width(i.ty)
        if p.top or p.ors:
            return T(w)
        base = [k for k in p.sym if isinstance(k, tuple)]
        if len(base) != 1 or p.sym[base[0]] != 1:
            return T(w)
        b = base[0]
        rest = {k: sgn(v, 64) for k, v in p.sym.items() if k != b}
        c = sgn(p.c, 64)
        if b[0] == 'ga' and sz == 8 and b[1] in self.tables.ptr and not rest and not c and not p.tab and not p.bits:
            return V(64, 0, {('sec', self.tables.ptr[b[1]]): 1})
        if b[0] == 'sec':
            return self.section(e, i, b[1], p, rest, sz, w)
        if self.viewarg is not None and b == ('arg', self.viewarg) and not rest and sz == 8 and c in (0, 8):
            return V(64, 0, {'N': 1}) if c == 0 else V(64, 0, {('arg', self.inp): 1})
        if b == ('arg', self.inp):
            if p.tab or p.bits or len(rest) > 1 or any(x != self.es for x in rest.values()) or c % self.es or sz % self.es:
                raise Undecided("input read at an unknown position")
            sym = next(iter(rest), 'Z')
            out = K(w, 0)
            n = sz // self.es
            for j in range(n):
                k = (sym, c // self.es + j)
                self.inside(e, i, k)
                pos = (n - 1 - j) if self.big else j
                out = add(out, scale(self.zext(e, self.unit(k), w), 1 << (8 * self.es * pos)))
            return out
        return super().load(e, i)

    def inside(self, e, i, k):
        if k in e.seen:
            return
        e.seen.add(k)
        sym, c = k
        self.node.edges.append((('oob', i.where()), k, e.box.copy()))
        box = e.box
        if sym == 'Z':
            ok = c >= 0 and box.limit('N', 'Z', lo=c + 1)
        elif sym == 'N':
            ok = c < 0 and box.limit('N', 'Z', lo=-c)
        else:
            ok = box.limit(sym, 'Z', lo=-c) and box.limit(sym, 'N', hi=-1 - c)
        if not ok:
            raise Dead()

    def section(self, e, i, off, p, rest, sz, w):
        if rest:
            raise Undecided("table indexed by a position")
        x = self.tables.extent(off)
        if x is None:
            raise Undecided("unknown table")
        if not p.tab and not p.bits:
            c = off + sgn(p.c, 64)
            if not (x[0] <= c and c + sz <= x[1]):
                self.finds.append((i.where(), "reads byte %d of a table of %d bytes (%s)" % (c - x[0], x[1] - x[0], e.box.show())))
                raise Dead()
            return K(w, int.from_bytes(self.tables.raw[c:c + sz], 'little'))
        return self.dense(e, i, off, x, p, sz, w)

    def dense(self, e, i, off, x, p, sz, w):
        raise Undecided("data-dependent table index")

    def api_call(self, e, i, n, a):
        if 'ensure_tables' in n or 'tables_are_ready' in n:
            return K(1, 1)
        return NotImplemented

    def split(self, box, s):
        if s.atom[0] == 'D':
            out = []
            for lo, hi in s.parts:
                nb = box.copy()
                nb.D[s.atom[1]] = (lo, hi)
                out.append(nb)
            return out
        out = []
        for part in s.parts:
            if len(part):
                nb = box.copy()
                nb.cp[s.atom[1]] = part
                out.append(nb)
        return out

    # ---------------------------------------------------------------- regions
    def postdoms(self):
        """immediate post-dominator of every block"""
        fn = self.fn
        order = [b for b in fn.order if b in self.rpo]
        ex = '$exit'
        pd = {b: None for b in order}
        pd[ex] = {ex}
        ch = True
        allb = set(order) | {ex}
        cur = {b: allb for b in order}
        cur[ex] = {ex}
        while ch:
            ch = False
            for b in sorted(order, key=lambda x: -self.rpo[x]):
                ss = fn.blocks[b].succ or [ex]
                n = set.intersection(*[cur[x] for x in ss]) | {b}
                if n != cur[b]:
                    cur[b], ch = n, True
        out = {}
        for b in order:
            c = cur[b] - {b}
            out[b] = next((x for x in c if len(cur[x]) == len(c)), None)
        return out

    def find_regions(self):
        """table searches: header of a loop that does not move over the input -> (its blocks, the block behind it)"""
        fn = self.fn
        ip = self.postdoms()
        out = {}
        for h in self.loops:
            if h in self.sync or ip.get(h) in (None, '$exit'):
                continue
            stop = ip[h]
            body, work = {h}, [h]
            while work:
                for x in fn.blocks[work.pop()].succ:
                    if x != stop and x not in body:
                        body.add(x)
                        work.append(x)
            if body & self.sync or body & self.cuts or not all(fn.dominates(h, x) for x in body):
                continue
            if any(i.op in ('store', 'call', 'invoke', 'ret') and not (i.callee or '').startswith('llvm.') for x in body for i in fn.blocks[x].ins):
                continue
            if stop in self.sync:
                continue
            out[h] = (body, stop)
        return out

    def region(self, e, h, inc):
        """outcomes of a table search for all inputs, computed once per combination of live values"""
        body, stop = self.regions[h]
        outer = {o: e.env[o] for o in self.live[h] if o in e.env and o not in inc}
        used = {o for o in outer if any(o in self.alluses(x) for x in body | {stop})}
        key = (h, tuple(sorted((o, vkey(v)) for o, v in list(inc.items()) + [(o, outer[o]) for o in used])), frozenset(e.seen))
        if key not in self.rmemo:
            e0 = Env(PBox())
            e0.env = {o: v for o, v in e.env.items() if o in self.argids}
            e0.env.update({o: outer[o] for o in used})
            e0.env.update(inc)
            e0.seen = set(e.seen)
            save = self.node
            self.node = Node(None, None, {}, {}, ())
            outs = []
            u = len(self.undec)
            self.sweep(self.node, [(e0, h)], stop, outs, used | set(inc))
            ob = self.node.edges
            self.node = save
            res = []
            for e1, i1 in outs:
                new = {o: v for o, v in e1.env.items() if o not in used and o not in self.argids and o in self.live[stop]}
                new.update({o: self.norm(v, e1.box) for o, v in i1.items()})
                res.append((new, e1.box, e1.seen))
            # merge equal outcomes
            by = {}
            for new, bx, seen in res:
                l = by.setdefault(tuple(sorted((o, vkey(v)) for o, v in new.items())), [])
                again = True
                while again:
                    again = False
                    for x in l:
                        m = x[1].merge(bx)
                        if m is not None:
                            l.remove(x)
                            bx, seen, again = m, seen & x[2], True
                            break
                l.append((new, bx, seen))
            self.rmemo[key] = ([x for l in by.values() for x in l], ob, len(self.undec) == u)
        res, ob, ok = self.rmemo[key]
        if not ok:
            return []
        for t, k, bx in ob:
            m = self.meet(e.box, bx)
            if m is not None:
                self.node.edges.append((t, k, m))
        out = []
        for new, bx, seen in res:
            m = self.meet(e.box, bx)
            if m is not None:
                e2 = e.fork(m)
                e2.env.update(new)
                e2.seen |= seen
                out.append(e2)
        return out

    def alluses(self, b):
        if b not in self.umemo:
            u = set()
            for i in self.fn.blocks[b].ins:
                u |= {v for v, _ in i.x["in"]} if i.op == 'phi' else set(self.ops(i))
            self.umemo[b] = u
        return self.umemo[b]

    @staticmethod
    def meet(a, b):
        n = a.copy()
        for k, iv in b.cp.items():
            r, c = [], a.cset(k)
            if c is FULLU or c == FULLU:
                r = iv
            else:
                i = j = 0
                while i < len(c) and j < len(iv):
                    lo, hi = max(c[i][0], iv[j][0]), min(c[i][1], iv[j][1])
                    if lo <= hi:
                        r.append((lo, hi))
                    if c[i][1] < iv[j][1]:
                        i += 1
                    else:
                        j += 1
            if not r:
                return None
            n.cp[k] = r
        for (p, q), (lo, hi) in b.D.items():
            if not n.limit(p, q, lo, hi):
                return None
        return n

    # ---------------------------------------------------------------- exploration
    BUDGET = 1500000

    def explore(self, node, blk, frm):
        """all loop-free continuations of a node, merged wherever the live values agree"""
        self.node = node
        e = Env(PBox())
        e.env, e.mem = dict(node.env), dict(node.mem)
        self.sweep(node, [(e, blk)], None, None, ())

    def sweep(self, node, starts, stop, outs, keep):
        heap, pend, cnt = [], {}, 0

        def push(e, b):
            nonlocal cnt
            lv = self.live[b]
            env = {o: v for o, v in e.env.items() if o in lv or o in self.argids or o in keep}
            e.env = env
            key = (b, tuple(sorted((o, vkey(v)) for o, v in env.items() if o not in self.argids and o not in keep)),
                   tuple(sorted(((k, s, vkey(v)) for k, (s, v) in e.mem.items()), key=str)))
            if key in pend:
                l = pend[key]
                e2 = e
                again = True
                while again:
                    again = False
                    for x in l:
                        m = x.box.merge(e2.box)
                        if m is not None:
                            l.remove(x)
                            n = e2.fork(m)
                            n.seen = e2.seen & x.seen
                            e2, again = n, True
                            break
                l.append(e2)
                return
            pend[key] = [e]
            cnt += 1
            heapq.heappush(heap, (self.rpo[b], cnt, key))

        def run(e, b, k):
            stack = [(e, k)]
            while stack:
                e, k = stack.pop()
                self.visits += 1
                if self.visits > self.BUDGET:
                    raise Undecided("budget")
                r = self.block(e, b, k)
                if r[0] == 'fork':
                    stack += [(e.fork(bx), r[1]) for bx in r[2]]
                elif r[0] == 'goto':
                    t = r[1]
                    st = [e]
                    while st:
                        e1 = st.pop()
                        try:
                            inc = {}
                            for p in self.fn.blocks[t].phis():
                                for v, pb in p.x["in"]:
                                    if pb == b:
                                        inc[p.id] = self.val(e1, v, self.width(p.ty))
                            if t == stop:
                                outs.append((e1, inc))
                            elif t in self.sync:
                                self.arrive(node, t, b, e1, inc)
                            elif t in self.cuts:
                                self.cut(node, t, e1, inc)
                            elif t in self.regions and b not in self.regions[t][0]:
                                inc = {o: self.norm(v, e1.box) for o, v in inc.items()}
                                for e2 in self.region(e1, t, inc):
                                    push(e2, self.regions[t][1])
                            else:
                                e1.env.update({o: self.norm(v, e1.box) for o, v in inc.items()})
                                push(e1, t)
                        except Split as s:
                            st += [e1.fork(bx) for bx in self.split(e1.box, s)]
                elif r[0] == 'ret':
                    node.edges.append((('ret', r[1]), None, e.box))
        for e, b in starts:
            run(e, b, 0)
        while heap:
            _, _, key = heapq.heappop(heap)
            for e in pend.pop(key):
                run(e, key[0], 0)

    def block(self, e, b, k):
        ins = self.fn.blocks[b].ins
        while k < len(ins):
            i = ins[k]
            if i.op == 'phi':
                k += 1
                continue
            self.steps += 1
            try:
                r = self.step(e, i)
                if r is not None and r[0] == 'ret':
                    v = r[1]
                    if v is not None and not v.const():
                        v = self.settle(e, v)
                    return ('ret', None if v is None else v.c)
            except Split as s:
                return ('fork', k, self.split(e.box, s))
            except Dead:
                return ('dead',)
            except Undecided as u:
                if str(u) == 'budget':
                    raise
                self.undec.append((i.where(), "%s (%s)" % (u, e.box.show())))
                return ('dead',)
            if r is not None:
                return r if r[0] == 'goto' else ('dead',)
            k += 1
        return ('dead',)

    def settle(self, e, v):
        """a constant; splits the box as needed"""
        if isinstance(v, _Cmp):
            return K(1, int(self.bool(e, v)))
        v = self.norm(v, e.box)
        if v.const():
            return v
        if v.top or v.ors or v.sym:
            raise Undecided("a value carried by a loop is not tracked")
        self.split_big(e, v, K(v.w, 0))

    def arrive(self, src, t, frm, e, inc):
        fn = self.fn
        own = 'm' + t
        try:
            back = frm in self.loops[t].body
            phis = fn.blocks[t].phis()
            env = {o: v for o, v in e.env.items() if o in self.argids}
            prim = None
            for p in phis:
                d = self.deltas(p)
                if p.id in self.slice and d is not None:
                    prim = (p, d)
                    break
            if prim is None:
                raise Undecided("the loop does not move by a constant step")
            p0, d0 = prim
            s = self.es if p0.ty == 'ptr' else 1
            if abs(d0) != s:
                raise Undecided("the loop moves by %d units" % (d0 // s))
            l = self.lin(inc[p0.id])
            if l is None or len(l[1]) > 1 or any(x != s for x in l[1].values()) or l[2] % s:
                raise Undecided("the loop starts at an unknown position")
            sym, c = next(iter(l[1]), 'Z'), l[2] // s
            if back and sym != own:
                raise Undecided("the position of the loop is set to something else")
            for p in phis:
                v = inc[p.id]
                d = self.deltas(p)
                if d is not None and (p.id in self.slice or isinstance(v, V) and not v.const() or p is p0):
                    # value = v + (d/d0)(own' - (sym + c)) * s
                    r = d * s // d0
                    if d * s % d0:
                        raise Undecided("counters of different step")
                    f = add(v, V(v.w, -r * c, clean(v.w, {own: r}) if sym == 'Z' else clean(v.w, {own: r})))
                    if sym != 'Z':
                        f = add(f, V(v.w, 0, clean(v.w, {sym: -r}) if sym != own else {}))
                        if sym == own:
                            f = add(v, V(v.w, -r * c))
                    if f.top:
                        raise Undecided("counter of unknown value")
                    env[p.id] = f
                elif d is not None:
                    r = d * s // d0
                    if d * s % d0:
                        raise Undecided("counters of different step")
                    f = add(v, V(v.w, -r * c, clean(v.w, {own: r})))
                    if sym != 'Z' and sym != own:
                        f = add(f, V(v.w, 0, clean(v.w, {sym: -r})))
                    elif sym == own:
                        f = add(v, V(v.w, -r * c))
                    env[p.id] = f
                else:
                    if isinstance(v, V):
                        v = self.norm(v, e.box)
                        m = self.demand.get(p.id, mask(v.w))
                        if not v.top and not v.ors and not v.sym and m != mask(v.w):
                            v = self.bitop(e, 'and', v, K(v.w, m))
                        li = self.lin(v) if not v.const() else None
                        if li is not None and own not in li[1]:
                            env[p.id] = v
                            continue
                        k = self.whole(v)
                        if k is not None and k[0] in (sym, own) and abs(k[1] - c) <= 4:
                            # a unit that was read before: the same unit relative to the new position
                            if k[0] == own and sym != own:
                                raise Undecided("an earlier position of the same loop is still in use")
                            env[p.id] = self.unit((own, k[1] - c))
                            continue
                    env[p.id] = self.settle(e, v)
            for o in self.live[t]:
                if o in e.env and o not in env and o not in inc:
                    v = e.env[o]
                    if isinstance(v, _Cmp):
                        v = self.settle(e, v)
                    if own in self.marksof(v):
                        raise Undecided("an earlier position of the same loop is still in use")
                    env[o] = v
            mem = dict(e.mem)
        except Undecided as u:
            self.undec.append((fn.blocks[t].ins[0].where(), "%s (%s)" % (u, e.box.show())))
            return
        marks = set()
        for o, v in env.items():
            marks |= self.marksof(v)
        for _, v in mem.values():
            marks |= self.marksof(v)
        marks -= {'N', 'Z'}
        marks.add(own)
        self.link(src, t, own, env, mem, marks, (sym, c), e.box)

    @staticmethod
    def whole(v):
        """the unit that is this value"""
        if v.top or v.ors or v.ands or v.sym or v.tab or v.c or len(v.bits) < 8:
            return None
        ks = {k for k, _ in v.bits}
        if len(ks) != 1 or any(x != 1 << b for (_, b), x in v.bits.items()):
            return None
        return ks.pop()

    def cut(self, src, t, e, inc):
        env = {o: v for o, v in e.env.items() if o in self.argids}
        marks = set()
        for o in self.live[t]:
            v = inc.get(o, e.env.get(o))
            if v is None:
                continue
            if isinstance(v, _Cmp):
                v = self.settle(e, v)
            env[o] = v = self.norm(v, e.box)
            marks |= self.marksof(v)
        for _, v in e.mem.values():
            marks |= self.marksof(v)
        self.link(src, t, None, env, dict(e.mem), marks, None, e.box)

    def link(self, src, t, own, env, mem, marks, assign, box):
        key = (t, tuple(sorted((o, vkey(v)) for o, v in env.items() if o not in self.argids)),
               tuple(sorted(((k, s_, vkey(v)) for k, (s_, v) in mem.items()), key=str)))
        n = self.nodes.get(key)
        if n is None:
            n = self.nodes[key] = Node(t, own, env, mem, tuple(sorted(marks)))
            self.todo.append(n)
            if len(self.nodes) > 400:
                raise Undecided("budget")
        self.add_edge(src, n, assign, box)

    @staticmethod
    def add_edge(src, n, assign, box):
        again = True
        while again:
            again = False
            for x in src.edges:
                if x[0] is n and x[1] == assign:
                    m = x[2].merge(box)
                    if m is not None:
                        src.edges.remove(x)
                        box, again = m, True
                        break
        src.edges.append((n, assign, box))

    def marksof(self, v):
        if isinstance(v, _Cmp):
            return self.marksof(v.a) | self.marksof(v.b)
        out = set()
        if v.top:
            return out
        for p in (v.ors or []):
            out |= self.marksof(p)
        out |= {k for k in v.sym if not isinstance(k, tuple)}
        out |= {k[0] for k in v.tab if isinstance(k, tuple)} | {k[0][0] for k in v.bits if isinstance(k[0], tuple)}
        return out - {'N', 'Z'}

    def build(self):
        fn = self.fn
        env = {}
        for k, a in enumerate(fn.args):
            w = self.width(a["ty"])
            env[a["id"]] = V(64, 0, {('arg', k): 1}) if a["ty"] == 'ptr' else T(w)
        if self.length is not None:
            env[fn.args[self.length]["id"]] = V(64, 0, {'N': 1})
        self.argids = set(env)
        self.nodes, self.todo = {}, []
        self.start = Node(None, None, env, {}, ())
        self.explore(self.start, fn.entry, None)
        while self.todo:
            n = self.todo.pop()
            self.explore(n, n.h, 'sync')
        return self

    # ---------------------------------------------------------------- languages
    def sets(self):
        """every set of units that a path tests"""
        out = set()
        for n in [self.start] + list(self.nodes.values()):
            for _, _, bx in n.edges:
                for k, iv in bx.cp.items():
                    if iv != FULLU:
                        out.add(tuple(iv))
        return out


class Alphabet:
    """common refinement of interval sets: classes 2.. ; 0 and 1 are the end markers"""
    def __init__(self, sets):
        cuts = {0, 1 << 32}
        for s in sets:
            for lo, hi in s:
                cuts |= {lo, hi + 1}
        cuts = sorted(cuts)
        self.starts = cuts[:-1]
        self.ends = [c - 1 for c in cuts[1:]]
        st = np.array(self.starts, dtype=np.int64)
        sig = np.zeros((len(st), len(sets)), bool)
        self.sets = list(sets)
        for k, s in enumerate(self.sets):
            lo = np.array([a for a, _ in s], dtype=np.int64)
            hi = np.array([b for _, b in s], dtype=np.int64)
            j = np.searchsorted(lo, st, side='right') - 1
            sig[:, k] = (j >= 0) & (st <= hi[np.maximum(j, 0)])
        u, inv = np.unique(sig, axis=0, return_inverse=True)
        self.cls = inv.reshape(-1)
        self.n = len(u)
        self.member = {tuple(s): frozenset((np.nonzero(u[:, k])[0] + 2).tolist()) for k, s in enumerate(self.sets)}
        self.rep = {}
        for k, c in enumerate(self.cls):
            c = int(c) + 2
            best = self.rep.get(c)
            # prefer printable examples
            if best is None:
                self.rep[c] = self.starts[k]

    def classes(self, s):
        return self.member[tuple(s)]

    def spell(self, w):
        out = []
        for c, m in w:
            if c > 1:
                out.append("U+%04X" % self.rep[c])
        return " ".join(out) or "(empty)"


class Langs:
    """automata of a machine's pieces"""
    def __init__(self, mach, extra=()):
        self.m = mach
        self.al = Alphabet(sorted(mach.sets() | {tuple(s) for s in extra}))
        self.W = words.Words(self.al.n + 2)
        self.memo = {}
        self.bmemo = {}

    def true(self, marks):
        return self.W.valid(tuple(sorted(marks)))

    def guard(self, box, marks):
        W = self.W
        a = self.true(marks)
        for k, iv in sorted(box.cp.items(), key=str):
            if iv != FULLU:
                a = W.both(a, self.unitx(k, iv))
        for (p, q), (lo, hi) in sorted(box.D.items()):
            dl, dh = dflt(p, q)
            lo, hi = None if lo <= dl else lo, None if hi >= dh else hi
            if lo is not None or hi is not None:
                a = W.both(a, W.diff(p, q, lo, hi))
        return a

    def unitx(self, k, iv):
        return self.W.unit(k[0], k[1], self.al.classes(iv))

    def outside(self, k, marks):
        """the unit does not exist"""
        W = self.W
        return W.minus(self.true(marks), W.unit(k[0], k[1], range(2, W.C)))

    def rename(self, a, old, new):
        ms = [new if x == old else x for x in a.marks]
        srt = tuple(sorted(ms))
        perm = [ms.index(x) for x in srt]
        M = 1 << len(ms)
        sel = np.array([sum(((m >> i) & 1) << p for i, p in enumerate(perm)) for m in range(M)])
        return words.A(srt, a.d[:, :, sel], a.acc)

    def shift(self, a, own, sym, c):
        """the language of a with the mark own placed at sym+c"""
        W = self.W
        if own not in a.marks:
            return a
        t = '~' + own
        a = self.rename(a, own, t)
        a = W.both(a, W.diff(t, sym, c, c))
        return W.project(a, t)

    def empty(self, a):
        return self.W.witness(a) is None

    def out(self, n):
        """outcome -> language over the marks of n; outcomes: ('ret', v), ('oob', where), ('node', id, sym, c), ('over',)"""
        if ('out', id(n)) in self.memo:
            return self.memo[('out', id(n))]
        if n in self.stack:
            raise Undecided("loops that are not nested properly")
        self.stack.append(n)
        W = self.W
        r = {}

        def put(k, a):
            if not self.empty(a):
                r[k] = W.either(r[k], a) if k in r else a
        byt = {}
        for t, assign, box in n.edges:
            byt.setdefault((t if isinstance(t, tuple) else ('n', id(t)), assign), []).append((t, box))
        for (_, assign), l in byt.items():
            t = l[0][0]
            g = None
            for _, box in l:
                x = self.guard(box, n.marks)
                g = x if g is None else W.either(g, x)
            if isinstance(t, tuple) and t[0] == 'oob':
                put(t, W.both(g, self.outside(assign, n.marks)))
            elif isinstance(t, tuple):
                put(t, g)
            elif t.own and n.h is not None and (t.h == n.h or n.h in self.m.loops[t.h].body):
                put(('node', t, assign), g)
            elif not t.own:
                for k, a in self.out(t).items():
                    if k[0] == 'node' and n.h is not None and k[1].h != n.h and n.h not in self.m.loops[k[1].h].body:
                        raise Undecided("a loop is entered behind its header")
                    put(k, W.both(g, W.lift(a, n.marks) if set(a.marks) <= set(n.marks) else self.fail("a position is used before it is set")))
            else:
                for k, a in self.total(t).items():
                    if k[0] == 'node' and t.own == k[2][0]:
                        raise Undecided("a loop continues at a position found by an inner loop")
                    put(k, W.both(g, W.lift(self.shift(a, t.own, *assign), n.marks) if set(self.shift(a, t.own, *assign).marks) <= set(n.marks)
                                  else self.fail("a position is used before it is set")))
        self.stack.pop()
        self.memo[('out', id(n))] = r
        return r

    def fail(self, m):
        raise Undecided(m)

    def group(self, n):
        seen, work = {id(n): n}, [n]
        while work:
            x = work.pop()
            for k in self.out(x):
                if k[0] == 'node' and k[1].h == n.h and id(k[1]) not in seen:
                    seen[id(k[1])] = k[1]
                    work.append(k[1])
        return list(seen.values())

    def total(self, n):
        """run the whole loop from node n: outcome -> language over the marks of n (own mark: where the loop starts)"""
        if ('total', id(n)) in self.memo:
            return self.memo[('total', id(n))]
        W = self.W
        grp = self.group(n)
        marks = tuple(sorted(set().union(*[set(x.marks) for x in grp])))
        F = [x for x in marks if x != n.own]
        steps = []                       # (state, state', automaton)
        exits = {}
        ds = set()
        for x in grp:
            for k, a in self.out(x).items():
                if k[0] == 'node' and k[1].h == n.h:
                    if k[2][0] != n.own:
                        raise Undecided("the loop restarts at another position")
                    ds.add(k[2][1])
                    steps.append((id(x), id(k[1]), W.lift(a, marks)))
                else:
                    if k[0] == 'node' and k[2][0] == n.own:
                        raise Undecided("a loop continues at a position found by an inner loop")
                    exits.setdefault(k, []).append((id(x), W.lift(a, marks)))
        if ds - {1, -1} or len(ds) > 1:
            raise Undecided("the loop moves in both directions")
        d = ds.pop() if ds else 1
        # running past the ends of the word
        over = []
        edge = W.diff(n.own, 'N', 0, None) if d > 0 else W.minus(self.true([n.own]), W.diff(n.own, 'Z', 0, None))
        for q, q2, a in steps:
            b = W.both(a, edge)
            if not self.empty(b):
                over.append((q, b))
        if over:
            exits[('over', self.m.fn.blocks[n.h].ins[0].where())] = over
        r = {}
        for k, ex in exits.items():
            r[k] = self.runs(n, marks, steps, ex, d)
        r = {k: a for k, a in r.items() if not self.empty(a)}
        self.memo[('total', id(n))] = r
        return r

    def runs(self, n, marks, steps, ex, d):
        """words on which the loop, started at the own mark in state n, leaves through one of the exits"""
        W = self.W
        own = marks.index(n.own)
        bit = 1 << own
        obs = [a for _, _, a in steps] + [a for _, a in ex]
        S = len(steps)
        nop = [[(j, steps[j][1]) for j in range(S) if steps[j][0] == q] for q in ()]
        fwd, bwd, ext = {}, {}, {}
        for j, (q, q2, _) in enumerate(steps):
            fwd.setdefault(q, []).append((j, q2))
            bwd.setdefault(q2, []).append((j, q))
        for j, (q, _) in enumerate(ex):
            ext.setdefault(q, []).append(S + j)
        # residual automata: after the mark has been read
        dead = [W.dead(a) for a in obs]
        allacc = []
        for a in obs:
            allacc.append(None)
        st0 = id(n)

        def adv(pend, c, m):
            out = set()
            for j, s in pend:
                t = int(obs[j].d[s, c, m & ~bit])
                if t in dead[j]:
                    return None
                out.add((j, t))
            return out

        def oblige(pend, pre, j, c, m):
            """condition j holds with the own mark at this letter"""
            t = int(obs[j].d[pre[j], c, (m & ~bit) | bit])
            if t in dead[j]:
                return None
            p = set(pend)
            p.add((j, t))
            return p

        # state: (phase, q, prefix states, pending)
        def step(s, c, m):
            ph, q, pre, pend = s
            np_ = adv(pend, c, m)
            if np_ is None:
                return
            here = bool(m & bit)
            pre2 = tuple(int(obs[j].d[pre[j], c, m & ~bit]) for j in range(len(obs))) if ph != 2 else ()
            if ph == 2:
                if here and d > 0:
                    return
                yield (2, None, (), frozenset(np_))
                return
            if d > 0:
                if ph == 0 and not here:
                    yield (0, None, pre2, frozenset(np_))
                    return
                if ph == 1 and here:
                    return
                q = st0 if ph == 0 else q
                for j in ext.get(q, []):
                    p = oblige(np_, pre, j, c, m)
                    if p is not None:
                        yield (2, None, (), frozenset(p))
                for j, q2 in fwd.get(q, []):
                    p = oblige(np_, pre, j, c, m)
                    if p is not None:
                        yield (1, q2, pre2, frozenset(p))
                return
            # backwards: the exit comes first in the word
            if ph == 0:
                if not here:
                    yield (0, None, pre2, frozenset(np_))
                for q1 in ext:
                    if here and q1 != st0:
                        continue
                    for j in ext[q1]:
                        p = oblige(np_, pre, j, c, m)
                        if p is not None:
                            yield (2, None, (), frozenset(p)) if here else (1, q1, pre2, frozenset(p))
                return
            # ph == 1: the next letter to the left was entered in state q
            for j, q1 in bwd.get(q, []):
                if here and q1 != st0:
                    continue
                p = oblige(np_, pre, j, c, m)
                if p is not None:
                    yield (2, None, (), frozenset(p)) if here else (1, q1, pre2, frozenset(p))

        def acc(s):
            return s[0] == 2 and all(obs[j].acc[t] for j, t in s[3])
        return W.nfa(marks, [(0, None, tuple(0 for _ in obs), frozenset())], step, acc)

    def solve(self):
        self.stack = []
        return self.out(self.m.start)
