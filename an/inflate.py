"""C30: the inflater stays inside its buffers."""
import time
import ir
from bounds import Bounds, Lin, L, Obl, sconst, uconst, width, norm, infeasible

THRESH = [0, 1, 7, 15, 18, 31, 127, 255, 287, 288, 319, 32767, 65535]


class Inflate(Bounds):
    """adds the elements of arrays and the canonical Huffman code tables"""

    def __init__(self, fn, objs, sizes, shared=None, deadline=None):
        self.sizes = set(sizes)
        self.level = {}
        self.terms, self.axt, self.zero0 = {}, {}, set()
        self.esz, self.reg = {}, {}
        self.writes = set()           # globals this function fills
        super().__init__(fn, objs, shared, deadline)

    # ---- arrays
    def by_region(self):
        self.reg = {}
        for acc in self.accesses:
            i, pv, n, kind = acc
            r = self.region(self.ptr(pv))
            if r is None or r[0][0] == "arg":
                continue
            if r[0][0] == "global" and r[0][1] not in self.writes:
                continue
            self.reg.setdefault(r, []).append(acc)
        self.esz = {}
        for r, accs in self.reg.items():
            s = {n for i, pv, n, k in accs if isinstance(n, int)}
            self.esz[r] = s.pop() if len(s) == 1 else None

    def whole(self, acc, r):
        """the memset / memcpy touches whole members only"""
        i, pv, n, kind = acc
        return True

    def init_content(self):
        self.content = {}
        self.by_region()
        for r, accs in self.reg.items():
            if not self.esz[r]:
                continue
            if r not in self.level:
                self.level[r] = 0
            self.set_level(r)

    def set_level(self, r):
        n = self.level[r]
        w = self.esz[r] * 8
        th = [x for x in THRESH if x < (1 << (w - 1))]
        if n < len(th):
            self.content[r] = (0, th[n], self.esz[r])
        else:
            self.content.pop(r, None)

    def reset(self):
        super().reset()
        self._hist, self._rec, self._bases = None, None, None
        self.near = set()
        self._trip = {}

    def roots(self):
        yield from super().roots()
        for i in self.fn.instrs():
            if i.op == "store":
                r = self.region(self.ptr(i.o[1]))
                if r is not None and r[0][0] != "arg":
                    yield i.o[0]
        for i, pv, n, k in self.accesses:
            if k == "memset":
                yield i.o[1]

    # ---- what the loops do
    def store_ptr(self, i):
        return self.ptr(i.o[1])

    def hists(self):
        """region -> (loop, increment store) of arrays of counters"""
        if self._hist is None:
            self._hist = {}
            for r, accs in self.reg.items():
                inc = []
                ok = True
                for i, pv, n, k in accs:
                    if k == "store":
                        if sconst(i.o[0]) == 0:
                            continue
                        a = self.d(i.o[0])
                        ld = None
                        if a is not None and a.op == "add" and "c:32:1" in a.o:
                            ld = self.d(a.o[0] if a.o[1] == "c:32:1" else a.o[1])
                        if ld is not None and ld.op == "load" and ld.o[0] == pv and ld.blk.id == i.blk.id:
                            inc.append((i, ld))
                        else:
                            ok = False
                    elif k == "memset":
                        ok = ok and uconst(i.o[1]) == 0
                    elif k == "memcpy-to":
                        ok = False
                if ok and inc:
                    lps = [self.fn.loop_of(i.blk.id) for i, _ in inc]
                    if len(inc) == 1 and lps[0] is not None:
                        self._hist[r] = (lps[0], inc[0][0], inc[0][1])
        return self._hist

    def zeroed_before(self, r, lp):
        """the whole region is set to zero each time before the loop is entered"""
        return self.covered(r, lambda b: self.fn.dominates(b, lp.header) and b not in lp.body and
                            self.parent_has(lp, b), zero=True)

    def parent_has(self, lp, b):
        return lp.parent is None or b in lp.parent.body

    def bounds_of(self, r):
        o, mem = r
        if mem is None:
            return None
        return mem[0], mem[0] + mem[1]

    def covered(self, r, ok, zero=False):
        """stores in blocks accepted by ok write every element of the region"""
        b = self.bounds_of(r)
        if b is None:
            return False
        iv = []
        for i, pv, n, k in self.accs_obj(r):
            if k in ("store", "memset") and zero and sconst(i.o[0] if k == "store" else i.o[1]) != 0:
                continue
            if k == "memset":
                ln = uconst(i.o[2])
                off = self.ptr(pv)[2]
                if ln is not None and off.const() and ok(i.blk.id):
                    iv.append((off.c, off.c + ln))
            elif k == "store":
                off = self.ptr(pv)[2]
                if off.const():
                    if ok(i.blk.id):
                        iv.append((off.c, off.c + n))
                    continue
                lp = self.fn.loop_of(i.blk.id)
                if lp is None or set(off.m) != {("t", lp.header)} or off.m[("t", lp.header)] != n:
                    continue
                if not all(self.fn.dominates(i.blk.id, l) for l in lp.latches):
                    continue
                # the loop is left through blocks accepted by ok, after enough rounds
                cnt = self.rounds_of(lp, i.blk.id, (b[1] - off.c) // n)
                if cnt and any(True for _ in [0]) and ok(self.after(lp)):
                    iv.append((off.c, off.c + cnt * n))
        at = b[0]
        for x, y in sorted(iv):
            if x <= at:
                at = max(at, y)
        return at >= b[1]

    def accs_obj(self, r):
        """accesses that may write the region (whole-object memsets included)"""
        for acc in self.accesses:
            p = self.ptr(acc[1])
            if p[0] == r[0]:
                yield acc

    def after(self, lp):
        ex = {s for _, s in lp.exits}
        return ex.pop() if len(ex) == 1 else lp.header

    def rounds_of(self, lp, blk, need):
        """number of times blk surely runs before the loop is left (None: unknown)"""
        t = L(("t", lp.header))
        cand = {need}
        for e in self.inv.get(lp.header, ()):
            if set(e.m) == {("t", lp.header)} and e.m[("t", lp.header)] < 0:
                k = e.c // -e.m[("t", lp.header)]
                cand |= {k, k + 1}
        for n in sorted(cand, reverse=True):
            if n <= 0:
                continue
            ok = True
            for x, s in lp.exits:
                done = t + 1 if self.fn.dominates(blk, x) else t
                if not self.walk(x, list(self.edge(x, s)), done - n, [100]):
                    ok = False
                    break
            if ok:
                return n
        return None

    def initialised(self, r):
        """every element is written before any is read"""
        if r[0][0] != "alloca":
            return True
        loads = [i.blk.id for i, pv, n, k in self.reg[r] if k in ("load", "memcpy-from")]
        incs = self.hists().get(r)
        return self.covered(r, lambda b: all(self.fn.dominates(b, l) for l in loads))

    def check_content(self):
        bad = False
        for r in list(self.content):
            lo, hi, n = self.content[r]
            if not self.region_ok(r, lo, hi):
                self.level[r] += 1
                self.set_level(r)
                bad = True
        return bad

    def region_ok(self, r, lo, hi):
        if ("init", r) not in self.spec_off and not self.initialised(r):
            self.level[r] = 999
            return False
        h = self.hists().get(r)
        for i, pv, n, k in self.accs_obj(r):
            q = self.region(self.ptr(pv))
            if q != r:
                # something that reaches over several members
                if k in ("memset",) and uconst(i.o[1]) == 0:
                    continue
                if k == "memcpy-to" and q is not None and q[0] == r[0]:
                    self.level[r] = 999
                    return False
                continue
            if k == "memset":
                v = uconst(i.o[1])
                if v is None and self.esz[r] == 1:
                    e = self.lin(i.o[1])
                    if not (self.walk(i.blk.id, [], e - lo, [300]) and self.walk(i.blk.id, [], Lin(hi) - e, [300])):
                        return False
                elif v is None or (v != 0 and self.esz[r] != 1) or not lo <= v <= hi:
                    return False
            elif k == "memcpy-to":
                self.level[r] = 999
                return False
            elif k == "store":
                if h is not None and i is h[1]:
                    lp = h[0]
                    if not self.zeroed_before(r, lp):
                        self.level[r] = 999
                        return False
                    # the number of rounds bounds each counter
                    if not self.walk(i.blk.id, [], Lin(hi - 1) - L(("t", lp.header)), [200]):
                        return False
                    continue
                e = self.lin(i.o[0])
                if not (self.walk(i.blk.id, [], e - lo, [300]) and self.walk(i.blk.id, [], Lin(hi) - e, [300])):
                    return False
        return True

    # ---- canonical codes
    def idx(self, p, r):
        """element index as a form, or None"""
        b = self.bounds_of(r)
        e = p[2] - b[0]
        k = self.esz[r] if r in self.esz else None
        if not k or e.c % k or any(v % k for v in e.m.values()):
            return None
        return Lin(e.c // k, {l: v // k for l, v in e.m.items()})

    def recurrences(self):
        """region F -> (C, loop): F[k] = 2 * (F[k-1] + C[k-1]) for k >= 1, F[0] = 0"""
        if self._rec is None:
            self._rec = {}
            for r, accs in self.reg.items():
                sts = [i for i, pv, n, k in accs if k == "store" and sconst(i.o[0]) != 0]
                if len(sts) != 1 or any(k == "memcpy-to" or (k == "memset" and uconst(i.o[1]) != 0) for i, pv, n, k in accs):
                    continue
                s = sts[0]
                lp = self.fn.loop_of(s.blk.id)
                if lp is None or not all(self.fn.dominates(s.blk.id, l) for l in lp.latches):
                    continue
                ix = self.idx(self.store_ptr(s), r)
                t = ("t", lp.header)
                if ix is None or ix.m != {t: 1} or ix.c != 1:
                    continue
                e = self.lin(s.o[0])
                hl = self.header_leaves(lp.header)
                own = [v for v, l in hl.items() if l in e.m]
                C = None
                for l in e.m:
                    i = self.d(l[1]) if l[0] == "v" else None
                    if i is not None and i.op == "load" and i.blk.id in lp.body:
                        q = self.region(self.ptr(i.o[0]))
                        if q == r:
                            continue
                        C = (l, q, i) if C is None else "two"
                if C is None or C == "two" or C[1] is None or C[1] not in self.reg or self.esz.get(C[1]) is None:
                    continue
                jx = self.idx(self.ptr(C[2].o[0]), C[1])
                if jx is not None and jx != ix - 1 and (jx - ix).const() and C[1][0] == r[0]:
                    self.near.add((r[0], s.where(), "the first code of length k is made from the count of codes of length k%+d" % (jx - ix).c))
                if jx is None or jx != ix - 1 or e.m[C[0]] != 2 or e.c:
                    continue
                if len(own) == 1 and len(e.m) == 2 and e.m[hl[own[0]]] == 2:
                    phi = self.d(own[0])
                    if not all((v == s.o[0]) if p in lp.body else sconst(v) == 0 for v, p in phi.x["in"]):
                        continue
                elif not own and len(e.m) == 1:
                    continue
                else:
                    # F[k-1] read back
                    ok = False
                    for l in e.m:
                        i = self.d(l[1]) if l[0] == "v" else None
                        if i is not None and i.op == "load" and self.region(self.ptr(i.o[0])) == r:
                            ok = e.m[l] == 2 and self.idx(self.ptr(i.o[0]), r) == ix - 1 and len(e.m) == 2
                    if not ok:
                        continue
                if C[1][0] != r[0]:
                    continue
                if not self.zeroed_before(r, lp):
                    continue
                # every index up to the end is written
                b = self.bounds_of(r)
                n = (b[1] - b[0]) // self.esz[r]
                if self.rounds_of(lp, s.blk.id, n - 1) != n - 1:
                    continue
                self._rec[r] = (C[1], lp)
        return self._rec

    def trip(self, lp):
        """number of rounds as a form over values from outside, or None: left only at the header when t reaches it"""
        if lp.header not in self._trip:
            r = None
            if len(lp.exits) == 1 and lp.exits[0][0] == lp.header:
                fs = self.edge(lp.header, lp.exits[0][1])
                t = ("t", lp.header)
                if len(fs) == 1 and isinstance(fs[0], Lin) and fs[0].m.get(t) == 1:
                    e = L(t) - fs[0]                         # leaves when t - e >= 0
                    if all(self.dominates_out(lp.header, l) for l in e.m):
                        r = e
            self._trip[lp.header] = r
        return self._trip[lp.header]

    def bases(self):
        """region B -> dict: bucket offsets and the sorted symbols they point into"""
        if self._bases is None:
            self._bases = {}
            for r, accs in self.reg.items():
                sts = [i for i, pv, n, k in accs if k == "store" and sconst(i.o[0]) != 0]
                if len(sts) != 1 or any(k == "memcpy-to" or (k == "memset" and uconst(i.o[1]) != 0) for i, pv, n, k in accs):
                    continue
                s = sts[0]
                lp = self.fn.loop_of(s.blk.id)
                if lp is None or not all(self.fn.dominates(s.blk.id, l) for l in lp.latches):
                    continue
                t1 = ("t", lp.header)
                ix = self.idx(self.store_ptr(s), r)
                phi = self.d(s.o[0])
                if ix is not None and ix.m == {t1: 1} and phi is not None and phi.op == "phi":
                    l2 = self.fn.loops().get(phi.blk.id)
                    head = next((v for v, p in phi.x["in"] if l2 is not None and p not in l2.body), None)
                    if l2 is not None and l2.parent is lp and self.d(head) is not None and self.d(head).blk.id == lp.header:
                        g = self.bucket(lp, self.d(head), ix)
                        if g is not None:
                            self.near.add((r[0], s.where(), "the base of a bucket is taken after its symbols have been added"))
                if ix is None or ix.m != {t1: 1} or phi is None or phi.op != "phi" or phi.blk.id != lp.header:
                    continue
                g = self.bucket(lp, phi, ix)
                if g is not None and self.zeroed_before(r, lp):
                    g["B"] = r
                    self._bases[r] = g
        return self._bases

    def bucket(self, lp, phi, bix):
        """the counter phi of loop lp starts at 0 and grows by one exactly once per symbol whose length is bix"""
        init = [v for v, p in phi.x["in"] if p not in lp.body]
        back = [v for v, p in phi.x["in"] if p in lp.body]
        if len(init) != 1 or sconst(init[0]) != 0 or len(set(back)) != 1:
            return None
        j = self.d(back[0])
        if j is None or j.op != "phi":
            return None
        lp2 = self.fn.loops().get(j.blk.id)
        if lp2 is None or lp2.parent is not lp:
            return None
        t2 = ("t", lp2.header)
        for v, p in j.x["in"]:
            if p not in lp2.body:
                if v != phi.id:
                    return None
        grow = None
        for v, p in j.x["in"]:
            if p in lp2.body:
                alts = [(v, p)]
                q = self.d(v)
                if q is not None and q.op == "phi" and q.blk.id in lp2.body and q is not j:
                    alts = list(q.x["in"])
                for a, pb in alts:
                    if a == j.id:
                        continue
                    i = self.d(a)
                    if i is None or i.op != "add" or j.id not in i.o or "c:32:1" not in i.o or grow is not None:
                        return None
                    grow = i
        if grow is None or self.fn.loop_of(grow.blk.id) is not lp2:
            return None
        # guard of the growing block
        b = grow.blk.id
        guard = None
        cur = b
        while cur != lp2.header:
            pr = self.fn.blocks[cur].pred
            if len(pr) != 1:
                cur = self.fn.dom()[cur]
                continue
            fs = self.edge(pr[0], cur)
            if len(fs) == 2 and isinstance(fs[0], Lin) and isinstance(fs[1], Lin) and fs[0] == fs[1].scale(-1):
                e = fs[0]
                for l in e.m:
                    i = self.d(l[1]) if l[0] in ("v", "u") else None
                    if i is not None and i.op == "load" and i.blk.id in lp2.body:
                        q = self.region(self.ptr(i.o[0]))
                        k = e.m[l]
                        rest = (e - L(l).scale(k)).scale(-k)
                        if abs(k) == 1 and rest == bix and q in self.reg:
                            ix = self.idx(self.ptr(i.o[0]), q)
                            if ix is not None and all(self.dominates_out(lp2.header, x) and self.dominates_out(lp.header, x) for x in ix.m if x != t2):
                                guard, gix = q, ix - L(t2)
            cur = pr[0]
        if guard is None:
            return None
        for i, pv, n, k in self.accs_obj(guard):
            if k in ("store", "memset", "memcpy-to") and i.blk.id in lp.body and self.region(self.ptr(pv)) in (guard, None):
                return None
        return {"outer": lp, "inner": lp2, "count": j, "grow": grow, "lens": guard, "base": gix, "n": self.trip(lp2)}

    def trip_bound(self, g):
        """a constant the number of symbols does not exceed"""
        lens = self.bounds_of(g["lens"])
        o = next((r[0] for r, x in self.bases().items() if x is g), None)
        cand = {lens[1] - lens[0]} | {(r[1][1]) // self.esz[r] for r in self.reg if r[0] == o and r[1] is not None and self.esz.get(r)} | ({g["n"].c} if g["n"].const() else set())
        for k in sorted(cand):
            if self.walk(g["outer"].header, [], Lin(k) - g["n"], [200]):
                return k
        return None

    def bucket_store(self, i, pv):
        """the group whose counter indexes this store, if it is the store of that round"""
        for r, g in self.bases().items():
            if i.blk.id == g["grow"].blk.id:
                return g
        return None

    def hist_matches(self, g, C):
        """C counts exactly the lengths the buckets are made from"""
        h = self.hists().get(C)
        if h is None or g["n"] is None:
            return False
        lp, st, ld = h
        if self.trip(lp) is None or self.trip(lp) != g["n"]:
            return False
        ix = self.idx(self.store_ptr(st), C)
        if ix is None or ix.c or len(ix.m) != 1:
            return False
        (l, k), = ix.m.items()
        if k != 1:
            return False
        # the same value is stored in the lengths, at the index of the round
        for i, pv, n, kk in self.reg[g["lens"]]:
            if kk == "store" and i.blk.id in lp.body and self.fn.dominates(i.blk.id, st.blk.id):
                if self.idx(self.ptr(pv), g["lens"]) == g["base"] + L(("t", lp.header)) and self.linu(i.o[0]) == L(l):
                    return True
        # or the buckets read the same array
        i = self.d(l[1])
        if i is not None and i.op == "load" and self.region(self.ptr(i.o[0])) == g["lens"] and i.blk.id in lp.body:
            if self.idx(self.ptr(i.o[0]), g["lens"]) != g["base"] + L(("t", lp.header)):
                return False
            # and nothing writes it in between
            to = g["outer"].header
            return self.fn.dominates(lp.header, to) and not any(
                k in ("store", "memset", "memcpy-to") and self.region(self.ptr(pv)) in (g["lens"], None) and
                self.reach_avoiding(j.blk.id, to, lp.header) for j, pv, n, k in self.accs_obj(g["lens"]))
        return False

    def reach_avoiding(self, a, b, avoid):
        seen, st = set(), [s for s in self.fn.blocks[a].succ]
        while st:
            x = st.pop()
            if x in seen or x == avoid:
                continue
            if x == b:
                return True
            seen.add(x)
            st += self.fn.blocks[x].succ
        return False

    def learn(self):
        """after a first solution: which tables are canonical codes, and which loads read them when complete"""
        for F, (C, lp) in self.recurrences().items():
            o = F[0]
            B = N = None
            for b, g in self.bases().items():
                if b[0] == o and self.hist_matches(g, C):
                    n = self.trip_bound(g)
                    if n is not None:
                        B, N = b, Lin(n)
            self.axt[o] = (F, C, B, N)
        terms = {}
        for i in self.fn.instrs():
            if i.op == "load" and i.ty == "i32":
                p = self.ptr(i.o[0])
                r = self.region(p)
                if r is None or r[1] is None or p[2].const():
                    continue
                if r[0][0] == "global":
                    if r in self.shared.get("terms", ()):
                        terms[i.id] = r
                elif r[0][0] == "alloca" and r[0] in self.axt and r in self.axt[r[0]][:3] and self.stable0(i, r):
                    terms[i.id] = r
        for o, ax in self.axt.items():
            for r in ax[:2]:
                if self.first_zero0(r):
                    self.zero0.add(r)
        self.terms = terms
        self.spec, self.spec_off, self.dead = {}, set(), set()
        self.bad_terms = set()

    def stable0(self, i, r):
        """the load sees the tables of its object complete: after the loops that make them, or all zero"""
        F, C, B, N = self.axt[r[0]]
        guards = {F: self.recurrences()[F][1]}
        if B is not None:
            guards[B] = self.bases()[B]["outer"]
        blk = i.blk.id
        if any(blk in lp.body for lp in guards.values()):
            return False
        after = all(self.fn.dominates(lp.header, blk) for lp in guards.values())
        zb = set()
        if not after:
            for q in (F, C, B):
                if q is None:
                    continue
                ok = (lambda b: self.fn.dominates(b, blk) and not any(b in lp.body for lp in guards.values()))
                if not self.covered(q, ok, zero=True):
                    return False
                for j, pv, n, k in self.accs_obj(q):
                    z = (k == "store" and sconst(j.o[0]) == 0) or (k == "memset" and uconst(j.o[1]) == 0)
                    if z and ok(j.blk.id):
                        zb.add(j.blk.id)
        for j, pv, n, k in self.accs_obj(r):
            if k not in ("store", "memset", "memcpy-to"):
                continue
            q = self.region(self.ptr(pv))
            if q is not None and q not in (F, C, B) or j.blk.id in zb:
                continue
            need = [guards[q]] if q in guards else list(guards.values())
            if q == F and B is not None:
                need = [guards[F]]
            for lp in need:
                if j.blk.id not in lp.body and self.reach_avoiding(j.blk.id, blk, lp.header):
                    return False
        return True

    def lin0(self, v):
        r = self.terms.get(v)
        if r is not None:
            i = self.d(v)
            ix = self.gidx(self.ptr(i.o[0]), r, i.x["sz"])
            if ix is not None:
                return L(("a", r, ix))
        i = self.d(v)
        if i is not None and i.op == "load" and width(i.ty):
            w = self.forward(i)
            if w is not None and self.ty(w) == i.ty:
                return self.lin(w)
        return super().lin0(v)

    def forward(self, i):
        """the value the one store of a scalar put there, if every path to the load goes through it"""
        r = self.region(self.ptr(i.o[0]))
        if r is None or r[0][0] == "arg" or r not in self.reg or r[1] is None or self.esz.get(r) != r[1][1] or i.x["sz"] != r[1][1]:
            return None
        if any(k not in ("store", "load") for j, pv, n, k in self.reg[r]):
            return None
        for s, pv, n, k in self.reg[r]:
            if k != "store" or n != i.x["sz"] or not self.fn.dominates(s.blk.id, i.blk.id) or s.blk.id == i.blk.id and s.idx > i.idx:
                continue
            if any(k != "load" and j is not s and self.region(self.ptr(pv)) in (r, None) and
                   (self.reach_avoiding(j.blk.id, i.blk.id, s.blk.id) or j.blk.id == s.blk.id and j.idx > s.idx or j.blk.id == i.blk.id != s.blk.id)
                   for j, pv, n, k in self.accs_obj(r)):
                continue
            d = self.d(s.o[0])
            if d is None or d.blk.id == s.blk.id or not self.reach_avoiding(d.blk.id, i.blk.id, s.blk.id):
                return s.o[0]
        return None

    def gidx(self, p, r, k):
        e = p[2] - r[1][0]
        if e.c % k or any(v % k for v in e.m.values()):
            return None
        return Lin(e.c // k, {l: v // k for l, v in e.m.items()})

    def axiom_tables(self, o):
        """(F, C, B, N) of an object"""
        if o[0] == "global":
            return self.shared.get(("axioms", o), (None, None, None, None))
        return self.axt.get(o, (None, None, None, None))

    def first_zero(self, r):
        """element 0 is never set to anything but zero"""
        return r in self.zero0 or r in self.shared.get("zero0", ())

    def first_zero0(self, r):
        for i, pv, n, k in self.reg[r]:
            if k == "store" and sconst(i.o[0]) != 0:
                ix = self.idx(self.ptr(pv), r)
                if (ix is None or not self.walk(i.blk.id, [], ix - 1, [100])) and not self.cleared(r, i):
                    return False
        return True

    def cleared(self, r, s):
        """element 0 is set to zero between the store s and every use of the finished table"""
        lps = [lp for C, lp in self.recurrences().values() if C == r] + [lp for F, (C, lp) in self.recurrences().items() if F == r]
        uses = [j.blk.id for j, pv, n, k in self.reg[r] if k in ("load", "memcpy-from") and j.blk.id != s.blk.id]
        for z, pv, n, k in self.reg[r]:
            if k == "store" and sconst(z.o[0]) == 0 and self.idx(self.ptr(pv), r) == Lin(0) and z.blk.id != s.blk.id:
                if not any(self.reach_avoiding(s.blk.id, u, z.blk.id) for u in uses) and z.blk.id not in uses:
                    return True
        return False

    def extra_leaf(self, l):
        if l[0] != "a":
            return []
        _, r, ix = l
        x = L(l)
        out = []
        b = self.content.get(r) if r[0][0] == "alloca" else self.shared.get(r)
        if b:
            out += [x - b[0], Lin(b[1]) - x]
        F, C, B, N = self.axiom_tables(r[0])
        if r == F:
            lo = ix.c if all(q[0] == "t" and k > 0 for q, k in ix.m.items()) else 0
            if lo >= 1:
                e = x - L(("a", F, ix - 1)).scale(2) - L(("a", C, ix - 1)).scale(2)
                out += [e, e.scale(-1)]
        if r == B:
            out += [x]
            out += [(N if isinstance(N, Lin) else Lin(N)) - x - L(("a", C, ix))]
        if ix.const() and ix.c == 0 and (r == F or r == C) and self.first_zero(r):
            out += [x, x.scale(-1)]
        return out

    def subst(self, f, m):
        if isinstance(f, Lin):
            ar = [l for l in f.m if l[0] == "a" and any(q in m for q in l[2].m)]
            if ar:
                mm = dict(m)
                for l in ar:
                    mm[l] = L(("a", l[1], super(Inflate, self).subst(l[2], m)))
                return super().subst(f, mm)
        return super().subst(f, m)

    def closure(self, fs):
        out = super().closure(fs)
        for l in list(out):
            if l[0] == "a":
                out |= set(l[2].m)
        return out

    # ---- templates
    def more_candidates(self, h, hl):
        out = []
        lp = self.fn.loops()[h]
        p2 = L(("p2", h))
        t = ("t", h)
        for v, l in hl.items():
            i = self.d(v)
            if i.ty != "i32" or not any(sconst(a) == 0 for a, p in i.x["in"] if p not in lp.body):
                continue
            out += [p2 - 1 - L(l)]
            for k in (288, 320):
                out += [p2.scale(2 * k) - 2 * k - L(l)]
        # the code word is not below the first free code of the length before
        for bid in lp.body:
            if self.fn.loop_of(bid) is not lp:
                continue
            for i in self.fn.blocks[bid].ins:
                if i.op == "load" and i.ty == "i32":
                    e = self.lin(i.id)
                    for q in e.m:
                        if q[0] == "a" and self.axiom_tables(q[1][0])[0] == q[1] and q[2].m.get(t):
                            F, C = self.axiom_tables(q[1][0])[:2]
                            for v, l in hl.items():
                                out.append(L(l) - L(("a", F, q[2] - 1)) - L(("a", C, q[2] - 1)))
        return out

    def depends_on_codes(self, p):
        """the index is computed from tables of the object that were not recognised as those of a canonical code"""
        if self.axiom_tables(p[0])[3] is not None:
            return False
        for l in p[2].m:
            if l[0] == "a":
                return True
            i = self.d(l[1]) if l[0] in ("v", "u") else None
            if i is not None and i.op == "load":
                q = self.ptr(i.o[0])
                if q[0] == p[0] and q[2].m:
                    return True
        return False

    # ---- obligations
    def obligations(self):
        for acc in self.accesses:
            i, pv, n, kind = acc
            p = self.ptr(pv)
            yield i, kind, p, n

    def prove_access(self, i, kind, p, n):
        """(True | False | None, text)"""
        o, mem, off = p
        if o is None:
            return None, "pointer of unknown origin"
        if isinstance(n, tuple):
            n = self.linu(n[1])
        elif n is None:
            return None, "access of unknown size"
        else:
            n = Lin(n)
        if mem == "outside" or mem == "?":
            mem = None
        if mem is None and off.const() and self.members(o) is not None and kind in ("load", "store"):
            mem = self.member_at(o, off.c)
            if mem == "outside":
                return False, "outside of its object"
        if mem is None:
            lo, hi = Lin(), self.obj_size(o)
        else:
            lo, hi = Lin(mem[0]), Lin(mem[0] + mem[1])
        self.fail = None
        a = self.walk(i.blk.id, [], off - lo, [400])
        b = self.walk(i.blk.id, [], hi - off - n, [800])
        if not b and kind == "store":
            g = self.bucket_store(i, None)
            if g is not None and self.region(p) is not None:
                # the counter is below the number of symbols
                r = self.region(p)
                ix = self.idx(p, r)
                if ix == L(("v", g["count"].id)):
                    cap = (hi - lo).c // self.esz[r]
                    b = self.walk(i.blk.id, [], Lin(cap - 1) - L(("t", g["inner"].header)), [200])
        if a and b:
            return True, ""
        return False, " and ".join(x for x, y in (("before the beginning", a), ("beyond the end", b)) if not y)


# ------------------------------------------------------------------------------------------------ the whole analysis
def global_facts(m, names, deadline, log):
    """what the dynamic initialisers make of the global tables the inflater reads: {region: bounds, ...}"""
    shared = {"terms": set(), "zero0": set()}
    for g in names:
        fs = [f for f in m.fns.values() if any(("@" + g) in str(i.x) for i in f.instrs())]
        wr = []
        for f in fs:
            b = Inflate(f, {}, [], None, deadline)
            for i, pv, n, k in b.accesses:
                if k in ("store", "memset", "memcpy-to") and b.ptr(pv)[0] == ("global", g):
                    wr.append(f)
                    break
            else:
                if any(i.op in ("call", "invoke") and any(("@" + g) in str(o) for o in i.o) for i in f.instrs()):
                    wr.append(f)
        if len(wr) != 1:
            log.append("the table %s is filled by %d functions" % (g, len(wr)))
            continue
        f = wr[0]
        b = Inflate(f, {}, [], None, deadline)
        b.writes.add(g)
        b.by_region()
        b.R = b.relevant()
        b.solve()
        log.append(b)
        o = ("global", g)
        for r in b.content:
            if r[0] == o:
                shared[r] = b.content[r]
        b.learn()
        ax = b.axt.get(o)
        if ax:
            F, C, B, N = ax
            n = None
            if N is not None:
                n = N.c if N.const() else None
            shared[("axioms", o)] = (F, C, B if n is not None else None, n)
            shared["terms"] |= {x for x in (F, C, B) if x is not None}
            shared["zero0"] |= b.zero0
    return shared


def analyse(m, f, objs, sizes, deadline, log):
    used = {g["name"] for g in m.globals.values() if not g["const"] and not g["decl"] and
            any(("@" + g["name"]) in str(i.x) for i in f.instrs())}
    shared = global_facts(m, sorted(used), deadline, log)
    b = Inflate(f, objs, sizes, shared, deadline)
    b.solve()
    b.learn()
    if b.terms:
        b.solve()
    return b
