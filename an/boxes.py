"""Abstract interpretation of scanning loops over partitions of the input (boxes).

A box is a product of value sets: one set of byte values per input byte that the code looks at
(or a union of intervals per 32-bit input unit) and an interval for the number of units left.
Values are separable sums  c + sum(sym) + sum_k F_k(byte_k) + sum(bit)  modulo 2^w, on which
the IR's arithmetic is exact as long as operands do not interfere; anything else is Top.
Branches that a box does not decide split the box.  Loop-carried values at sync headers are
related to X (units consumed) and Y (units produced) by a linear relation that is checked to
be inductive, so one step from every header covers inputs of every length.
"""
import numpy as np
from ir import AnalysisError

U = np.uint64
FULL = (1 << 62)


class Undecided(Exception):
    pass


class Dead(Exception):
    """the path ends here (a definite error was recorded)"""


class Split(Exception):
    """the box must be split: list of replacement domains for one atom"""
    def __init__(self, atom, parts):
        self.atom, self.parts = atom, parts


class V:
    __slots__ = ("w", "c", "sym", "tab", "bits", "ors", "top", "ands", "key")

    def __init__(self, w, c=0, sym=None, tab=None, bits=None, ors=None, top=False, ands=None):
        self.key = None
        self.ands = ands         # a value that is only known to be the bitwise and of these
        self.w, self.c = w, c & ((1 << w) - 1)
        self.sym, self.tab, self.bits, self.ors, self.top = sym or {}, tab or {}, bits or {}, ors, top

    def const(self):
        return not (self.sym or self.tab or self.bits or self.ors or self.top)

    def __repr__(self):
        if self.top:
            return "Top%d" % self.w
        if self.ors:
            return "Or(%s)" % self.ors
        return "V%d(%s%s%s%s)" % (self.w, hex(self.c), " +%s" % self.sym if self.sym else "", " tab%s" % sorted(self.tab) if self.tab else "",
                                  " bits%s" % sorted(self.bits) if self.bits else "")


def mask(w):
    return (1 << w) - 1


def T(w):
    return V(w, top=True)


def K(w, c):
    return V(w, c)


def clean(w, d):
    m = mask(w)
    return {k: v & m for k, v in d.items() if v & m}


def ctab(w, t):
    m = U(mask(w))
    out = {}
    for k, a in t.items():
        a = a & m
        if a.any():
            out[k] = a
    return out


def add(a, b):
    if a.top or b.top or a.ors or b.ors:
        return T(a.w)
    w = a.w
    sym = dict(a.sym)
    for k, v in b.sym.items():
        sym[k] = sym.get(k, 0) + v
    bits = dict(a.bits)
    for k, v in b.bits.items():
        bits[k] = bits.get(k, 0) + v
    tab = dict(a.tab)
    for k, v in b.tab.items():
        tab[k] = tab[k] + v if k in tab else v
    return V(w, a.c + b.c, clean(w, sym), ctab(w, tab), clean(w, bits))


def scale(a, n):
    if a.top or a.ors:
        return T(a.w) if n & mask(a.w) else K(a.w, 0)
    w = a.w
    n &= mask(w)
    return V(w, a.c * n, clean(w, {k: v * n for k, v in a.sym.items()}), ctab(w, {k: v * U(n) for k, v in a.tab.items()}),
             clean(w, {k: v * n for k, v in a.bits.items()}))


def neg(a):
    return scale(a, -1)


class Box:
    """domains of the atoms"""
    def __init__(self):
        self.b = {}          # k -> bool array 256
        self.cp = {}         # k -> list of (lo, hi)
        self.R = (0, FULL)
        self.default = None  # byte values allowed at all

    def copy(self):
        n = Box()
        n.default = self.default
        n.b, n.cp, n.R = dict(self.b), {k: list(v) for k, v in self.cp.items()}, self.R
        return n

    def bset(self, k):
        if k not in self.b:
            self.b[k] = np.ones(256, bool) if self.default is None else self.default.copy()
        return self.b[k]

    def cset(self, k):
        return self.cp.setdefault(k, [(0, 0xFFFFFFFF)])

    def show(self):
        o = []
        for k in sorted(self.b):
            s = np.nonzero(self.b[k])[0]
            r, i = [], 0
            while i < len(s):
                j = i
                while j + 1 < len(s) and s[j + 1] == s[j] + 1:
                    j += 1
                r.append("%02X" % s[i] if i == j else "%02X-%02X" % (s[i], s[j]))
                i = j + 1
            o.append("byte[%d] in {%s}" % (k, ",".join(r[:6])) if len(s) < 256 else "byte[%d] any" % k)
        for k in sorted(self.cp):
            o.append("unit[%d] in {%s}" % (k, ",".join("%X-%X" % p for p in self.cp[k][:6])))
        if self.R[1] == FULL:
            o.append("at least %d units left" % self.R[0])
        elif self.R[0] == self.R[1]:
            o.append("%d units left" % self.R[0])
        else:
            o.append("%d..%d units left" % self.R)
        return ", ".join(o)


class Env:
    def __init__(self, box):
        self.box, self.env, self.mem, self.out, self.ov = box, {}, {}, [], {}
        self.trail = []
        self.seen = set()

    def fork(self, box):
        e = Env(box)
        e.env, e.mem, e.out, e.ov, e.trail = dict(self.env), dict(self.mem), list(self.out), dict(self.ov), list(self.trail)
        e.seen = set(self.seen)
        return e


IDX = np.arange(256, dtype=np.uint64)


class Machine:
    """es: size of an input unit (1 or 4); inp/outp: argument numbers (IR) of the input pointer, output pointer;
    length: argument number of the length; inplace: writes go to the input buffer"""

    def __init__(self, fn, inp, length, outp=None, es=1, oes=None, inplace=False, big=False, viewarg=None):
        self.fn, self.mod = fn, fn.mod
        self.inp, self.length, self.outp, self.es, self.oes, self.inplace, self.big = inp, length, outp, es, oes, inplace, big
        self.viewarg = viewarg   # the input is a view passed by reference in this argument
        self.steps = 0
        self.boxes = 0
        self.oob = []
        self.loops = fn.loops()
        self.sync = {h for h, l in self.loops.items() if l.parent is None}

    # ---------------------------------------------------------------- values
    def width(self, ty):
        return int(ty[1:]) if ty.startswith('i') and ty[1:].isdigit() else 64

    def val(self, e, o, w=64):
        if o.startswith('c:'):
            _, ww, v = o.split(':')
            return K(int(ww), int(v))
        if o in e.env:
            return e.env[o]
        if o.startswith('%'):
            i = self.fn.defs.get(o)
            return T(self.width(i.ty) if i else w)
        if o == 'null' or o == 'zero':
            return K(w, 0)
        if o.startswith('@'):
            return V(64, 0, {('ga', o[1:]): 1})
        if o.startswith('g:@'):
            n, off = o[3:o.rindex('+')], o[o.rindex('+') + 1:]
            return V(64, int(off), {('ga', n): 1})
        return T(w)

    def comps(self, v, box):
        """components over the current box: list of (kind,key,possible-bit-mask)"""
        out = []
        for k, t in v.tab.items():
            s = t[box.bset(k)]
            m = 0
            if len(s):
                m = int(np.bitwise_or.reduce(s))
            out.append(('t', k, m))
        zero, one = {}, {}
        for (k, j), c in v.bits.items():
            z = self.knownbit(box, k, j)
            if z == 0:
                continue
            out.append(('b', (k, j), c))
        return out

    def knownbit(self, box, k, j):
        """0/1/None"""
        r = None
        for lo, hi in box.cset(k):
            if lo >> j == hi >> j:
                x = (lo >> j) & 1
            else:
                return None
            if r is None:
                r = x
            elif r != x:
                return None
        return r

    def norm(self, v, box):
        """drop impossible bits, turn known-one bits and singleton bytes into constants"""
        if v.top or v.ors:
            return v
        c, tab, bits = v.c, {}, {}
        for k, t in v.tab.items():
            s = t[box.bset(k)]
            if len(s) and (s == s[0]).all():
                c += int(s[0])
            else:
                tab[k] = t
        for (k, j), x in v.bits.items():
            z = self.knownbit(box, k, j)
            if z == 1:
                c += x
            elif z is None:
                bits[(k, j)] = x
        return V(v.w, c, v.sym, tab, bits)

    def single(self, v):
        """value depends on exactly one input byte: (k, table)"""
        if v.top or v.ors or v.sym or v.bits or len(v.tab) != 1:
            return None
        (k, t), = v.tab.items()
        return k, (t + U(v.c)) & U(mask(v.w))

    def disjoint(self, v, box):
        """(const, comps) with pairwise disjoint bit masks, or None.  Constant lanes are folded into byte tables."""
        if v.top or v.ors or v.sym:
            return None
        v = self.norm(v, box)
        cs = self.comps(v, box)
        used, c = 0, v.c
        ok = True
        m = c
        for _, _, x in cs:
            if m & x:
                ok = False
            m |= x
        if ok:
            return v, cs
        # fold constant lanes
        if v.bits:
            return None
        tab = dict(v.tab)
        c = v.c
        for k in tab:
            s = tab[k][box.bset(k)]
            x = int(np.bitwise_or.reduce(s)) if len(s) else 0
            if not x:
                continue
            lo = ((x & -x).bit_length() - 1) // 8 * 8
            hi = -(-x.bit_length() // 8) * 8
            lane = ((1 << hi) - 1) & ~((1 << lo) - 1)
            part = c & lane
            tab[k] = (tab[k] + U(part)) & U(mask(v.w))
            c &= ~lane
        v2 = V(v.w, c, {}, tab, {})
        cs = self.comps(v2, box)
        # the sum must not have overflowed any table: check against exact integers
        for k in tab:
            s = v.tab[k][box.bset(k)].astype(object)
            t = v2.tab.get(k)
            if t is not None and len(s) and ((t[box.bset(k)].astype(object) - s) < 0).any():
                return None
        m = c
        for _, _, x in cs:
            if m & x:
                return None
            m |= x
        return v2, cs

    def bitop(self, e, op, a, b):
        w = a.w
        box = e.box
        if a.const() and not b.const():
            a, b = b, a
        if a.const() and b.const():
            return K(w, {'and': a.c & b.c, 'or': a.c | b.c, 'xor': a.c ^ b.c}[op])
        if op == 'and' and b.const():
            if b.c == mask(w):
                return a
            if a.ands:
                return V(w, top=True, ands=[self.bitop(e, 'and', p, b) for p in a.ands])
            if b.c == 0:
                return K(w, 0)
            if a.ors:
                ps = [self.bitop(e, 'and', p, b) for p in a.ors]
                return V(w, ors=ps)
        if op == 'or' and b.const() and b.c == 0:
            return a
        sa, sb = self.single(self.norm(a, box)) if not a.top and not a.ors else None, self.single(self.norm(b, box)) if not b.top and not b.ors else None
        f = {'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor}[op]
        if sa and b.const():
            return V(w, 0, {}, ctab(w, {sa[0]: f(sa[1], U(b.c))}))
        if sa and sb and sa[0] == sb[0]:
            return V(w, 0, {}, ctab(w, {sa[0]: f(sa[1], sb[1])}))
        if b.const():
            # alignment of pointers etc. is out of reach
            d = self.disjoint(a, box)
            if d is None:
                return T(w)
            v, cs = d
            live = {(kk, key) for kk, key, m in cs}
            tab = {k: f(t, U(b.c)) if op == 'and' else t for k, t in v.tab.items()}
            if op == 'and':
                return V(w, v.c & b.c, {}, ctab(w, tab), clean(w, {k: c & b.c for k, c in v.bits.items()}))
            occ = 0
            for _, _, m in cs:
                occ |= m
            if op == 'or':
                keep = ~b.c & mask(w)
                return V(w, v.c | b.c, {}, ctab(w, {k: t & U(keep) for k, t in v.tab.items()}), clean(w, {k: c & keep for k, c in v.bits.items()}))
            if op == 'xor':
                if occ & b.c == 0:
                    return V(w, v.c ^ b.c, {}, v.tab, v.bits)
                tab, rest = {}, b.c
                for k, t in v.tab.items():
                    s = t[box.bset(k)]
                    m = int(np.bitwise_or.reduce(s)) if len(s) else 0
                    hi = -(-m.bit_length() // 8) * 8
                    lo = ((m & -m).bit_length() - 1) // 8 * 8 if m else 0
                    lane = ((1 << hi) - 1) & ~((1 << lo) - 1)
                    part = rest & lane
                    tab[k] = t ^ U(part)
                    rest &= ~lane
                if occ & rest:
                    return T(w)
                return V(w, v.c ^ rest, {}, ctab(w, tab), v.bits)
            return T(w)
        if op == 'or' or op == 'xor':
            da, db = self.disjoint(a, box), self.disjoint(b, box)
            if da and db:
                ma = da[0].c
                for _, _, m in da[1]:
                    ma |= m
                mb = db[0].c
                for _, _, m in db[1]:
                    mb |= m
                if ma & mb == 0:
                    return add(da[0], db[0])
                # lane-wise combination of tables over the same bytes
                if not (da[0].bits or db[0].bits) and set(da[0].tab) == set(db[0].tab):
                    tab = {}
                    ok = True
                    for k in da[0].tab:
                        tab[k] = f(da[0].tab[k], db[0].tab[k])
                    r = V(w, f(U(da[0].c), U(db[0].c)).item(), {}, ctab(w, tab))
                    # each lane pair must occupy bits no other component touches
                    m = r.c
                    seen = da[0].c | db[0].c
                    for k in da[0].tab:
                        x = int(np.bitwise_or.reduce(da[0].tab[k][box.bset(k)])) | int(np.bitwise_or.reduce(db[0].tab[k][box.bset(k)]))
                        if x & seen:
                            ok = False
                        seen |= x
                    if ok:
                        return r
            if op == 'or':
                return V(w, ors=(a.ors or [a]) + (b.ors or [b]))
        if op == 'and':
            da, db = self.disjoint(a, box), self.disjoint(b, box)
            if da and db and not (da[0].bits or db[0].bits) and set(da[0].tab) == set(db[0].tab):
                seen = da[0].c | db[0].c
                for k in da[0].tab:
                    x = int(np.bitwise_or.reduce(da[0].tab[k][box.bset(k)])) | int(np.bitwise_or.reduce(db[0].tab[k][box.bset(k)]))
                    if x & seen:
                        return T(w)
                    seen |= x
                return V(w, da[0].c & db[0].c, {}, ctab(w, {k: da[0].tab[k] & db[0].tab[k] for k in da[0].tab}))
            if da and db:
                return V(w, top=True, ands=[da[0], db[0]])
            if db and a.ands:
                return V(w, top=True, ands=a.ands + [db[0]])
            if da and b.ands:
                return V(w, top=True, ands=b.ands + [da[0]])
        return T(w)

    def lshr(self, e, a, n, arith=False):
        w = a.w
        if n == 0:
            return a
        if a.const():
            c = a.c
            if arith and c >> (w - 1):
                c -= 1 << w
            return K(w, c >> n)
        if a.ors and not arith:
            return V(w, ors=[self.lshr(e, p, n) for p in a.ors])
        if a.top:
            return a
        v = self.norm(a, e.box)
        s = self.single(v)
        if s:
            t = s[1]
            if arith:
                t = t.astype(object)
                t = np.array([((x - (1 << w)) if x >> (w - 1) else x) >> n for x in t], dtype=object)
                t = np.array([int(x) & mask(w) for x in t], dtype=np.uint64)
            else:
                t = t >> U(n)
            return V(w, 0, {}, ctab(w, {s[0]: t}))
        if v.sym:
            # exact division of symbolic linear forms by 2^n (pointer differences)
            sg = lambda x: x - (1 << w) if x >> (w - 1) else x
            if not v.tab and not v.bits and all(sg(x) % (1 << n) == 0 for x in v.sym.values()) and sg(v.c) % (1 << n) == 0:
                return V(w, sg(v.c) >> n, clean(w, {k: sg(x) >> n for k, x in v.sym.items()}))
            return T(w)
        d = self.disjoint(v, e.box)
        if d is None:
            return T(w)
        v, cs = d
        top = v.c
        for _, _, m in cs:
            top |= m
        if arith and top >> (w - 1):
            return T(w)
        return V(w, v.c >> n, {}, ctab(w, {k: t >> U(n) for k, t in v.tab.items()}), clean(w, {k: c >> n for k, c in v.bits.items()}))

    def pointwise(self, w, a, b, box, f):
        """apply a Python function to operands that depend on at most one byte"""
        a, b = self.norm(a, box), self.norm(b, box)
        if a.const() and b.const():
            try:
                return K(w, f(a.c, b.c))
            except ZeroDivisionError:
                return T(w)
        sa, sb = self.single(a), self.single(b)
        if (sa or a.const()) and (sb or b.const()) and not (sa and sb and sa[0] != sb[0]):
            k = (sa or sb)[0]
            dom = box.bset(k)
            out = np.zeros(256, np.uint64)
            for x in np.nonzero(dom)[0]:
                try:
                    out[x] = f(int(sa[1][x]) if sa else a.c, int(sb[1][x]) if sb else b.c) & mask(w)
                except ZeroDivisionError:
                    return T(w)
            return V(w, 0, {}, ctab(w, {k: out}))
        return T(w)

    def zext(self, e, a, w):
        if a.w == w:
            return a
        if a.ands:
            return V(w, top=True, ands=[self.zext(e, p, w) for p in a.ands])
        if a.top:
            return T(w)
        if a.ors:
            return V(w, ors=[self.zext(e, p, w) for p in a.ors])
        v = self.norm(a, e.box)
        if v.const():
            return K(w, v.c)
        s = self.single(v)
        if s:
            return V(w, 0, {}, ctab(w, {s[0]: s[1]}))
        if v.sym:
            return T(w)
        lo, hi = self.exact_range(v, e.box)
        if lo is not None and lo >= 0 and hi <= mask(a.w):
            return self.widen_to(v, w, e.box)
        d = self.disjoint(v, e.box)
        if d:
            return V(w, d[0].c, {}, dict(d[0].tab), dict(d[0].bits))
        return T(w)

    def widen_to(self, v, w, box):
        sg = lambda x, ww: x - (1 << ww) if x >> (ww - 1) else x
        tab = {}
        for k, t in v.tab.items():
            s = t[box.bset(k)].astype(object)
            # signed representation of table entries
            tt = np.array([sg(int(x), v.w) & mask(w) for x in t], dtype=np.uint64)
            tab[k] = tt
        return V(w, sg(v.c, v.w), {}, ctab(w, tab), clean(w, {k: sg(c, v.w) for k, c in v.bits.items()}))

    def exact_range(self, v, box):
        """min/max of the value read with signed coefficients, as an unbounded integer"""
        sg = lambda x: x - (1 << v.w) if x >> (v.w - 1) else x
        if v.sym or v.top or v.ors:
            return None, None
        lo = hi = sg(v.c)
        for k, t in v.tab.items():
            s = t[box.bset(k)].astype(object)
            s = [sg(int(x)) for x in s]
            if not s:
                return 0, 0
            lo += min(s)
            hi += max(s)
        byk = {}
        for (k, j), c in v.bits.items():
            byk.setdefault(k, []).append((j, sg(c)))
        for k, l in byk.items():
            r = self.prefix_range(box, k, l)
            lo += r[0]
            hi += r[1]
        return lo, hi

    def prefix_range(self, box, k, l):
        """range of sum(coef*bit) over the interval set of unit k"""
        pf = self.prefix(box, k, l)
        if pf:
            s, t = pf  # value = (c >> s) << t
            return min(lo >> s for lo, hi in box.cset(k)) << t, max(hi >> s for lo, hi in box.cset(k)) << t
        lo = hi = 0
        for j, c in l:
            z = self.knownbit(box, k, j)
            if z != 0:
                hi += max(c, 0)
                lo += min(c, 0)
            if z == 1:
                lo += c if c > 0 else 0
                hi += c if c < 0 else 0
        return lo, hi

    def prefix(self, box, k, l):
        """is sum(coef*bit_j) == (unit >> s) << t on this box?"""
        d = dict(l)
        top = max(hi for lo, hi in box.cset(k)).bit_length()
        js = sorted(d)
        if not js:
            return None
        s = js[0]
        if d[s] <= 0 or d[s] & (d[s] - 1):
            return None
        t = d[s].bit_length() - 1
        for j in range(s, max(top, s + 1)):
            if self.knownbit(box, k, j) == 0 and j not in d:
                continue
            if d.get(j) != 1 << (j - s + t):
                return None
        return s, t

    # ---------------------------------------------------------------- comparisons
    def split_byte(self, box, k, sel):
        d = box.bset(k)
        raise Split(('b', k), [d & sel, d & ~sel])

    def overlapping(self, e, a):
        """an or of parts that share bits: case distinction on the byte with the fewest values that takes part in it"""
        box = e.box
        r = None
        for x in a.ors:
            x = self.norm(x, box)
            r = x if r is None else self.bitop(e, 'or', r, x)
        if not r.ors:
            return r
        if any(x.top or x.sym or x.ors for x in r.ors):
            raise Undecided("comparison of an or-combination")
        ks = [(int(box.bset(k).sum()), repr(k), k) for k in {k for x in r.ors for k in x.tab}]
        ks = [x for x in ks if x[0] > 1]
        self.overlaps = getattr(self, 'overlaps', 0) + 1
        if not ks or self.overlaps > 600:
            raise Undecided("comparison of an or-combination")
        k = min(ks)[2]
        ix = np.flatnonzero(box.bset(k))
        sel = np.zeros(256, bool)
        sel[ix[:len(ix) // 2]] = True
        self.split_byte(box, k, sel)

    def cmp(self, e, p, a, b):
        """True/False, or raises Split"""
        box = e.box
        w = a.w
        if p in ('ne', 'ugt', 'uge', 'sgt', 'sge'):
            q = {'ne': 'eq', 'ugt': 'ule', 'uge': 'ult', 'sgt': 'sle', 'sge': 'slt'}[p]
            return not self.cmp(e, q, a, b)
        if a.ands and b.const() and b.c == 0 and p == 'eq':
            return self.and_is_zero(e, a)
        if a.top or b.top:
            raise Undecided("comparison of unknown values")
        if b.ors and not a.ors:
            a, b = b, a
        if a.ors:
            if p == 'eq' and b.const() and b.c == 0:
                return all([self.cmp(e, 'eq', x, K(w, 0)) for x in a.ors])
            if p in ('ult',) and b.const() and b.c == 1:
                return all([self.cmp(e, 'eq', x, K(w, 0)) for x in a.ors])
            a = self.overlapping(e, a)
        a, b = self.norm(a, box), self.norm(b, box)
        fn = {'eq': lambda x, y: x == y, 'ult': lambda x, y: x < y, 'ule': lambda x, y: x <= y}
        sg = lambda x: x - (1 << w) if x >> (w - 1) else x
        if p in ('slt', 'sle'):
            f = (lambda x, y: sg(x) < sg(y)) if p == 'slt' else (lambda x, y: sg(x) <= sg(y))
        else:
            f = fn[p]
        if a.const() and b.const():
            return f(a.c, b.c)
        # symbolic parts must cancel
        if a.sym or b.sym:
            return self.cmp_sym(e, p, a, b)
        sa, sb = self.single(a), self.single(b)
        if (sa or a.const()) and (sb or b.const()) and not (sa and sb and sa[0] != sb[0]):
            k = (sa or sb)[0]
            xs = sa[1].astype(object) if sa else [a.c] * 256
            ys = sb[1].astype(object) if sb else [b.c] * 256
            sel = np.array([bool(f(int(x), int(y))) for x, y in zip(xs, ys)])
            d = box.bset(k)
            if (sel[d]).all():
                return True
            if not (sel[d]).any():
                return False
            self.split_byte(box, k, sel)
        # one 32-bit unit against a constant
        r = self.unit_cmp(e, p, a, b, f)
        if r is not None:
            return r
        if p == 'eq' and b.const():
            d = self.disjoint(a, box)
            if d:
                v, cs = d
                if v.c & ~b.c:
                    return False
                occ = v.c
                for _, _, m in cs:
                    occ |= m
                if b.c & ~occ:
                    return False
                res = True
                atoms = {}
                for kk, key, m in cs:
                    atoms.setdefault(('t', key) if kk == 't' else ('c', key[0]), []).append((kk, key, m))
                if len(atoms) == 1 and not v.c:
                    atoms = {}
                    res = None
                for at, l in atoms.items():
                    m = 0
                    for _, _, x in l:
                        m |= x
                    if at[0] == 't':
                        part = V(w, 0, {}, {at[1]: v.tab[at[1]]})
                    else:
                        part = V(w, 0, {}, {}, {key: x for _, key, x in l})
                    if not self.cmp(e, 'eq', part, K(w, b.c & m)):
                        return False
                if res:
                    return True
        la, ha = self.exact_range(a, box)
        lb, hb = self.exact_range(b, box)
        if p[0] == 's':
            lim = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        else:
            lim = (0, mask(w))
        # unsigned comparison needs the unsigned reading
        if la is not None and lim[0] <= la and ha <= lim[1] and lim[0] <= lb and hb <= lim[1]:
            if p == 'eq':
                if ha < lb or hb < la:
                    return False
                if la == ha == lb == hb:
                    return True
            elif p[1:] == 'lt':
                if ha < lb:
                    return True
                if la >= hb:
                    return False
            else:
                if ha <= lb:
                    return True
                if la > hb:
                    return False
        self.split_big(e, a, b)

    def and_is_zero(self, e, a):
        """is the and of independent byte-wise values zero?  decided byte lane by byte lane"""
        box = e.box
        ps = [self.norm(p, box) for p in a.ands]
        if any(p.top or p.ors or p.sym or p.bits for p in ps):
            raise Undecided("comparison of an and-combination")
        for lane in range(0, a.w, 8):
            L = 0xFF << lane
            ks = []
            may = must = L
            for p in ps:
                u = z = p.c & L
                for k, t in p.tab.items():
                    s = t[box.bset(k)] & U(L)
                    o, n = int(np.bitwise_or.reduce(s)), int(np.bitwise_and.reduce(s))
                    if o:
                        ks.append((k, t))
                    u, z = u | o, z | n
                may, must = may & u, must & z
            if must:
                return False
            if not may:
                continue
            for k, t in ks:
                s = (t & U(may)) != 0
                d = box.bset(k)
                if s[d].any() and not s[d].all():
                    self.split_byte(box, k, s)
            for k, t in ks:
                s = t & U(may)
                d = box.bset(k)
                if len(np.unique(s[d])) > 1:
                    self.split_byte(box, k, s == s[d][0])
            raise Undecided("comparison of an and-combination")
        return True

    def split_big(self, e, a, b):
        """split the atom with the widest influence"""
        box = e.box
        best = None
        for v in (a, b):
            for k, t in v.tab.items():
                s = np.unique(t[box.bset(k)])
                if len(s) > 1:
                    span = int(s[-1]) - int(s[0])
                    if best is None or span > best[0]:
                        mid = s[len(s) // 2]
                        best = (span, 'b', k, t < mid)
            ks = {k for k, j in v.bits}
            for k in ks:
                iv = box.cset(k)
                lo, hi = min(x for x, _ in iv), max(y for _, y in iv)
                if hi > lo and (best is None or (hi - lo) > best[0]):
                    best = (hi - lo, 'c', k, None)
        if best is None:
            raise Undecided("comparison not decided by the box")
        if best[1] == 'b':
            self.split_byte(box, best[2], best[3])
        self.bisect(box, best[2])

    def bisect(self, box, k):
        iv = box.cset(k)
        if len(iv) > 1:
            h = len(iv) // 2
            raise Split(('c', k), [iv[:h], iv[h:]])
        lo, hi = iv[0]
        d = (lo ^ hi).bit_length() - 1
        m = (hi >> d) << d
        raise Split(('c', k), [[(lo, m - 1)], [(m, hi)]])

    def unit_cmp(self, e, p, a, b, f):
        if a.const():
            if b.const():
                return None
            if p == 'eq':
                return self.unit_cmp(e, p, b, a, f)
            # K < v  ==  !(v <= K)
            q = {'ult': 'ule', 'ule': 'ult', 'slt': 'sle', 'sle': 'slt'}[p]
            g = {'ult': lambda x, y: x < y, 'ule': lambda x, y: x <= y}
            sg = lambda x: x - (1 << a.w) if x >> (a.w - 1) else x
            g['slt'], g['sle'] = (lambda x, y: sg(x) < sg(y)), (lambda x, y: sg(x) <= sg(y))
            r = self.unit_cmp(e, q, b, a, g[q])
            return None if r is None else not r
        if not b.const() or a.tab or not a.bits:
            return None
        ks = {k for k, j in a.bits}
        if len(ks) != 1:
            return None
        k = ks.pop()
        sg = lambda x: x - (1 << a.w) if x >> (a.w - 1) else x
        pf = self.prefix(e.box, k, [(j, c) for (_, j), c in a.bits.items()])
        if pf is None:
            return None
        s, t = pf
        w = a.w
        M = mask(w)
        # value(c) = ((c >> s) << t) + const mod 2^w : piecewise monotone; find the true set
        tr, fa = [], []
        for lo, hi in e.box.cset(k):
            u, v = lo >> s, hi >> s
            if v - u > 1 << 22:
                pts = None
            # break points of the predicate in u: where the value wraps or crosses b
            cuts = {u}
            for tgt in (0, b.c, b.c + 1, 1 << (w - 1)):
                x = (tgt - a.c) & M
                q = x >> t
                for y in (q, q + 1):
                    if u < y <= v:
                        cuts.add(y)
            cuts = sorted(cuts) + [v + 1]
            for x, y in zip(cuts, cuts[1:]):
                val = ((x << t) + a.c) & M
                seg = (max(lo, x << s), min(hi, ((y) << s) - 1))
                (tr if f(val, b.c) else fa).append(seg)
        if not fa:
            return True
        if not tr:
            return False
        raise Split(('c', k), [self.merge(tr), self.merge(fa)])

    @staticmethod
    def merge(l):
        out = []
        for a, b in sorted(l):
            if out and out[-1][1] + 1 >= a:
                out[-1] = (out[-1][0], max(b, out[-1][1]))
            else:
                out.append((a, b))
        return out

    def cmp_sym(self, e, p, a, b):
        """both sides linear in symbols; the difference may only involve R"""
        d = add(a, neg(b))
        w = a.w
        sg = lambda x: x - (1 << w) if x >> (w - 1) else x
        if d.top:
            raise Undecided("comparison of unknown values")
        if d.tab or d.bits:
            raise Undecided("comparison mixes lengths and data")
        n = {k: sg(v) for k, v in d.sym.items()}
        c = sg(d.c)
        r = n.pop('R', 0)
        if self.x0:
            n.pop('X', 0), n.pop('Y', 0)
        # Y >= 0 and X >= 0 with positive coefficients: comparisons with 0
        if n:
            if p == 'eq' and len(n) == 1 and r == 0:
                (k, v), = n.items()
                if isinstance(k, tuple) and k[0] == 'arg' and b.const() and b.c == 0:
                    return False     # buffers are not null when looked at
            raise Undecided("comparison of unrelated quantities %s" % d)
        lo, hi = e.box.R
        # value = c + r*R   compared with 0:  a-b < 0
        def truth(x):
            v = c + r * x
            return {'eq': v == 0, 'ult': v < 0, 'slt': v < 0, 'ule': v <= 0, 'sle': v <= 0}[p]
        if r == 0:
            return truth(0)
        tl, th = truth(lo), truth(hi)
        root = -c / r
        if p == 'eq':
            if (-c) % r or not (lo <= -c // r <= hi):
                return False
            x = -c // r
            if lo == hi:
                return True
            parts = []
            if lo <= x - 1:
                parts.append((lo, x - 1))
            parts.append((x, x))
            if x + 1 <= hi:
                parts.append((x + 1, hi))
            raise Split('R', parts)
        if tl == th:
            return tl
        a_, b_ = lo, hi
        while b_ - a_ > 1:
            m = (a_ + b_) // 2
            if truth(m) == tl:
                a_ = m
            else:
                b_ = m
        raise Split('R', [(lo, a_), (b_, hi)])

    # ---------------------------------------------------------------- memory
    def unit(self, k):
        """value of input unit k (relative to X)"""
        if self.es == 1:
            return V(8, 0, {}, {k: IDX.copy()})
        return V(32, 0, {}, {}, {(k, j): 1 << j for j in range(32)})

    def load(self, e, i):
        p = self.val(e, i.o[0])
        sz = i.x.get("sz", 8)
        w = self.width(i.ty)
        if p.top:
            return T(w)
        base = [k for k in p.sym if isinstance(k, tuple) and k[0] in ('al', 'arg', 'ga')]
        if len(base) != 1 or p.sym[base[0]] != 1:
            return T(w)
        b = base[0]
        rest = {k: v for k, v in p.sym.items() if k != b}
        if b[0] == 'al':
            if rest or p.tab or p.bits:
                return T(w)
            return self.mem_get(e, b[1], p.c if p.c < 1 << 63 else p.c - (1 << 64), sz, w)
        if b[0] == 'ga':
            return self.table_load(e, b[1], p, rest, sz, w)
        if self.viewarg is not None and b == ('arg', self.viewarg) and not rest and sz == 8 and p.c in (0, 8):
            return V(64, 0, {'X': 1, 'R': 1}) if p.c == 0 else V(64, 0, {('arg', self.inp): 1})
        if b == ('arg', self.inp):
            off = p.c - (1 << 64) if p.c >> 63 else p.c
            if rest != {'X': self.es} and not (self.x0 and not set(rest) - {'X', 'Y'}):
                raise Undecided("input read at an unknown position %s" % p)
            if p.tab or p.bits or off % self.es or off < 0 or sz % self.es:
                raise Undecided("input read at position %d" % off)
            n = sz // self.es
            k0 = off // self.es
            # must lie inside the input
            lo, hi = e.box.R
            if k0 + n > hi:
                self.oob.append((i.where(), "reads unit %d of the input with only %d left" % (k0 + n - 1, hi), e.box.show()))
                raise Dead()
            if k0 + n > lo:
                raise Split('R', [(lo, k0 + n - 1), (k0 + n, hi)])
            out = K(w, 0)
            e.seen |= set(range(k0, k0 + n))
            for j in range(n):
                u = e.ov.get(k0 + j) or self.unit(k0 + j)
                if u.top:
                    return T(w)
                pos = (n - 1 - j) if self.big else j
                out = add(out, scale(self.zext(e, u, w), 1 << (8 * self.es * pos)))
            return out
        return T(w)

    def table_load(self, e, name, p, rest, sz, w):
        g = self.mod.globals.get(name)
        d = self.mod.ginit(name) if g and g["const"] else None
        if not d or rest:
            return T(w)
        raw = d[0]
        if not p.tab and not p.bits:
            if p.c + sz <= len(raw):
                return K(w, int.from_bytes(raw[p.c:p.c + sz], 'little'))
            return T(w)
        v = self.norm(V(64, p.c, {}, p.tab, p.bits), e.box)
        if v.const():
            return K(w, int.from_bytes(raw[v.c:v.c + sz], 'little')) if v.c + sz <= len(raw) else T(w)
        s = self.single(v)
        if s is None:
            return T(w)
        out = np.zeros(256, np.uint64)
        for x in np.nonzero(e.box.bset(s[0]))[0]:
            o = int(s[1][x])
            if o + sz > len(raw):
                self.oob.append(("table", "index %d outside constant table %s" % (o, name), e.box.show()))
                return T(w)
            out[x] = int.from_bytes(raw[o:o + sz], 'little')
        return V(w, 0, {}, ctab(w, {s[0]: out}))

    def mem_get(self, e, al, off, sz, w):
        m = e.mem.get((al, off))
        if m and m[0] == sz:
            return m[1] if m[1].w == w else (self.trunc(e, m[1], w) if m[1].w > w else T(w))
        # compose from bytes / smaller pieces
        out = K(w, 0)
        o = off
        while o < off + sz:
            m = e.mem.get((al, o))
            if not m or o + m[0] > off + sz:
                break
            pos = (o - off) if not self.big else (off + sz - o - m[0])
            out = add(out, scale(self.zext(e, m[1], w), 1 << (8 * pos)))
            o += m[0]
        if o == off + sz:
            return out
        # a piece of a wider entry
        for (a, o), (s, v) in e.mem.items():
            if a == al and o <= off and off + sz <= o + s:
                sh = 8 * ((off - o) if not self.big else (o + s - off - sz))
                return self.trunc(e, self.lshr(e, v, sh), w)
        return T(w)

    def mem_put(self, e, al, off, sz, v):
        for (a, o) in [k for k in e.mem if k[0] == al]:
            s, old = e.mem[(a, o)]
            if o < off + sz and off < o + s:
                del e.mem[(a, o)]
                for j in range(s):
                    if not off <= o + j < off + sz:
                        pos = j if not self.big else s - 1 - j
                        e.mem[(a, o + j)] = (1, self.trunc(e, self.lshr(e, old, 8 * pos), 8))
        e.mem[(al, off)] = (sz, v)

    def trunc(self, e, v, w):
        if v.w == w:
            return v
        if v.ands:
            return V(w, top=True, ands=[self.trunc(e, p, w) for p in v.ands])
        if v.top:
            return T(w)
        if v.ors:
            return V(w, ors=[self.trunc(e, x, w) for x in v.ors])
        return V(w, v.c, clean(w, v.sym), ctab(w, v.tab), clean(w, v.bits))

    def store_to(self, e, p, sz, v, where):
        if p.top:
            raise Undecided("store to an unknown address")
        base = [k for k in p.sym if isinstance(k, tuple) and k[0] in ('al', 'arg', 'ga')]
        if len(base) != 1:
            raise Undecided("store to an unknown address %s" % p)
        b = base[0]
        rest = {k: x for k, x in p.sym.items() if k != b}
        off = p.c - (1 << 64) if p.c >> 63 else p.c
        if p.tab or p.bits:
            raise Undecided("store at a data-dependent address")
        if b[0] == 'al':
            if rest:
                raise Undecided("store at an unknown offset of a local")
            self.mem_put(e, b[1], off, sz, v)
            return
        if self.inplace and b == ('arg', self.inp):
            if rest != {'X': self.es} and not (self.x0 and not set(rest) - {'X', 'Y'}):
                raise Undecided("in-place write at an unknown position")
            n = sz // self.es
            lo, hi = e.box.R
            if off // self.es + n > hi:
                self.oob.append((where, "writes unit %d with only %d left" % (off // self.es + n - 1, hi), e.box.show()))
                raise Dead()
            if off // self.es + n > lo:
                raise Split('R', [(lo, off // self.es + n - 1), (off // self.es + n, hi)])
            for j in range(n):
                pos = (n - 1 - j) if self.big else j
                e.ov[off // self.es + j] = self.trunc(e, self.lshr(e, v, 8 * self.es * pos), 8 * self.es)
            return
        if self.outp is not None and b == ('arg', self.outp):
            if (rest != {'Y': self.oes} and not (self.x0 and not set(rest) - {'X', 'Y'})) or off % self.oes or sz % self.oes:
                raise Undecided("write at an unknown position of the output: %s" % p)
            n = sz // self.oes
            for j in range(n):
                pos = (n - 1 - j) if self.big else j
                e.out.append((off // self.oes + j, self.trunc(e, self.lshr(e, v, 8 * self.oes * pos), 8 * self.oes), where))
            return
        raise Undecided("store to %s" % (b,))

    # ---------------------------------------------------------------- running
    def run_from(self, blk, frm, env0, box, budget=6000):
        """explore one step from a block; yields (kind, where/header, Env, extra)"""
        res = []
        e0 = Env(box)
        e0.env = dict(env0[0])
        e0.mem = dict(env0[1])
        work = [(e0, blk, frm, 0, True)]
        while work:
            e, b, frm, k, first = work.pop()
            try:
                out = self.go(e, b, frm, k, first)
                res.append(out)
                self.boxes += 1
                if len(res) > 20000:
                    self.undec.append((e.trail[-1].where() if e.trail else self.fn.short, "too many cases"))
                    return res
            except _Fork as f:
                for bx in f.boxes:
                    e2 = f.env.fork(bx)
                    work.append((e2, f.blk, f.frm, f.k, f.first))
        return res

    def go(self, e, b, frm, k, first):
        fn = self.fn
        n = 0
        while True:
            bl = fn.blocks[b]
            if k == 0 and frm is not None and b in self.sync and not first:
                inc = {}
                for p in bl.phis():
                    for v, pb in p.x["in"]:
                        if pb == frm:
                            inc[p.id] = self.val(e, v, self.width(p.ty))
                return ('header', b, e, inc)
            if k == 0 and frm is not None and not (first and frm == 'sync'):
                inc = {}
                for p in bl.phis():
                    for v, pb in p.x["in"]:
                        if pb == frm:
                            inc[p.id] = self.val(e, v, self.width(p.ty))
                e.env.update(inc)
            first = False
            ins = bl.ins
            while k < len(ins):
                i = ins[k]
                if i.op == 'phi':
                    k += 1
                    continue
                n += 1
                self.steps += 1
                if n > 20000:
                    raise Undecided("step budget")
                try:
                    r = self.step(e, i)
                except Split as s:
                    raise _Fork(e, b, frm, k, self.split(e.box, s)) from None
                except Dead:
                    return ('unreachable', i, e, None)
                except Undecided as u:
                    if 'budget' in str(u):
                        raise
                    self.undec.append((i.where(), "%s (%s)" % (u, e.box.show())))
                    return ('unreachable', i, e, None)
                if r is not None:
                    if r[0] == 'goto':
                        e.trail.append(i)
                        frm, b, k = b, r[1], 0
                        break
                    return (r[0], i, e, r[1])
                k += 1
            else:
                raise AnalysisError("block without terminator")

    def split(self, box, s):
        out = []
        for part in s.parts:
            nb = box.copy()
            if s.atom == 'R':
                if part[0] > part[1]:
                    continue
                nb.R = part
            elif s.atom[0] == 'b':
                if not part.any():
                    continue
                nb.b[s.atom[1]] = part
            else:
                if not part:
                    continue
                nb.cp[s.atom[1]] = part
            out.append(nb)
        return out

    def step(self, e, i):
        op = i.op
        w = self.width(i.ty)
        V_ = lambda n, ww=None: self.val(e, i.o[n], ww or w)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = V_(0), V_(1)
            e.env[i.id] = self.arith(e, op, w, a, b)
        elif op == 'icmp':
            a, b = V_(0, 64), V_(1, 64)
            if a.w != b.w:
                b = K(a.w, b.c) if b.const() else b
            # keep comparisons lazy: they are decided (and split) where they are used
            e.env[i.id] = _Cmp(i.x["p"], a, b)
        elif op in ('zext', 'sext'):
            a = V_(0, self.width(i.x["sty"]))
            if isinstance(a, _Cmp):
                v = self.bool(e, a)
                e.env[i.id] = K(w, (1 if op == 'zext' else mask(w)) if v else 0)
            elif op == 'zext':
                e.env[i.id] = self.zext(e, a, w)
            else:
                n = a.w
                sgn = lambda x, y: (x - (1 << n) if x >> (n - 1) else x)
                r = self.pointwise(w, a, K(n, 0), e.box, sgn)
                if r.top:
                    v = self.norm(a, e.box)
                    lo, hi = self.exact_range(v, e.box) if not (v.top or v.ors or v.sym) else (None, None)
                    if lo is not None and 0 <= lo and hi < 1 << (n - 1):
                        r = self.zext(e, a, w)
                    elif not a.top and not a.ors and a.sym:
                        r = T(w)
                e.env[i.id] = r
        elif op == 'trunc':
            a = V_(0, self.width(i.x["sty"]))
            if isinstance(a, _Cmp):
                e.env[i.id] = a
            elif w == 1:
                e.env[i.id] = _Cmp('ne', self.bitop(e, 'and', a, K(a.w, 1)), K(a.w, 0)) if not a.top else T(1)
            else:
                e.env[i.id] = self.trunc(e, a, w)
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            e.env[i.id] = V_(0)
        elif op == 'getelementptr':
            t = add(V_(0, 64), K(64, i.x.get("coff", 0)))
            for v, s in i.x.get("vars") or []:
                x = self.val(e, v)
                if x.w != 64:
                    return self._gep_narrow(e, i)
                t = add(t, scale(x, s))
            e.env[i.id] = t
        elif op == 'alloca':
            e.env[i.id] = V(64, 0, {('al', i.id): 1})
        elif op == 'load':
            e.env[i.id] = self.load(e, i)
        elif op == 'store':
            v = V_(0, self.width(i.x.get("sty", "i64")))
            if isinstance(v, _Cmp):
                v = K(8, int(self.bool(e, v)))
            sz = (self.width(i.x.get("sty", "i64")) + 7) // 8
            self.store_to(e, self.val(e, i.o[1]), sz, v, i.where())
        elif op == 'select':
            c = V_(0, 1)
            v = self.bool(e, c)
            e.env[i.id] = self.val(e, i.o[1] if v else i.o[2], w)
        elif op == 'br':
            if len(i.x["succ"]) == 1:
                return ('goto', i.x["succ"][0])
            c = V_(0, 1)
            return ('goto', i.x["succ"][0 if self.bool(e, c) else 1])
        elif op == 'switch':
            a = V_(0, 64)
            for cv, s in i.x["cases"]:
                if self.cmp(e, 'eq', a, self.val(e, cv)):
                    return ('goto', s)
            return ('goto', i.x["def"])
        elif op == 'ret':
            v = V_(0) if i.o else None
            if isinstance(v, _Cmp):
                v = K(1, int(self.bool(e, v)))
            return ('ret', v)
        elif op == 'unreachable':
            return ('unreachable', None)
        elif op in ('call', 'invoke'):
            self.call(e, i)
        else:
            e.env[i.id] = T(w)
        return None

    def _gep_narrow(self, e, i):
        t = add(self.val(e, i.o[0]), K(64, i.x.get("coff", 0)))
        for v, s in i.x.get("vars") or []:
            x = self.val(e, v)
            if x.w != 64:
                n = x.w
                y = self.pointwise(64, x, K(n, 0), e.box, lambda p, q: (p - (1 << n) if p >> (n - 1) else p))
                x = y
            t = add(t, scale(x, s))
        e.env[i.id] = t

    def bool(self, e, c):
        if isinstance(c, _Cmp):
            return c.neg ^ self.cmp(e, c.p, c.a, c.b)
        if c.const():
            return bool(c.c)
        return self.cmp(e, 'ne', c, K(c.w, 0))

    def arith(self, e, op, w, a, b):
        if isinstance(a, _Cmp) or isinstance(b, _Cmp):
            if w == 1 and op in ('and', 'or', 'xor'):
                if op == 'xor' and isinstance(b, V) and b.const() and b.c == 1:
                    return _Cmp(a.p, a.a, a.b, not a.neg)
                if op == 'xor' and isinstance(a, V) and a.const() and a.c == 1:
                    return _Cmp(b.p, b.a, b.b, not b.neg)
                x = self.bool(e, a)
                if op == 'and' and not x:
                    return K(1, 0)
                if op == 'or' and x:
                    return K(1, 1)
                y = self.bool(e, b)
                return K(1, int({'and': x and y, 'or': x or y, 'xor': x != y}[op]))
            return T(w)
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return add(a, neg(b))
        if op in ('and', 'or', 'xor'):
            return self.bitop(e, op, a, b)
        nb = self.norm(b, e.box) if not (b.top or b.ors) else b
        if op == 'mul':
            if nb.const():
                return scale(a, nb.c)
            na = self.norm(a, e.box) if not (a.top or a.ors) else a
            if na.const():
                return scale(b, na.c)
            return self.pointwise(w, a, b, e.box, lambda x, y: x * y) if not (a.top or b.top or a.ors or b.ors) else T(w)
        if op == 'shl' and nb.const():
            if a.ors:
                return V(w, ors=[scale(x, 1 << nb.c) for x in a.ors])
            return scale(a, 1 << nb.c)
        if op in ('lshr', 'ashr') and nb.const():
            return self.lshr(e, a, nb.c, op == 'ashr')
        if a.top or b.top or a.ors or b.ors:
            return T(w)
        if op in ('udiv', 'sdiv') and nb.const() and nb.c and nb.c & (nb.c - 1) == 0 and a.sym:
            return self.lshr(e, a, nb.c.bit_length() - 1)
        sg = lambda x: x - (1 << w) if x >> (w - 1) else x
        q = lambda x, y: abs(sg(x)) // abs(sg(y)) * (1 if (sg(x) < 0) == (sg(y) < 0) else -1)
        f = {'shl': lambda x, y: x << y, 'lshr': lambda x, y: x >> y, 'ashr': lambda x, y: sg(x) >> y,
             'udiv': lambda x, y: x // y, 'urem': lambda x, y: x % y,
             'sdiv': q, 'srem': lambda x, y: sg(x) - sg(y) * q(x, y)}[op]
        return self.pointwise(w, a, b, e.box, f)

    def call(self, e, i):
        n = i.callee
        w = self.width(i.ty)
        if n.startswith('llvm.is.constant'):
            e.env[i.id] = K(1, 0)
            return
        if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume') or n.startswith('llvm.experimental'):
            return
        a = [self.val(e, o) for o in i.o]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            if a[2].top:
                raise Undecided("copy of unknown length")
            z = {q: v for q, v in a[2].sym.items() if not (self.x0 and q in ('X', 'Y'))}
            if set(z) - {'R'} or a[2].tab or a[2].bits:
                raise Undecided("copy of unknown length")
            if z:
                lo, hi = e.box.R
                if hi - lo > 64:
                    raise Undecided("copy of unbounded length")
                if lo < hi:
                    raise Split('R', [(q, q) for q in range(lo, hi + 1)])
                ln = (a[2].c + sgn(z['R'], 64) * lo) & mask(64)
            else:
                ln = a[2].c
            if ln > 4096:
                raise Undecided("copy of %d bytes" % ln)
            # unit-wise copy
            done = 0
            while done < ln:
                sz = 8 if ln - done >= 8 else 4 if ln - done >= 4 else 2 if ln - done >= 2 else 1
                fake = _Load(i, sz)
                e.env['%copysrc'] = add(a[1], K(64, done))
                v = self.load(e, fake)
                self.store_to(e, add(a[0], K(64, done)), sz, v, i.where())
                done += sz
            return
        if n.startswith('llvm.ctpop') or n.startswith('llvm.cttz') or n.startswith('llvm.ctlz'):
            f = {'llvm.ctpo': lambda x, y: bin(x).count('1'), 'llvm.cttz': lambda x, y: (x & -x).bit_length() - 1 if x else w,
                 'llvm.ctlz': lambda x, y: w - x.bit_length()}[n[:9]]
            e.env[i.id] = self.pointwise(w, a[0], K(w, 0), e.box, f)
            return
        if n[:9] in ('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax'):
            lt = self.cmp(e, 'ult' if n[5] == 'u' else 'slt', a[0], a[1])
            e.env[i.id] = a[0] if lt == n[6:9].startswith('min') else a[1]
            return
        if n.startswith('llvm.bswap'):
            e.env[i.id] = self.pointwise(w, a[0], K(w, 0), e.box, lambda x, y: int.from_bytes(x.to_bytes(w // 8, 'little'), 'big'))
            return
        r = self.api_call(e, i, n, a)
        if r is NotImplemented:
            if i.ty != 'void':
                e.env[i.id] = T(w)
            if not n.startswith('llvm.'):
                raise Undecided("call of %s" % n)
        elif i.ty != 'void':
            e.env[i.id] = r

    def api_call(self, e, i, n, a):
        return NotImplemented

    # ---------------------------------------------------------------- driver
    #
    # A relation at a loop header maps header phis (and values computed before) to linear forms in
    # X (units consumed), Y (units produced), R (units left); X + R is the input length.
    x0 = False

    def at(self, v, k, m, entry):
        """rewrite a value at the end of a step (k consumed, m produced) in terms of the new X, Y, R"""
        if isinstance(v, _Cmp):
            return T(1)
        if v.top or v.ors or v.tab or v.bits:
            return T(v.w)
        x, y, r = (sgn(v.sym.get(q, 0), v.w) for q in 'XYR')
        c = v.c + r * k
        if not entry:
            c -= x * k + y * m
        return V(v.w, c, v.sym)

    def matches(self, rel, v, k, m, entry):
        """does the arriving value agree with the relation?"""
        if rel.top:
            return True
        v = self.at(v, k, m, entry)
        if v.top:
            return False
        if entry:
            # X == k and Y == m hold at this arrival
            a = lambda u: add(V(u.w, u.c, {q: z for q, z in u.sym.items() if q not in ('X', 'Y')}), K(u.w, sgn(u.sym.get('X', 0), u.w) * k + sgn(u.sym.get('Y', 0), u.w) * m))
            v, rel = a(v), a(rel)
        d = add(v, neg(rel))
        return not d.top and d.const() and d.c == 0

    def analyse(self, spec, base=None):
        """findings are appended to self.finds, undecided points to self.undec"""
        try:
            return self._analyse(spec, base)
        except Undecided as u:
            if self.sync == set(self.loops) or 'budget' not in str(u):
                raise
        self.sync = set(self.loops)
        return self._analyse(spec, base)

    def _analyse(self, spec, base):
        fn = self.fn
        self.base = base or Box()
        self.finds, self.undec, self.oob = [], [], []
        env = {}
        for k, a in enumerate(fn.args):
            w = self.width(a["ty"])
            env[a["id"]] = V(64, 0, {('arg', k): 1}) if a["ty"] == 'ptr' else V(w, 0, {('argv', k): 1})
        if self.length is not None:
            env[fn.args[self.length]["id"]] = V(64, 0, {'X': 1, 'R': 1})
        for k, v in getattr(spec, 'args', {}).items():
            env[fn.args[k]["id"]] = v
        self.state = {}          # header -> dict(phis, env, mem, R)
        self.slice = self.address_phis(spec)
        todo = []
        self.x0 = True
        try:
            res = self.run_from(fn.entry, None, (env, {}), self.base.copy())
            arr = self.arrivals(res, spec, 'entry', True)
        finally:
            self.x0 = False
        for h in arr:
            if self.join(h, arr[h], spec, True):
                todo.append(h)
        rounds = 0
        final = {}
        while todo:
            h = todo.pop(0)
            rounds += 1
            if rounds > 40:
                raise Undecided("no loop relation found in the budget")
            keep = (len(self.finds), len(self.undec), len(self.oob))
            st = self.state[h]
            box = self.base.copy()
            box.R = st["R"]
            env = dict(st["env"])
            env.update(st["phis"])
            res = self.run_from(h, 'sync', (env, st["mem"]), box)
            arr = self.arrivals(res, spec, h, False)
            # a header's own results are judged with its final relation only
            final[h] = (self.finds[keep[0]:], self.undec[keep[1]:], self.oob[keep[2]:])
            del self.finds[keep[0]:], self.undec[keep[1]:], self.oob[keep[2]:]
            for g in arr:
                if self.join(g, arr[g], spec, False) and g not in todo:
                    todo.append(g)
        for f, u, o in final.values():
            for x in f:
                if len(x) == 3 and any(v.top for v in self.state[x[2]]["phis"].values()):
                    # the loop carries more than positions: the unit may have been remembered
                    u.append((x[0], "a value carried by the loop is not tracked"))
                else:
                    self.finds.append(x[:2])
            self.undec += u
            self.oob += o
        return self.finds

    def arrivals(self, res, spec, h, entry):
        out = {}
        for kind, at, e, x in res:
            if kind == 'unreachable':
                continue
            for km, bx in spec.judge(self, h, kind, at, e, x):
                if kind == 'header':
                    e2 = e.fork(bx)
                    y = {o: (self.norm(v, bx) if isinstance(v, V) else v) for o, v in x.items()}
                    out.setdefault(at, []).append((e2, y, km[0], km[1], h))
        return out

    def address_phis(self, spec):
        """header phis that alone (through arithmetic) determine the position of input reads or output writes"""
        fn, out = self.fn, set()
        heads = {p.id for h in self.sync for p in fn.blocks[h].phis()}

        def back(o, seen):
            if o in heads:
                return {o}
            i = fn.defs.get(o)
            if i is None or o in seen or i.op in ('load', 'call', 'alloca', 'icmp'):
                return set()
            seen.add(o)
            r = set()
            ops = list(i.o) + [v for v, _ in (i.x.get("vars") or [])] if i.op != 'phi' else [v for v, _ in i.x["in"]]
            for q in ops:
                r |= back(q, seen)
            return r
        for i in fn.instrs():
            if i.op in ('load', 'store'):
                r = back(i.o[0 if i.op == 'load' else 1], set())
                if len(r) == 1:
                    out |= r
            elif i.op == 'ret' and i.o and getattr(spec, 'counts', False):
                r = back(i.o[0], set())
                if len(r) == 1:
                    out |= r
        return out

    def rrange(self, e, k):
        lo, hi = e.box.R
        return max(lo - k, 0), FULL if hi == FULL else hi - k

    def join(self, h, arr, spec, entry):
        """merge arrivals into the header's state; True when it changed"""
        fn = self.fn
        phis = fn.blocks[h].phis()
        st = self.state.get(h)
        new = st is None
        if new:
            st = self.state[h] = {"phis": None, "env": None, "mem": None, "R": None}
            stored = set()
            lp = self.loops[h]
            self.dirty = getattr(self, 'dirty', {})
            for b in lp.body:
                for i in fn.blocks[b].ins:
                    if i.op == 'store' or (i.op == 'call' and not i.callee.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume'))):
                        for o in i.o:
                            stored |= self.roots(o)
            self.dirty[h] = stored
        changed = new
        outside = [a for a in arr if a[4] != h]
        if new:
            self.guess(h, st, phis, arr, spec, entry)
        for e, inc, k, m, frm in arr:
            lo, hi = self.rrange(e, k)
            if st["R"] is None:
                st["R"] = (lo, hi)
            else:
                nr = (st["R"][0] if lo >= st["R"][0] else min(lo, 1 if st["R"][0] > 1 and lo else 0), st["R"][1] if hi <= st["R"][1] else FULL)
                if nr != st["R"]:
                    st["R"] = nr
                    changed = True
            for p in phis:
                r = st["phis"][p.id]
                if not self.matches(r, inc[p.id], k, m, entry):
                    if p.id in self.slice and not inc[p.id].top:
                        v = self.at(inc[p.id], k, m, entry)
                        if not v.top:
                            d = add(v, neg(r))
                            f = (e.trail[-1].where() if e.trail else fn.short,
                                 "after %d input unit%s and %d result unit%s the position is off by %s (input: %s)" % (k, '' if k == 1 else 's', m, '' if m == 1 else 's', sgn(d.c, d.w) if d.const() else d, e.box.show()))
                            raise Mismatch(f)
                    st["phis"][p.id] = T(self.width(p.ty))
                    changed = True
            env = {}
            for o, v in e.env.items():
                if isinstance(v, _Cmp):
                    continue
                v = self.at(v, k, m, entry)
                if not v.top:
                    env[o] = v
            mem = {}
            for q, (s, v) in e.mem.items():
                v = self.at(v, k, m, entry)
                if not v.top and q[0] not in self.dirty[h]:
                    mem[q] = (s, v)
            if st["env"] is None:
                st["env"], st["mem"] = env, mem
            else:
                for o in list(st["env"]):
                    if o not in env or not self.eqv(env[o], st["env"][o]):
                        del st["env"][o]
                        changed = changed or self.live(o, h)
                for q in list(st["mem"]):
                    if q not in mem or mem[q][0] != st["mem"][q][0] or not self.eqv(mem[q][1], st["mem"][q][1]):
                        del st["mem"][q]
                        changed = True
        return changed

    def live(self, o, h):
        """only values that dominate the header can be used after it"""
        i = self.fn.defs.get(o)
        return i is None or (self.fn.dominates(i.blk.id, h) and i.blk.id != h)

    def eqv(self, a, b):
        d = add(a, neg(b))
        return not d.top and d.const() and d.c == 0

    def roots(self, o, seen=None):
        seen = seen if seen is not None else set()
        if o in seen:
            return set()
        seen.add(o)
        i = self.fn.defs.get(o)
        if i is None:
            return set()
        if i.op == 'alloca':
            return {o}
        r = set()
        if i.op in ('getelementptr', 'bitcast', 'select', 'freeze'):
            for q in i.o:
                r |= self.roots(q, seen)
        if i.op == 'phi':
            for v, _ in i.x["in"]:
                r |= self.roots(v, seen)
        return r

    def guess(self, h, st, phis, arr, spec, entry):
        """candidate relation from the first arrivals and one probing step"""
        e0, inc0, k0, m0, _ = arr[0]
        init = {p.id: self.at(inc0[p.id], k0, m0, entry) for p in phis}
        env = {}
        for o, v in e0.env.items():
            if not isinstance(v, _Cmp):
                v = self.at(v, k0, m0, entry)
                if not v.top:
                    env[o] = v
        mem = {}
        for q, (s, v) in e0.mem.items():
            v = self.at(v, k0, m0, entry)
            if not v.top and q[0] not in self.dirty[h]:
                mem[q] = (s, v)
        penv = dict(env)
        if entry and (k0 or m0):
            # probe as if nothing had been consumed before
            z = lambda v: v if v.top else V(v.w, v.c, v.sym)
            raise_later = True
        penv.update(init)
        deltas = []
        saved = (len(self.finds), len(self.undec), len(self.oob), self.steps, self.boxes)
        self.x0 = entry and (k0, m0) == (0, 0)
        self.probing = True
        try:
            b = self.base.copy()
            res = self.run_from(h, 'sync', (penv, mem), b)
            for kind, at, e, x in res:
                if kind == 'header' and at == h:
                    for km, bx in spec.judge(self, h, kind, at, e, x):
                        deltas.append((km[0], km[1], {o: (self.norm(v, bx) if isinstance(v, V) else v) for o, v in x.items()}))
        except Undecided:
            pass
        finally:
            self.x0 = False
            self.probing = False
        del self.finds[saved[0]:], self.undec[saved[1]:], self.oob[saved[2]:]
        self.steps, self.boxes = saved[3:]
        st["phis"] = {}
        for p in phis:
            iv = init[p.id]
            if iv.top:
                st["phis"][p.id] = iv
                continue
            ds = []
            for k, m, x in deltas:
                v = x[p.id]
                if isinstance(v, _Cmp) or v.top:
                    continue
                d = add(v, neg(iv))
                if d.const():
                    ds.append((k, m, sgn(d.c, d.w)))
            s = self.solve(ds) if ds else (0, 0)
            if s is None:
                st["phis"][p.id] = T(iv.w)
                continue
            if ('X' in iv.sym or 'Y' in iv.sym) and (s == (0, 0) or not entry):
                st["phis"][p.id] = iv
                continue
            c = iv.c
            if entry:
                c -= s[0] * k0 + s[1] * m0
            if not entry and (s != (0, 0)):
                # starts over at a later point: no linear relation to the total
                st["phis"][p.id] = T(iv.w)
                continue
            st["phis"][p.id] = V(iv.w, c, clean(iv.w, {**iv.sym, 'X': iv.sym.get('X', 0) + s[0], 'Y': iv.sym.get('Y', 0) + s[1]}))

    @staticmethod
    def solve(ds):
        """(a, b) such that c == a*k + b*m for as many (k, m, c) as possible"""
        ds = list(set(ds))
        cand = {(0, 0), (1, 0), (0, 1), (4, 0), (0, 4), (-1, 0), (0, -1)}
        for i, (k1, m1, c1) in enumerate(ds):
            if k1 and c1 % k1 == 0:
                cand.add((c1 // k1, 0))
            if m1 and c1 % m1 == 0:
                cand.add((0, c1 // m1))
            for k2, m2, c2 in ds[i + 1:]:
                det = k1 * m2 - k2 * m1
                if det:
                    a, b = c1 * m2 - c2 * m1, k1 * c2 - k2 * c1
                    if a % det == 0 and b % det == 0:
                        cand.add((a // det, b // det))
        score = lambda ab: (sum(c == ab[0] * k + ab[1] * m for k, m, c in ds), -abs(ab[0]) - abs(ab[1]), ab[0])
        best = max(cand, key=score)
        return best if score(best)[0] else None


class Mismatch(Exception):
    """definite: the position does not follow the input"""
    def __init__(self, finding):
        self.finding = finding


def sgn(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


class _Cmp:
    __slots__ = ("p", "a", "b", "neg", "w")

    def __init__(self, p, a, b, neg=False):
        self.p, self.a, self.b, self.neg, self.w = p, a, b, neg, 1
    top = False
    ors = None

    def const(self):
        return False


class _Load:
    def __init__(self, i, sz):
        self.o, self.x, self.ty, self._i = ['%copysrc'], {"sz": sz}, "i%d" % (8 * sz), i

    def where(self):
        return self._i.where()


class _Fork(Exception):
    def __init__(self, env, blk, frm, k, boxes):
        self.env, self.blk, self.frm, self.k, self.boxes = env, blk, frm, k, boxes
        self.first = False
