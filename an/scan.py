"""What the scanning functions have to compute, stated over boxes (see boxes.py)."""
import numpy as np
import boxes, ir
from boxes import V, K, T, add, neg, scale, Split, Undecided, IDX, FULL, sgn, mask


def bset(*rs):
    s = np.zeros(256, bool)
    for lo, hi in rs:
        s[lo:hi + 1] = True
    return s


# well-formed UTF-8 byte sequences (Unicode table 3-7): (lead, following bytes)
WF = [(bset((0, 0x7F)), []),
      (bset((0xC2, 0xDF)), [bset((0x80, 0xBF))]),
      (bset((0xE0, 0xE0)), [bset((0xA0, 0xBF)), bset((0x80, 0xBF))]),
      (bset((0xE1, 0xEC), (0xEE, 0xEF)), [bset((0x80, 0xBF)), bset((0x80, 0xBF))]),
      (bset((0xED, 0xED)), [bset((0x80, 0x9F)), bset((0x80, 0xBF))]),
      (bset((0xF0, 0xF0)), [bset((0x90, 0xBF)), bset((0x80, 0xBF)), bset((0x80, 0xBF))]),
      (bset((0xF1, 0xF3)), [bset((0x80, 0xBF))] * 3),
      (bset((0xF4, 0xF4)), [bset((0x80, 0x8F)), bset((0x80, 0xBF)), bset((0x80, 0xBF))])]


def inside(box, k, sel):
    """True/False for 'byte k is in sel', splitting the box when mixed"""
    d = box.bset(k)
    x = sel[d]
    if x.all():
        return True
    if not x.any():
        return False
    raise Split(('b', k), [d & sel, d & ~sel])


def uinside(box, k, ivs):
    iv = box.cset(k)
    tr, fa = [], []
    for lo, hi in iv:
        p = lo
        for a, b in ivs:
            if b < p or a > hi:
                continue
            if a > p:
                fa.append((p, a - 1))
            tr.append((max(a, p), min(b, hi)))
            p = min(b, hi) + 1
        if p <= hi:
            fa.append((p, hi))
    if not fa:
        return True
    if not tr:
        return False
    raise Split(('c', k), [tr, fa])


def more(box, n):
    """is there a unit n (n+1 units left)?"""
    lo, hi = box.R
    if lo >= n + 1:
        return True
    if hi <= n:
        return False
    raise Split('R', [(lo, n), (n + 1, hi)])


def example(box):
    """one concrete input of the box, for the report"""
    ks = sorted(box.b) or []
    if ks:
        n = max(ks) + 1
        return " ".join("%02X" % int(np.nonzero(box.bset(k))[0][0]) for k in range(n if box.R[1] >= n else box.R[1])) or "(empty)"
    ks = sorted(box.cp)
    if ks:
        n = max(ks) + 1
        return " ".join("U+%04X" % box.cset(k)[0][0] for k in range(n if box.R[1] >= n else box.R[1])) or "(empty)"
    return "any input"


class Spec:
    """base: judge() is called for the end of each step and splits the box until it is decided"""
    name = 'transcoder'

    def __init__(self):
        self.n = {}

    def note(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def judge(self, M, h, kind, at, e, x):
        """[((consumed, produced), box)] for header arrivals"""
        work, out = [e.box], []
        orig = e.box
        n = 0
        try:
            while work:
                b = work.pop()
                e.box = b
                n += 1
                if n > 6000:
                    raise Undecided("too many cases")
                try:
                    r = self.one(M, h, kind, at, e, x)
                except Split as s:
                    work += M.split(b, s)
                    continue
                except Undecided as u:
                    M.undec.append((self.where(M, at, e, kind), "%s (%s)" % (u, b.show())))
                    continue
                if r is not None:
                    out.append((r, b))
            if len({r for r, b in out}) == 1:
                return [(out[0][0], orig)] if len(out) > 1 else out
            return out
        finally:
            e.box = orig

    def where(self, M, at, e, kind):
        if kind == 'ret':
            for i in reversed(e.trail):
                w = i.where()
                if ':0 ' not in w and ':?' not in w:
                    return w
        return e.trail[-1].where() if e.trail else M.fn.short

    def outs(self, M, e):
        """written units in order, contiguous from Y"""
        last = {}
        for p, v, w in e.out:
            last[p] = (v, w)
        for p in range(len(last)):
            if p not in last:
                raise Undecided("output written with gaps")
        return [last[p] for p in range(len(last))]

    def differs(self, M, e, got, want):
        """None if equal on the whole box, else True (definite)"""
        if got.top or got.ors:
            raise Undecided("value written is not tracked")
        got = M.norm(got, e.box)
        d = M.norm(add(got, neg(want)), e.box)
        if d.sym:
            raise Undecided("value written depends on a length")
        if d.const():
            return d.c != 0
        # independent bytes: a non-constant separable sum takes two values, one of them is not 0
        if d.tab and not d.bits:
            for k, t in d.tab.items():
                if len(np.unique(t[e.box.bset(k)])) > 1:
                    return True
            return (d.c + sum(int(t[e.box.bset(k)][0]) for k, t in d.tab.items())) & mask(d.w) != 0
        ks = {k for k, j in d.bits}
        if len(ks) == 1 and not d.tab:
            k = ks.pop()
            for lo, hi in e.box.cset(k):
                pts = {lo, hi, (lo + hi) // 2}
                for j in range(21):
                    pts |= {p for p in (lo ^ (1 << j), hi ^ (1 << j)) if lo <= p <= hi}
                for p in pts:
                    if (d.c + sum(c * (p >> j & 1) for (_, j), c in d.bits.items())) & mask(d.w):
                        return True
            # every coefficient cancels on the sampled points; only exact cancellation is accepted
        raise Undecided("value written is not decided")

    def total(self, M, e, x, m):
        """does the returned count equal Y + m?  True/False/None"""
        if isinstance(x, boxes._Cmp) or x is None or x.top:
            return None
        y = {'Y': 1}
        if 'R' in x.sym and e.box.R[0] == e.box.R[1]:
            x = add(x, V(64, sgn(x.sym['R'], 64) * e.box.R[0], {'R': -x.sym['R'] & mask(64)}))
        if M.x0:
            if set(x.sym) - {'X', 'Y'}:
                return None
            return x.const() or not (x.tab or x.bits) and x.c == m
        d = add(x, neg(V(x.w, m, clean64(y))))
        if d.top:
            return None
        if d.const():
            return d.c == 0
        return None if (d.tab or d.bits) else False


def clean64(d):
    return {k: v & mask(64) for k, v in d.items()}


class Transcode(Spec):
    counts = True
    """strict transcoding: outputs are exactly the encoding of the consumed input; 0 is returned only for ill-formed input"""

    def one(self, M, h, kind, at, e, x):
        outs = self.outs(M, e)
        pos, got = 0, 0
        box = e.box
        while got < len(outs):
            if not more(box, pos):
                M.finds.append((outs[got][1], "writes output although the input is used up (input: %s)" % box.show()))
                return None
            r = self.decode(M, box, pos)
            if r is None:
                if kind == 'ret' and x is not None and not isinstance(x, boxes._Cmp) and x.const() and x.c == 0:
                    return None
                M.finds.append((outs[got][1], "accepts ill-formed input %s" % example(box)))
                return None
            n, want = r
            for j, wv in enumerate(want):
                if got + j >= len(outs):
                    if kind == 'ret' and x is not None and not isinstance(x, boxes._Cmp) and x.const() and x.c == 0:
                        return None
                    M.finds.append((outs[got][1], "writes %d unit(s) for %s, %d expected" % (len(outs) - got, example(box), len(want))))
                    return None
                if self.differs(M, e, outs[got + j][0], wv):
                    M.finds.append((outs[got + j][1], "writes a wrong unit for input %s" % example(box)))
                    return None
            got += len(want)
            pos += n
        if kind == 'header':
            self.note('accepted sequences')
            return pos, got
        # returns
        isz = x.const() and x.c == 0 if x is not None and not isinstance(x, boxes._Cmp) else None
        if isz is None:
            raise Undecided("returned value is not tracked")
        if isz and not (M.x0 and not got and not more(box, pos)):
            # an error: something ill-formed must follow
            while True:
                if not more(box, pos):
                    if got or not M.x0 or pos:
                        if M.x0 and not pos:
                            return None
                        M.finds.append((self.where(M, at, e, kind), "reports an error although all input is well-formed (%s)" % box.show()))
                    return None
                if not self.looked(box, pos):
                    M.finds.append((self.where(M, at, e, kind), "reports an error although nothing ill-formed was seen (%s)" % box.show()))
                    return None
                r = self.decode(M, box, pos)
                if r is None:
                    self.note('rejected sequences')
                    return None
                pos += r[0]
                got += 1
        if more(box, pos):
            M.finds.append((self.where(M, at, e, kind), "stops before the end of the input (%s)" % box.show()))
            return None
        t = self.total(M, e, x, got)
        if t is None:
            raise Undecided("returned count is not tracked")
        if not t:
            M.finds.append((self.where(M, at, e, kind), "returned count differs from the number of units written"))
        self.note('complete conversions')
        return None

    def looked(self, box, pos):
        return any(k >= pos for k in box.b) or any(k >= pos for k in box.cp) or True


class Utf8ToUtf32(Transcode):
    def looked(self, box, pos):
        return any(k >= pos for k in box.b)

    def decode(self, M, box, p):
        for lead, tail in WF:
            if inside(box, p, lead):
                for j, s in enumerate(tail):
                    if not more(box, p + 1 + j) or not inside(box, p + 1 + j, s):
                        return None
                n = len(tail)
                lm = [0x7F, 0x1F, 0x0F, 0x07][n]
                v = V(32, 0, {}, {p: (IDX & np.uint64(lm)) << np.uint64(6 * n)})
                for j in range(n):
                    v = add(v, V(32, 0, {}, {p + 1 + j: (IDX & np.uint64(0x3F)) << np.uint64(6 * (n - 1 - j))}))
                return n + 1, [v]
        return None


class Utf32ToUtf8(Transcode):
    def looked(self, box, pos):
        return any(k >= pos for k in box.cp)

    def decode(self, M, box, p):
        def bits(hi, lo, top):
            return V(8, top, {}, {}, {(p, j): 1 << (j - lo) for j in range(lo, hi)})
        if uinside(box, p, [(0, 0x7F)]):
            return 1, [bits(7, 0, 0)]
        if uinside(box, p, [(0x80, 0x7FF)]):
            return 1, [bits(11, 6, 0xC0), bits(6, 0, 0x80)]
        if uinside(box, p, [(0x800, 0xD7FF), (0xE000, 0xFFFF)]):
            return 1, [bits(16, 12, 0xE0), bits(12, 6, 0x80), bits(6, 0, 0x80)]
        if uinside(box, p, [(0x10000, 0x10FFFF)]):
            return 1, [bits(21, 18, 0xF0), bits(18, 12, 0x80), bits(12, 6, 0x80), bits(6, 0, 0x80)]
        return None


class Scan(Spec):
    """consumes units one after the other, writing nothing; every unit the step depends on counts as consumed"""
    def consumed(self, M, e):
        ks = list(e.box.b) + list(e.box.cp)
        ks = [k for k in e.seen]
        return max(ks) + 1 if ks else 0


class Count(Scan):
    counts = True
    """the returned value is the sum over all units of weight(unit)"""
    def one(self, M, h, kind, at, e, x):
        k = self.consumed(M, e)
        while k and not more(e.box, k - 1):
            k -= 1
        m = sum(self.weight(e.box, j) for j in range(k))
        if kind == 'header':
            self.note('units counted', k)
            return k, m
        if more(e.box, k):
            M.finds.append((self.where(M, at, e, kind), "returns a count before the end of the input (%s)" % e.box.show()))
            return None
        t = self.total(M, e, x, m)
        if t is None:
            raise Undecided("returned count is not tracked")
        if not t:
            M.finds.append((self.where(M, at, e, kind), "wrong count for %s" % example(e.box)))
        self.note('results')


class Utf32Len(Count):
    """UTF-8 length of scalar values"""
    def weight(self, box, j):
        for w, ivs in ((1, [(0, 0x7F)]), (2, [(0x80, 0x7FF)]), (3, [(0x800, 0xFFFF)])):
            if uinside(box, j, ivs):
                return w
        return 4


class Utf8Count(Count):
    """number of bytes that are not continuation bytes"""
    def weight(self, box, j):
        return 0 if inside(box, j, bset((0x80, 0xBF))) else 1


class Any(Scan):
    """returns `hit` as soon as / only if some unit satisfies the predicate, otherwise `not hit`"""
    def __init__(self, pred, hit):
        super().__init__()
        self.pred, self.hit = pred, hit

    def one(self, M, h, kind, at, e, x):
        k = self.consumed(M, e)
        while k and not more(e.box, k - 1):
            k -= 1
        hits = [j for j in range(k) if self.pred(e.box, j)]
        if kind == 'header':
            if hits:
                M.finds.append((self.where(M, at, e, kind), "goes on after a unit that decides the answer: %s" % example(e.box), at))
            self.note('units passed', k)
            return k, 0
        v = M.bool(e, x) if isinstance(x, boxes._Cmp) or x.top or not x.const() else bool(x.c)
        if v == self.hit:
            if not hits:
                M.finds.append((self.where(M, at, e, kind), "answers '%s' for %s" % (str(v).lower(), example(e.box))))
        else:
            if hits:
                M.finds.append((self.where(M, at, e, kind), "answers '%s' for %s" % (str(v).lower(), example(e.box))))
            elif more(e.box, k):
                M.finds.append((self.where(M, at, e, kind), "answers '%s' before the end of the input (%s)" % (str(v).lower(), e.box.show())))
        self.note('answers')


class InPlace(Scan):
    """every unit is replaced by f(unit), each exactly once"""
    def __init__(self, table):
        super().__init__()
        self.table = table

    def one(self, M, h, kind, at, e, x):
        k = self.consumed(M, e)
        while k and not more(e.box, k - 1):
            k -= 1
        for j in range(k):
            got = e.ov.get(j, M.unit(j))
            if self.differs(M, e, got, V(8, 0, {}, {j: self.table.copy()})):
                M.finds.append((self.where(M, at, e, kind), "byte %d is not mapped as required (input: %s)" % (j, example(e.box))))
                break
        if kind == 'header':
            self.note('bytes mapped', k)
            return k, 0
        if more(e.box, k):
            M.finds.append((self.where(M, at, e, kind), "returns before the end of the input (%s)" % e.box.show()))
        self.note('results')


# WHATWG: forbidden host code points, C0 controls, U+0025, U+007F; non-ASCII bytes count as forbidden too
FORBIDDEN = bset((0, 0x20), (0x7F, 0xFF))
for c in '#/:<>?@[\\]^|%':
    FORBIDDEN[ord(c)] = True
LOWER = np.array([x + 32 if 65 <= x <= 90 else x for x in range(256)], dtype=np.uint64)
HIGH8 = bset((0x80, 0xFF))


def view_machine(fn, es, big=False):
    """a function whose only argument is a string view (two registers, or by reference)"""
    a = [x["ty"] for x in fn.args]
    if a == ['i64', 'ptr']:
        return boxes.Machine(fn, 1, 0, None, es, None, big=big)
    if a == ['ptr']:
        return boxes.Machine(fn, 'view', None, None, es, None, big=big, viewarg=0)
    raise ir.AnalysisError("anchor changed: %s does not take a view" % fn.short)


def run(R, M, spec, base=None, label=''):
    """merge one analysis into the report"""
    R.functions.add(M.fn.short)
    try:
        M.analyse(spec, base)
    except boxes.Mismatch as x:
        M.finds.append(x.finding)
    except Undecided as u:
        R.unsure(M.fn.short, str(u))
    for w, m in M.finds:
        R.bad(w, m)
    for w, m, ex in M.oob:
        R.bad(w, "%s (input: %s)" % (m, ex))
    for w, m in M.undec:
        R.unsure(w, m)
    for k, n in spec.n.items():
        R.count(k, n)
    R.count('boxes', M.boxes)
    R.states += M.steps
