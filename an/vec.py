"""Transfer functions of loop iterations, exact for every value of one input unit.

The abstract state maps every SSA value to (linear form over symbols) + (constant per lane).  A lane is one abstract
value of the unit the iteration looks at: each code point 0..10FFFF is a lane of its own, and one more lane stands for
all values above (only tests that have the same outcome for all of them can be decided there).  Positions, lengths,
sizes, loop counters and pointers stay symbolic.  A loop whose exit depends on a symbol is cut at its header: phis with
a constant step become  start + step * iteration,  the others become symbols; the result says for every lane where the
iteration goes, how every carried value changes and what it writes.  Loops decided by the lane alone (walks over table
entries) are iterated until no lane is left in them.
"""
import heapq
from math import gcd
import numpy as np
from ir import AnalysisError
from boxes import Undecided

CP = 0x110000
TOP = -1
LIM = 1 << 30


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    x &= mask(w)
    return x - (1 << w) if x >> (w - 1) else x


class Need(Exception):
    """a branch depends on this linear form; parts: intervals to distinguish"""
    def __init__(self, form, parts):
        self.form, self.parts = form, parts


class Val:
    """t: id of the symbolic part (scalar or per lane), a: constant part modulo 2^w (scalar int or uint64 array)"""
    __slots__ = ("w", "t", "a")

    def __init__(self, w, t, a):
        self.w, self.t, self.a = w, t, a

    def scalar(self):
        return not isinstance(self.t, np.ndarray) and not isinstance(self.a, np.ndarray)

    def const(self):
        return self.scalar() and self.t == 0

    def take(self, idx):
        t = self.t
        if isinstance(t, np.ndarray):
            t = t[idx]
            if len(t) and (t == t[0]).all():
                t = int(t[0])
        return Val(self.w, t, self.a[idx] if isinstance(self.a, np.ndarray) else self.a)


def K(w, v):
    return Val(w, 0, v & mask(w))


class Forms:
    """interned linear forms: tuple of (symbol, coefficient)"""
    def __init__(self):
        self.of = [()]
        self.ids = {(): 0}

    def id(self, d):
        k = tuple(sorted(((s, c) for s, c in d.items() if c), key=str))
        if k not in self.ids:
            self.ids[k] = len(self.of)
            self.of.append(k)
        return self.ids[k]

    def get(self, t):
        return dict(self.of[t])


class Outcome:
    def __init__(self, kind, lanes, blk, **kw):
        self.kind, self.lanes, self.blk = kind, lanes, blk
        self.__dict__.update(kw)


class Event:
    def __init__(self, kind, lanes, ins, **kw):
        self.kind, self.lanes, self.ins = kind, lanes, ins
        self.__dict__.update(kw)


class Run:
    """one exploration of a region under a set of facts"""
    def __init__(self, head, facts):
        self.head, self.facts = head, facts
        self.out, self.events = [], []


class Vec:
    BUDGET = 40000

    def __init__(self, fn, nlanes, tables=None, args=None, view=None, obj=(), units=None):
        """args: argument index -> Val; view: (length argument, pointer argument) of the input view;
        obj: argument indices of string objects; units(vec, obj, index Val, lanes, ins) -> Val or None"""
        self.fn, self.n, self.tables = fn, nlanes, tables
        self.F = Forms()
        self.args, self.view, self.obj, self.units = args or {}, view, obj, units
        # logical argument number of every parameter: a view may be passed as two values or by reference, a structure
        # may be returned through a pointer
        self.log, k = {}, 0
        for r, a in enumerate(fn.args):
            if a.get("sret"):
                self.log[r] = 'sret'
            elif view and k == view[0] and a["ty"] == 'ptr':
                self.log[r] = 'view'
                k += 2
            else:
                self.log[r] = k
                k += 1
        self.range = {'N': (0, LIM)}
        self.base_facts = {}
        self.cuts = set()
        self.runs = []
        self.finds = []
        self.steps = 0
        self.order = self.rpo()
        self.maxdup = 0

    # ------------------------------------------------------------------ helpers
    def sym(self, s, w=64, c=0):
        return Val(w, self.F.id({s: 1}), c & mask(w))

    def width(self, ty):
        return 64 if ty == 'ptr' else int(ty[1:]) if ty and ty[0] == 'i' and ty[1:].isdigit() else 64

    def rpo(self):
        fn = self.fn
        loops = fn.loops()

        def succs(b):
            inner = None
            for l in loops.values():
                if b in l.body and (inner is None or len(l.body) < len(inner)):
                    inner = l.body
            return sorted(fn.blocks[b].succ, key=lambda s: (inner is not None and s in inner))
        seen, out = {fn.entry}, []
        st = [(fn.entry, iter(succs(fn.entry)))]
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succs(s))))
                    break
            else:
                out.append(x)
                st.pop()
        return {b: n for n, b in enumerate(reversed(out))}

    def step_of(self, phi):
        """constant step of a header phi around its loop, None when it has none"""
        fn = self.fn
        h = phi.blk.id
        body = fn.loops()[h].body
        out, ok = set(), True

        def walk(o, d, n):
            nonlocal ok
            if o == phi.id:
                out.add(d)
                return
            i = fn.defs.get(o)
            if n > 40 or i is None or i.blk.id not in body:
                ok = False
                return
            w = self.width(i.ty)
            if i.op in ('add', 'sub') and i.o[1].startswith('c:'):
                c = sgn(int(i.o[1].split(':')[2]), w)
                return walk(i.o[0], d + (c if i.op == 'add' else -c), n + 1)
            if i.op == 'getelementptr' and not i.x.get("vars"):
                return walk(i.o[0], d + i.x.get("coff", 0), n + 1)
            if i.op == 'phi' and i.blk.id != h:
                if i.blk.id in fn.loops():
                    ok = False
                    return
                for v, _ in i.x["in"]:
                    walk(v, d, n + 1)
                return
            if i.op == 'select':
                walk(i.o[1], d, n + 1)
                return walk(i.o[2], d, n + 1)
            ok = False
        for v, pb in phi.x["in"]:
            if pb in body:
                walk(v, 0, 0)
        return out.pop() if ok and len(out) == 1 and 0 not in out else None

    # ------------------------------------------------------------------ linear facts
    @staticmethod
    def canon(d):
        """(primitive form with positive first coefficient, factor): d == factor * form"""
        it = sorted(((s, c) for s, c in d.items() if c), key=str)
        g = 0
        for _, c in it:
            g = gcd(g, abs(c))
        if not it:
            return (), 0
        if it[0][1] < 0:
            g = -g
        return tuple((s, c // g) for s, c in it), g

    def bounds(self, form, run):
        """interval of a canonical form under the facts"""
        lo = hi = 0
        for s, c in form:
            a, b = self.srange(s)
            a, b = (a, b) if c > 0 else (b, a)
            lo = None if lo is None or a is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
        for f in (self.base_facts, run.facts):
            if form in f:
                a, b = f[form]
                lo = a if lo is None else lo if a is None else max(lo, a)
                hi = b if hi is None else hi if b is None else min(hi, b)
        if len(form) == 2:
            # one step of transitivity over three symbols
            lo2, hi2 = self.closure(form, run)
            lo = lo2 if lo is None else lo if lo2 is None else max(lo, lo2)
            hi = hi2 if hi is None else hi if hi2 is None else min(hi, hi2)
        return lo, hi

    def closure(self, form, run):
        lo = hi = None
        facts = list(self.base_facts.items()) + list(run.facts.items())
        tgt = dict(form)
        for k, (f, (a, b)) in enumerate(facts):
            for g, (c, d) in facts[k + 1:]:
                for sf in (1, -1):
                    for sg in (1, -1):
                        s = {}
                        for y, z in f:
                            s[y] = s.get(y, 0) + sf * z
                        for y, z in g:
                            s[y] = s.get(y, 0) + sg * z
                        if {y: z for y, z in s.items() if z} == tgt:
                            fl, fh = (a, b) if sf > 0 else (None if b is None else -b, None if a is None else -a)
                            gl, gh = (c, d) if sg > 0 else (None if d is None else -d, None if c is None else -c)
                            if fl is not None and gl is not None:
                                lo = fl + gl if lo is None else max(lo, fl + gl)
                            if fh is not None and gh is not None:
                                hi = fh + gh if hi is None else min(hi, fh + gh)
        return lo, hi

    def srange(self, s):
        if s in self.range:
            return self.range[s]
        if isinstance(s, tuple) and s[0] == 'it':
            return (0, LIM)
        return (None, None)

    def lt0(self, d, c, run):
        """is  d + c < 0 ?  (mathematical integers)"""
        form, g = self.canon(d)
        if not form:
            return c < 0
        lo, hi = self.bounds(form, run)
        # g*L + c < 0
        if g > 0:
            th = -(-(-c) // g) - 1 if False else (-c - 1) // g        # L <= th
            if hi is not None and hi <= th:
                return True
            if lo is not None and lo > th:
                return False
            raise Need(form, [(None, th), (th + 1, None)])
        th = -((c + 1) // g) if False else None
        # L > c/|g|  <=>  |g| L > c  <=> L >= c//|g| + 1
        m = c // (-g) + 1
        if lo is not None and lo >= m:
            return True
        if hi is not None and hi < m:
            return False
        raise Need(form, [(None, m - 1), (m, None)])

    def eq0(self, d, c, run):
        form, g = self.canon(d)
        if not form:
            return c == 0
        if c % g:
            return False
        x = -c // g
        lo, hi = self.bounds(form, run)
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            return False
        if lo is not None and lo == hi == x:
            return True
        p = [(x, x)]
        if lo is None or lo < x:
            p.append((None, x - 1))
        if hi is None or hi > x:
            p.append((x + 1, None))
        raise Need(form, p)

    def size_of(self, d, c, w, run):
        """(lo, hi) of a linear value as a mathematical integer"""
        form, g = self.canon(d)
        if not form:
            return c, c
        lo, hi = self.bounds(form, run)
        lo, hi = (lo, hi) if g > 0 else (hi, lo)
        return None if lo is None else g * lo + c, None if hi is None else g * hi + c

    def isptr(self, t):
        return any(isinstance(s, tuple) and s[0] in ('obj', 'in', 'tab', 'glob', 'alloca', 'buf') for s, _ in self.F.of[t])

    def cmp1(self, p, w, ta, ca, tb, cb, run):
        """comparison of two values that are uniform over the lanes at hand"""
        if ta == TOP or tb == TOP:
            raise Undecided("comparison of an untracked value")
        da, db = self.F.get(ta), self.F.get(tb)
        if not da and not db:
            return {'eq': ca == cb, 'ne': ca != cb, 'ult': ca < cb, 'ule': ca <= cb, 'ugt': ca > cb, 'uge': ca >= cb,
                    'slt': sgn(ca, w) < sgn(cb, w), 'sle': sgn(ca, w) <= sgn(cb, w), 'sgt': sgn(ca, w) > sgn(cb, w),
                    'sge': sgn(ca, w) >= sgn(cb, w)}[p]
        ptr = {s for s in list(da) + list(db) if isinstance(s, tuple) and s[0] in ('obj', 'in', 'tab', 'glob', 'alloca', 'buf')}
        if ptr and {s: da.get(s, 0) for s in ptr} != {s: db.get(s, 0) for s in ptr}:
            if p in ('eq', 'ne') and (not da or not db):
                return p == 'ne'            # pointers to objects are not null
            raise Undecided("comparison of unrelated pointers")
        a, b = sgn(ca, w), sgn(cb, w)
        if p in ('ne', 'uge', 'ugt', 'sge', 'sgt'):
            q, sw = {'ne': ('eq', 0), 'uge': ('ult', 0), 'sge': ('slt', 0), 'ugt': ('ule', 0), 'sgt': ('sle', 0)}[p]
            return not self.cmp1(q, w, ta, ca, tb, cb, run)
        d = dict(da)
        for s, c in db.items():
            d[s] = d.get(s, 0) - c
        d = {s: c for s, c in d.items() if c}
        if not ptr:
            # constants of wide unsigned values may be written as large positive numbers
            for dd, c, nm in ((da, ca, 'a'), (db, cb, 'b')):
                if dd:
                    continue
                if p[0] == 'u' or (p == 'eq' and c >> (w - 1)):
                    if nm == 'a':
                        a = c
                    else:
                        b = c
            if p in ('ult', 'ule'):
                # both sides must be in [0, 2^w)
                na, nb = self.neg(da, a, w, run), self.neg(db, b, w, run)
                if na != nb:
                    return nb
            if p == 'eq' and not db and da:
                # equality modulo 2^w: shift the constant into the range of the symbolic side
                lo, hi = self.size_of(da, a, w, run)
                if lo is not None and lo >= 0:
                    b = cb
                elif hi is not None and hi < 0:
                    b = sgn(cb, w)
        if p == 'eq':
            return self.eq0(d, a - b, run)
        return self.lt0(d, a - b - (1 if p.endswith('le') else 0), run)

    def neg(self, d, c, w, run):
        """is the mathematical value negative (it then wraps to a value above all others)?"""
        if not d:
            return False if c >= 0 else True
        return self.lt0(d, c, run)

    # ------------------------------------------------------------------ values over lanes
    def groups(self, L, *vals):
        """split lanes into groups on which the symbolic parts are uniform: (index array or None, [t...])"""
        ts = [v.t for v in vals]
        if not any(isinstance(t, np.ndarray) for t in ts):
            return [(None, ts)]
        n = len(L)
        key = np.zeros(n, dtype=np.int64)
        for t in ts:
            key = key * (len(self.F.of) + 2) + (np.asarray(t, dtype=np.int64) + 1 if isinstance(t, np.ndarray) else np.int64(t + 1))
        u, inv = np.unique(key, return_inverse=True)
        out = []
        for k in range(len(u)):
            ix = np.nonzero(inv == k)[0]
            out.append((ix, [int(t[ix[0]]) if isinstance(t, np.ndarray) else t for t in ts]))
        return out

    @staticmethod
    def sub(v, ix):
        return v if ix is None else v.take(ix)

    def gather(self, L, parts, w):
        """inverse of groups: [(ix, Val)] -> Val"""
        if len(parts) == 1 and parts[0][0] is None:
            return parts[0][1]
        n = len(L)
        t = np.zeros(n, dtype=np.int32)
        a = np.zeros(n, dtype=np.uint64)
        for ix, v in parts:
            t[ix] = v.t
            a[ix] = v.a if isinstance(v.a, np.ndarray) else np.uint64(v.a)
        return self.shrink(Val(w, t, a))

    @staticmethod
    def shrink(v):
        t, a = v.t, v.a
        if isinstance(t, np.ndarray) and len(t) and (t == t[0]).all():
            t = int(t[0])
        return Val(v.w, t, a)

    @staticmethod
    def u(x):
        return x if isinstance(x, np.ndarray) else np.uint64(x)

    def fix(self, a, w):
        if isinstance(a, np.ndarray):
            return a & np.uint64(mask(w)) if w < 64 else a
        return int(a) & mask(w)

    def lin(self, L, x, y, sub):
        w = x.w
        parts = []
        for ix, (tx, ty) in self.groups(L, x, y):
            a, b = self.sub(x, ix), self.sub(y, ix)
            if tx == TOP or ty == TOP:
                parts.append((ix, Val(w, TOP, 0)))
                continue
            d = self.F.get(tx)
            for s, c in self.F.get(ty).items():
                d[s] = d.get(s, 0) + (-c if sub else c)
            with np.errstate(over='ignore'):
                if isinstance(a.a, np.ndarray) or isinstance(b.a, np.ndarray):
                    r = self.u(a.a) - self.u(b.a) if sub else self.u(a.a) + self.u(b.a)
                else:
                    r = a.a - b.a if sub else a.a + b.a
            parts.append((ix, Val(w, self.F.id(d), self.fix(r, w))))
        return self.gather(L, parts, w)

    def scale(self, L, x, k):
        """x * k for a constant k"""
        w = x.w
        parts = []
        for ix, (tx,) in self.groups(L, x):
            a = self.sub(x, ix)
            if tx == TOP:
                parts.append((ix, Val(w, TOP, 0)))
                continue
            with np.errstate(over='ignore'):
                r = a.a * np.uint64(k & mask(64)) if isinstance(a.a, np.ndarray) else a.a * k
            parts.append((ix, Val(w, self.F.id({s: c * sgn(k, 64) for s, c in self.F.get(tx).items()}), self.fix(r, w))))
        return self.gather(L, parts, w)

    def top(self, w):
        return Val(w, TOP, 0)

    def concrete(self, L, v):
        """lanes on which v is a plain number"""
        if isinstance(v.t, np.ndarray):
            return v.t == 0
        return np.full(len(L), v.t == 0)

    def pointwise(self, L, w, f, *vals):
        """f on the plain numbers, untracked elsewhere"""
        if all(not isinstance(v.t, np.ndarray) and v.t == 0 for v in vals):
            if all(not isinstance(v.a, np.ndarray) for v in vals):
                r = f(*[np.array([v.a], dtype=np.uint64) for v in vals])
                return Val(w, 0, int(r[0]) & mask(w))
            n = len(L)
            r = f(*[v.a if isinstance(v.a, np.ndarray) else np.full(n, v.a, dtype=np.uint64) for v in vals])
            return Val(w, 0, self.fix(r.astype(np.uint64), w))
        ok = np.ones(len(L), bool)
        for v in vals:
            ok &= self.concrete(L, v)
        n = len(L)
        t = np.where(ok, 0, TOP).astype(np.int32)
        a = np.zeros(n, dtype=np.uint64)
        ix = np.nonzero(ok)[0]
        if len(ix):
            vs = [v.take(ix) for v in vals]
            r = f(*[v.a if isinstance(v.a, np.ndarray) else np.full(len(ix), v.a, dtype=np.uint64) for v in vs])
            a[ix] = self.fix(r.astype(np.uint64), w)
        return self.shrink(Val(w, t, a))

    @staticmethod
    def signed(a, w):
        s = a.astype(np.int64)
        if w < 64:
            sh = np.int64(64 - w)
            s = (s << sh) >> sh
        return s

    # ------------------------------------------------------------------ exploration
    def explore(self):
        """regions from the entry and from every cut loop header"""
        self.todo = []
        self.starts = {}
        self.noinv = set()
        while True:
            try:
                self.runs = []
                self.finds = []
                self.starts = {}
                self.loose = False
                self.unitpos = {}
                self.base_facts = {}
                self.todo = [(None, {}, None, self.mem0())]
                while self.todo:
                    h, env, lanes, mem = self.todo.pop()
                    self.region(h, env, lanes, mem)
                if not self.check_inv():
                    continue
                return self
            except Cut as c:
                if c.h in self.cuts:
                    raise Undecided("a loop does not end")
                self.cuts.add(c.h)

    def mem0(self):
        if 'view' in self.log.values():
            return {('slot', 'view', 0, 8): self.sym('N'), ('slot', 'view', 8, 8): self.sym(('in',))}
        return {}

    def region(self, head, env, lanes, mem):
        work = [{}]
        mine = []
        n = 0
        while work:
            facts = work.pop()
            n += 1
            if n > 200:
                raise Undecided("too many cases")
            run = Run(head, facts)
            try:
                self.go(run, dict(env), lanes, dict(mem))
            except Need as x:
                lo, hi = self.bounds(x.form, run)
                k = 0
                for a, b in x.parts:
                    a2 = lo if a is None else a if lo is None else max(a, lo)
                    b2 = hi if b is None else b if hi is None else min(b, hi)
                    if a2 is not None and b2 is not None and a2 > b2:
                        continue
                    f = dict(facts)
                    f[x.form] = (a2, b2)
                    work.append(f)
                    k += 1
                if k < 2 and f == facts:
                    raise Undecided("comparison cannot be decided")
                continue
            self.runs.append(run)
            mine.append(run)
        keep = self.survivors(head, mine)
        for run in mine:
            for o in run.out:
                if o.kind == 'enter':
                    self.enter(o, keep)

    def survivors(self, head, runs):
        """after a loop that looks at every input unit only the units that it let pass are left"""
        if head is None:
            return None
        r = self.survivors1(head, runs)
        if r is None and any(o.kind == 'enter' and head not in self.fn.loops()[o.h].body for x in runs for o in x.out):
            self.loose = True
        return r

    loose = False
    skip = ()

    def survivors1(self, head, runs):
        backs = [(r, o) for r in runs for o in r.out if o.kind == 'back' and o.h == head]
        outs = [(r, o) for r in runs for o in r.out if o.kind == 'enter' and head not in self.fn.loops()[o.h].body]
        form = self.canon({'N': 1, ('it', head): -1})[0]
        if not backs or not outs or form not in self.base_facts:
            return None
        for r, o in outs:
            if self.bounds(form, r)[1] != 0:
                return None
        for r in runs:
            for e in r.events:
                if e.kind == 'read' and e.obj == ('in',) and not (e.index.scalar() and e.index.a == 0 and self.F.get(e.index.t) == {('it', head): 1}):
                    return None
        if not any(e.kind == 'read' for r in runs for e in r.events):
            return None
        m = np.zeros(self.n, bool)
        for _, o in backs:
            m[o.lanes] = True
        return m

    def check_inv(self):
        """bounds assumed for iteration counts: every iteration stays within them"""
        ok = True
        for r in self.runs:
            for o in r.out:
                if o.kind != 'back' or o.h != r.head:
                    continue
                for f, (bl, bh) in list(self.base_facts.items()):
                    c = dict(f).get(('it', o.h), 0)
                    if c and f not in self.noinv:
                        lo, hi = self.bounds(f, r)
                        if (bl is not None and (lo is None or lo + c < bl)) or (bh is not None and (hi is None or hi + c > bh)):
                            self.noinv.add(f)
                            ok = False
        return ok

    def enter(self, o, keep=None):
        """first arrival at a cut header"""
        h = o.h
        if keep is not None:
            o.lanes = o.lanes[keep[o.lanes]]
            if not len(o.lanes):
                return
        key = (h, tuple(sorted(o.key.items())), hash(o.lanes.tobytes()), len(o.lanes))
        if key in self.starts:
            return
        if h in self.skip:
            self.starts[key] = o
            return
        if sum(k[0] == h for k in self.starts) > 8:
            raise Undecided("too many entries of one loop")
        self.starts[key] = o
        env = dict(o.env)
        counted = False
        for p in self.fn.blocks[h].phis():
            st = self.step_of(p)
            v = o.phis[p.id]
            if st is not None and v.scalar() and v.t != TOP:
                d = self.F.get(v.t)
                d0, c0 = dict(d), sgn(v.a, v.w)
                d[('it', h)] = st
                counted = True
                env[p.id] = Val(v.w, self.F.id(d), v.a)
                if st == -1 and p.ty != 'ptr' and not self.bases(v.t):
                    self.downto(o, h, d0, d, c0)
            else:
                env[p.id] = self.carried(p, v)
        mem = dict(o.mem)
        body = self.fn.loops()[h].body
        self.havoc(h, body, mem)
        for s in self.lengths(o) if counted else ():
            f = self.canon({s: 1, ('it', h): -1})[0]
            if f not in self.noinv:
                self.base_facts[f] = self.orient({s: 1, ('it', h): -1}, 0, LIM)
        self.todo.append((h, env, o.lanes, mem))

    def downto(self, o, h, d0, d, c):
        """a counter that is not negative at the start is assumed not to become negative"""
        run = Run(None, o.facts)
        lo, hi = self.size_of(d0, c, 64, run)
        form, g = self.canon(d)
        if lo is not None and lo >= 0 and abs(g) == 1 and form not in self.noinv and form not in self.base_facts and len(form) > 1:
            self.base_facts[form] = (-c, None) if g > 0 else (None, c)

    def orient(self, d, lo, hi):
        return (lo, hi) if self.canon(d)[1] > 0 else (-hi, -lo)

    def lengths(self, o):
        """symbols an iteration count may be compared with for equality"""
        return (['N'] if self.view else []) + [('sz', ('obj', k), 0) for k in self.obj]

    def carried(self, p, v):
        s = ('phi', p.id)
        if s not in self.range and self.boolean(p):
            self.range[s] = (0, 1)
        return self.sym(s, self.width(p.ty))

    def boolean(self, p):
        """every value that reaches this phi is 0 or 1"""
        fn = self.fn
        seen, work = set(), [p.id]
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            if o.startswith('c:'):
                if int(o.split(':')[2]) > 1:
                    return False
                continue
            i = fn.defs.get(o)
            if i is None:
                return False
            if i.op == 'icmp' or i.ty == 'i1':
                continue
            if i.op == 'phi':
                work += [v for v, _ in i.x["in"]]
            elif i.op in ('or', 'and', 'xor', 'zext', 'trunc', 'freeze'):
                work += i.o
            elif i.op == 'select':
                work += i.o[1:]
            else:
                return False
        return True

    def havoc(self, h, body, mem):
        for i in self.fn.instrs():
            if i.blk.id not in body:
                continue
            if i.op == 'store' and not i.o[1].startswith('@'):
                for k in list(mem):
                    if k[0] == 'slot' and k[1] == i.o[1]:
                        mem[k] = self.sym(('mem', k, h), mem[k].w)
            if i.op in ('call', 'invoke') and any(x in i.callee for x in ('::resize', '::push_back', '::clear', '::append', '::operator=', '::erase', '::insert', '::assign', '::pop_back', '::operator+=')):
                for k in list(mem):
                    if k[0] == 'size':
                        mem[k] = self.sym(('sz', k[1], h))

    def go(self, run, env, lanes, mem):
        self.run, self.env, self.mem = run, env, mem
        fn = self.fn
        if run.head is None:
            for k, a in enumerate(fn.args):
                env[a["id"]] = self.argval(k, a)
            lanes = np.arange(self.n)
            start = fn.entry
        else:
            start = run.head
        pend = {}
        heap = []
        self.iters = {}

        def push(b, frm, ls):
            if b not in pend:
                pend[b] = []
                heapq.heappush(heap, (self.order[b], b))
            pend[b].append((frm, ls))
        push(start, None, lanes)
        while heap:
            _, b = heapq.heappop(heap)
            arr = pend.pop(b)
            self.steps += 1
            if self.steps > self.BUDGET:
                raise Undecided("budget")
            if arr[0][0] is not None:
                phis = fn.blocks[b].phis()
                if b in self.cuts and any(f in fn.loops()[b].body for f, _ in arr):
                    for f, ls in arr:
                        if b == run.head or f in fn.loops()[b].body:
                            self.arrive('back', run, b, f, ls)
                        else:
                            self.arrive('enter', run, b, f, ls)
                    continue
                if b in self.cuts and b != run.head:
                    for f, ls in arr:
                        self.arrive('enter', run, b, f, ls)
                    continue
                vals = []
                for f, ls in arr:
                    for p in phis:
                        for v, pb in p.x["in"]:
                            if pb == f:
                                vals.append((p, ls, self.val(v, ls, self.width(p.ty))))
                                break
                for p, ls, v in vals:
                    self.setv(p.id, ls, v)
                if b in fn.loops():
                    self.iters[b] = self.iters.get(b, 0) + 1
                    if self.iters[b] > 3000:
                        raise Cut(b)
            L = arr[0][1] if len(arr) == 1 else np.sort(np.concatenate([ls for _, ls in arr]))
            try:
                for t, ls in self.block(b, L):
                    if len(ls):
                        push(t, b, ls)
            except Need as x:
                l = fn.loop_of(b)
                while l is not None and (l.header in self.cuts or not (b in l.body)):
                    l = l.parent
                # a branch on a symbol inside a loop that is not cut yet: cut the innermost one it can leave or continue
                if l is not None and self.cutting(l, b):
                    raise Cut(l.header)
                raise

    def cutting(self, l, b):
        return l.header not in self.cuts

    def kept(self, h):
        """the values that are used again behind the header"""
        live = self.live()[h]
        return {k: v for k, v in self.env.items() if k in live or k[0] != '%'}

    def live(self):
        if not hasattr(self.fn, '_live'):
            fn = self.fn
            use, dfn, out = {}, {}, {}
            for b in fn.blocks.values():
                u, d = set(), set()
                for i in b.ins:
                    if i.op != 'phi':
                        u |= {o for o in i.o if isinstance(o, str) and o not in d}
                        u |= {v for v, _ in (i.x.get("vars") or []) if v not in d}
                    d.add(i.id)
                use[b.id], dfn[b.id] = u, d
            live = {b: set(use[b]) for b in fn.blocks}
            again = True
            while again:
                again = False
                for b in fn.blocks.values():
                    o = set()
                    for t in b.succ:
                        ph = fn.blocks[t].phis()
                        o |= live[t] - {p.id for p in ph}
                        o |= {v for p in ph for v, pb in p.x["in"] if pb == b.id}
                    n = use[b.id] | (o - dfn[b.id])
                    if n != live[b.id]:
                        live[b.id] = n
                        again = True
            for a in fn.args:
                for b in live.values():
                    b.add(a["id"])
            fn._live = live
        return self.fn._live

    def arrive(self, kind, run, h, frm, ls):
        phis = {}
        key = {}
        for p in self.fn.blocks[h].phis():
            for v, pb in p.x["in"]:
                if pb == frm:
                    x = self.val(v, ls, self.width(p.ty))
                    phis[p.id] = x
                    key[p.id] = (x.t, x.a) if x.scalar() else ('lanes', id(x))
        run.out.append(Outcome(kind, ls, frm, h=h, phis=phis, key={k: str(v) for k, v in key.items()},
                               env=None if kind == 'back' else self.kept(h), mem=dict(self.mem),
                               facts=run.facts, nev=len(run.events)))

    def setv(self, id, L, v):
        old = self.env.get(id)
        full = len(L) == self.n
        if v.scalar() and (old is None or full or (old.scalar() and old.t == v.t and old.a == v.a)):
            self.env[id] = v
            return
        if full and not v.scalar():
            self.env[id] = Val(v.w, v.t, v.a)
            return
        # expand
        if isinstance(v.t, np.ndarray) or old is None or isinstance(old.t, np.ndarray) or old.t != v.t:
            t = np.zeros(self.n, np.int32)
            if old is not None:
                t[:] = old.t
            t[L] = v.t
        else:
            t = v.t
        a = np.zeros(self.n, np.uint64)
        if old is not None:
            a[:] = old.a if isinstance(old.a, np.ndarray) else np.uint64(old.a)
        a[L] = v.a if isinstance(v.a, np.ndarray) else np.uint64(v.a)
        self.env[id] = Val(v.w, t, a)

    def argval(self, k, a):
        k = self.log[k]
        if k in ('view', 'sret'):
            return self.sym(('alloca', k))
        if k in self.args:
            return self.args[k]
        if self.view and k == self.view[0]:
            return self.sym('N')
        if self.view and k == self.view[1]:
            return self.sym(('in',))
        if a["ty"] == 'ptr':
            return self.sym(('obj', k))
        return self.sym(('arg', k), self.width(a["ty"]))

    def val(self, o, L, w=64):
        if o.startswith('%'):
            v = self.env.get(o)
            if v is None:
                return self.top(w)
            return v.take(L) if not v.scalar() else v
        if o.startswith('c:'):
            _, ww, x = o.split(':')
            return K(int(ww), int(x))
        if o in ('null', 'zeroinitializer'):
            return K(w, 0)
        if o.startswith('@'):
            return self.sym(('glob', o[1:]))
        return self.top(w)

    # ------------------------------------------------------------------ instructions
    def block(self, b, L):
        for i in self.fn.blocks[b].ins:
            if i.op == 'phi':
                continue
            if i.op in ('br', 'switch', 'ret', 'unreachable'):
                return self.term(i, L)
            r = self.step(i, L)
            if isinstance(r, tuple):
                r, L = r               # some lanes ended here
                if not len(L):
                    return []
            if r is not None:
                self.setv(i.id, L, r)
        return []

    def truth(self, v, L):
        """boolean array"""
        if v.const():
            return np.full(len(L), bool(v.a))
        if isinstance(v.t, np.ndarray) or v.t != 0:
            res = np.zeros(len(L), bool)
            for ix, (t,) in self.groups(L, v):
                x = self.sub(v, ix)
                if t == TOP:
                    raise Undecided("branch on an untracked value")
                if t == 0:
                    r = (self.u(x.a) & np.uint64(1)) != 0
                else:
                    r = self.boolsym(t, x)
                if ix is None:
                    res[:] = r
                else:
                    res[ix] = r
            return res
        return (v.a & np.uint64(1)) != 0

    def boolsym(self, t, x):
        """a symbolic boolean: 0 or 1"""
        d = self.F.get(t)
        f = self.F.of[t]
        if len(f) == 1 and f[0][1] in (1, -1):
            s = f[0][0]
            self.range.setdefault(s, (0, 1))
            z = self.eq0({s: 1}, 0, self.run)
            return ((self.u(x.a) & np.uint64(1)) != 0) ^ (not z)
        raise Undecided("branch on a combined value")

    def term(self, i, L):
        if i.op == 'ret':
            v = self.val(i.o[0], L, 64) if i.o else None
            if i.o and i.o[0].startswith('%') and i.o[0] in self.agg:
                v = self.agg[i.o[0]]
            if 'sret' in self.log.values():
                v = {}
                for k, x in self.mem.items():
                    if k[0] == 'slot' and k[1] == 'sret':
                        v[(k[2] // 8,)] = x.take(L) if not x.scalar() else x
            self.run.out.append(Outcome('ret', L, i.blk.id, val=v, env=None, mem=dict(self.mem), facts=self.run.facts, nev=len(self.run.events), ins=i))
            return []
        if i.op == 'unreachable':
            return []
        if i.op == 'br':
            s = i.x["succ"]
            if len(s) == 1 or s[0] == s[1]:
                return [(s[0], L)]
            c = self.truth(self.val(i.o[0], L, 1), L)
            if c.all() or not c.any():
                return [(s[0] if c[0] else s[1], L)] if len(L) else []
            return [(s[0], L[c]), (s[1], L[~c])]
        if i.op == 'switch':
            v = self.val(i.o[0], L)
            rest = np.ones(len(L), bool)
            out = []
            for c, t in i.x["cases"]:
                c = int(str(c).split(':')[-1])
                m = rest & self.compare('eq', v, K(v.w, c), L)
                out.append((t, L[m]))
                rest &= ~m
            out.append((i.x["def"], L[rest]))
            by = {}
            for t, ls in out:
                by.setdefault(t, []).append(ls)
            return [(t, np.sort(np.concatenate(l)) if len(l) > 1 else l[0]) for t, l in by.items()]
        return []

    def compare(self, p, x, y, L):
        res = np.zeros(len(L), bool)
        w = x.w
        for ix, (tx, ty) in self.groups(L, x, y):
            a, b = self.sub(x, ix), self.sub(y, ix)
            n = len(L) if ix is None else len(ix)
            if tx == 0 and ty == 0:
                aa = a.a if isinstance(a.a, np.ndarray) else np.full(n, a.a, np.uint64)
                bb = b.a if isinstance(b.a, np.ndarray) else np.full(n, b.a, np.uint64)
                if p[0] == 's':
                    aa, bb = self.signed(aa, w), self.signed(bb, w)
                q = p[-2:] if p in ('eq', 'ne') else p[1:]
                r = {'eq': np.equal, 'ne': np.not_equal, 'lt': np.less, 'le': np.less_equal, 'gt': np.greater, 'ge': np.greater_equal}[q](aa, bb)
            else:
                r = self.comparesym(p, w, tx, a.a, ty, b.a, n)
            if ix is None:
                res[:] = r
            else:
                res[ix] = r
        return res

    def comparesym(self, p, w, tx, a, ty, b, n):
        if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
            return self.cmp1(p, w, tx, a, ty, b, self.run)
        aa = a if isinstance(a, np.ndarray) else np.full(n, a, np.uint64)
        bb = b if isinstance(b, np.ndarray) else np.full(n, b, np.uint64)
        if len(aa) > 1:
            uq, inv = np.unique(np.stack([aa, bb]), axis=1, return_inverse=True)
            if uq.shape[1] > 3000:
                raise Undecided("too many different comparisons")
            r = np.array([self.cmp1(p, w, tx, int(uq[0, k]), ty, int(uq[1, k]), self.run) for k in range(uq.shape[1])])
            return r[inv.reshape(-1)]
        return np.array([self.cmp1(p, w, tx, int(aa[0]), ty, int(bb[0]), self.run)])

    def step(self, i, L):
        op = i.op
        w = self.width(i.ty)
        if op in ('add', 'sub'):
            return self.lin(L, self.val(i.o[0], L, w), self.val(i.o[1], L, w), op == 'sub')
        if op == 'mul':
            x, y = self.val(i.o[0], L, w), self.val(i.o[1], L, w)
            if y.const():
                return self.scale(L, x, sgn(y.a, w))
            if x.const():
                return self.scale(L, y, sgn(x.a, w))
            return self.pointwise(L, w, lambda a, b: a * b, x, y)
        if op == 'shl':
            x, y = self.val(i.o[0], L, w), self.val(i.o[1], L, w)
            if y.const() and y.a < w:
                return self.scale(L, x, 1 << y.a)
            return self.pointwise(L, w, lambda a, b: np.where(b < w, a << np.minimum(b, np.uint64(63)), np.uint64(0)), x, y)
        if op == 'or':
            x, y = self.val(i.o[0], L, w), self.val(i.o[1], L, w)
            r = self.logic(i, L, x, y, w)
            if r is not None:
                return r
            return self.pointwise(L, w, lambda a, b: a | b, x, y)
        if op == 'and':
            x, y = self.val(i.o[0], L, w), self.val(i.o[1], L, w)
            r = self.logic(i, L, x, y, w)
            if r is not None:
                return r
            return self.pointwise(L, w, lambda a, b: a & b, x, y)
        if op == 'xor':
            x, y = self.val(i.o[0], L, w), self.val(i.o[1], L, w)
            if w == 1 and y.const() and not (x.scalar() and x.t == 0):
                return self.notb(L, x) if y.a else x
            return self.pointwise(L, w, lambda a, b: a ^ b, x, y)
        if op in ('lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            x, y = self.val(i.o[0], L, w), self.val(i.o[1], L, w)
            return self.divide(op, L, w, x, y)
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            sw = self.width(i.x.get("sty") or i.ty) if op in ('zext', 'sext') else None
            x = self.val(i.o[0], L, sw or w)
            if op in ('freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
                return Val(w, x.t, x.a)
            return self.conv(op, L, x, w)
        if op == 'icmp':
            x = self.val(i.o[0], L)
            y = self.val(i.o[1], L, x.w)
            if y.w != x.w:
                x = Val(y.w, x.t, x.a)
            try:
                r = self.compare(i.x["p"], x, y, L)
            except Need:
                return self.lazy(i, L, x, y)
            except Undecided:
                return self.top(1)
            return Val(1, 0, r.astype(np.uint64)) if not (r.all() or not r.any()) else K(1, int(r[0]))
        if op == 'select':
            c = self.truth(self.val(i.o[0], L, 1), L)
            x, y = self.val(i.o[1], L, w), self.val(i.o[2], L, w)
            if c.all():
                return x
            if not c.any():
                return y
            t = np.where(c, x.t, y.t)
            a = np.where(c, self.u(x.a), self.u(y.a))
            return self.shrink(Val(w, t.astype(np.int32), a))
        if op == 'getelementptr':
            t = self.lin(L, self.val(i.o[0], L), K(64, i.x.get("coff", 0)), False)
            for v, s in i.x.get("vars") or []:
                x = self.val(v, L)
                if x.w != 64:
                    x = self.conv('sext', L, x, 64)
                t = self.lin(L, t, self.scale(L, x, s), False)
            return t
        if op == 'alloca':
            return self.sym(('alloca', i.id))
        if op == 'load':
            return self.load(i, L, w)
        if op == 'store':
            return self.store(i, L)
        if op in ('call', 'invoke'):
            return self.call(i, L, w)
        if op == 'insertvalue':
            base = dict(self.agg.get(i.o[0], {}))
            v = self.val(i.o[1], L, 64)
            if not v.scalar() and len(L) != self.n:
                self.setv('agg' + i.id, L, v)
                v = self.env['agg' + i.id]
            base[tuple(i.x["idx"])] = v
            self.agg[i.id] = base
            return None
        if op == 'extractvalue':
            a = self.agg.get(i.o[0])
            if a is None or tuple(i.x["idx"]) not in a:
                return self.top(w)
            v = a[tuple(i.x["idx"])]
            return v.take(L) if not v.scalar() else v
        return self.top(w)

    agg = {}

    def logic(self, i, L, x, y, w):
        """and/or with one side plain and the other symbolic boolean"""
        for a, b in ((x, y), (y, x)):
            if (isinstance(a.t, np.ndarray) or a.t != 0) and not isinstance(b.t, np.ndarray) and b.t == 0:
                if w == 1 or self.isbool(a):
                    bb = self.u(b.a) if isinstance(b.a, np.ndarray) else np.full(len(L), b.a, np.uint64)
                    if (bb > 1).any():
                        return None
                    one = bb != 0
                    t = np.where(one, a.t, 0) if i.op == 'and' else np.where(one, 0, a.t)
                    v = np.where(one, self.u(a.a), np.uint64(0)) if i.op == 'and' else np.where(one, np.uint64(1), self.u(a.a))
                    return self.shrink(Val(w, np.broadcast_to(t, len(L)).astype(np.int32), np.broadcast_to(v, len(L)).astype(np.uint64)))
        return None

    def isbool(self, v):
        if np.max(v.a) > 1 or ((np.asarray(v.t) != 0) & (np.asarray(v.a) != 0)).any():
            return False
        for t in np.unique(v.t):
            f = self.F.of[int(t)] if t != TOP else None
            if f is None:
                return False
            if f and not (len(f) == 1 and self.srange(f[0][0]) == (0, 1) and f[0][1] == 1):
                return False
        return True

    def notb(self, L, x):
        """1 - x for booleans"""
        return self.lin(L, K(1, 1), x, True)

    def lazy(self, i, L, x, y):
        """an undecided comparison becomes a symbol that a branch decides later"""
        raise_now = True
        if raise_now:
            self.compare(i.x["p"], x, y, L)      # raises Need again: the region is explored for both outcomes

    def conv(self, op, L, x, w):
        if not isinstance(x.t, np.ndarray) and x.t == 0:
            if not isinstance(x.a, np.ndarray):
                return K(w, sgn(x.a, x.w) if op == 'sext' else x.a)
            if op == 'sext':
                return Val(w, 0, self.fix(self.signed(x.a, x.w).astype(np.uint64), w))
            return Val(w, 0, self.fix(x.a, w))
        parts = []
        for ix, (t,) in self.groups(L, x):
            v = self.sub(x, ix)
            if t == 0:
                a = v.a if isinstance(v.a, np.ndarray) else np.array([v.a], np.uint64)
                r = self.signed(a, x.w).astype(np.uint64) if op == 'sext' else a
                r = self.fix(r, w)
                parts.append((ix, Val(w, 0, r if isinstance(v.a, np.ndarray) else int(r[0]))))
            elif t == TOP:
                parts.append((ix, Val(w, TOP, 0)))
            else:
                parts.append((ix, self.convsym(op, t, v, w)))
        return self.gather(L, parts, w)

    def convsym(self, op, t, v, w):
        """widening of a symbolic value: exact when its range is known not to wrap"""
        d = self.F.get(t)
        cs = np.unique(v.a) if isinstance(v.a, np.ndarray) else [v.a]
        for c in cs:
            lo, hi = self.size_of(d, sgn(int(c), v.w), v.w, self.run)
            if op == 'trunc':
                if lo is None or hi is None or lo < 0 or hi > mask(w):
                    return Val(w, TOP, 0)
            else:
                if lo is None or hi is None or lo < (0 if op == 'zext' else -(1 << (v.w - 1))) or hi > (mask(v.w) if op == 'zext' else mask(v.w - 1)):
                    return Val(w, TOP, 0)
        a = v.a
        if op != 'trunc':
            a = self.fix(self.signed(a, v.w).astype(np.uint64), w) if isinstance(a, np.ndarray) else sgn(a, v.w) & mask(w)
        else:
            a = self.fix(a, w)
        return Val(w, t, a)

    def divide(self, op, L, w, x, y):
        if op == 'lshr':
            f = lambda a, b: np.where(b < w, a >> np.minimum(b, np.uint64(63)), np.uint64(0))
        elif op == 'ashr':
            f = lambda a, b: (self.signed(a, w) >> np.minimum(b, np.uint64(63)).astype(np.int64)).astype(np.uint64)
        elif op == 'udiv':
            f = lambda a, b: a // np.maximum(b, np.uint64(1))
        elif op == 'urem':
            f = lambda a, b: a % np.maximum(b, np.uint64(1))
        elif op == 'sdiv':
            f = lambda a, b: (np.abs(self.signed(a, w)) // np.maximum(np.abs(self.signed(b, w)), 1) * np.sign(self.signed(a, w)) * np.sign(self.signed(b, w))).astype(np.uint64)
        else:
            f = lambda a, b: (np.abs(self.signed(a, w)) % np.maximum(np.abs(self.signed(b, w)), 1) * np.sign(self.signed(a, w))).astype(np.uint64)
        if y.const() and not isinstance(x.t, np.ndarray) and x.t not in (0, TOP) and not isinstance(x.a, np.ndarray):
            k = 1 << y.a if op in ('lshr', 'ashr') else y.a
            d = self.F.get(x.t)
            c = sgn(x.a, w)
            if k and all(v % k == 0 for v in d.values()) and c % k == 0 and op in ('lshr', 'ashr', 'udiv', 'sdiv'):
                return Val(w, self.F.id({s: v // k for s, v in d.items()}), (c // k) & mask(w))
        return self.pointwise(L, w, f, x, y)

    # ------------------------------------------------------------------ memory
    def load(self, i, L, w):
        p = self.val(i.o[0], L)
        sz = i.x.get("sz", 8)
        parts = []
        for ix, (t,) in self.groups(L, p):
            q = self.sub(p, ix)
            ls = L if ix is None else L[ix]
            parts.append((ix, self.load1(i, ls, t, q, sz, w)))
        dead = [(ix, v) for ix, v in parts if isinstance(v, tuple)]
        if not dead:
            return self.gather(L, parts, w)
        # lanes that read out of bounds end here
        ok = np.ones(len(L), bool)
        np_ = []
        for ix, v in parts:
            idx = np.arange(len(L)) if ix is None else ix
            if isinstance(v, tuple):
                v, good = v
                ok[idx[~good]] = False
                np_.append((idx[good], v))
            else:
                np_.append((idx, v))
        full = self.gather(L, [(ix, v) for ix, v in np_ if len(ix)], w) if ok.any() else K(w, 0)
        return (full.take(ok) if not full.scalar() else full, L[ok])

    def bases(self, t):
        return [s for s, _ in self.F.of[t] if isinstance(s, tuple) and s[0] in ('obj', 'in', 'tab', 'glob', 'alloca', 'buf')]

    def load1(self, i, L, t, p, sz, w):
        if t in (TOP, 0):
            return self.top(w)
        b = self.bases(t)
        d = self.F.get(t)
        if len(b) != 1 or d[b[0]] != 1:
            return self.top(w)
        b = b[0]
        rest = {s: c for s, c in d.items() if s != b}
        if b[0] == 'glob':
            if not rest and not isinstance(p.a, np.ndarray) and p.a == 0 and sz == 8 and self.tables and b[1] in self.tables.ptr:
                return self.sym(('tab', self.tables.ptr[b[1]]))
            return self.globload(i, L, b[1], rest, p, sz, w)
        if b[0] == 'tab':
            if rest:
                return self.top(w)
            x = self.tables.extent(b[1])
            if x is None:
                return self.top(w)
            return self.rawload(i, L, self.tables.raw, x[0], x[1], b[1], p, sz, w, "a table")
        if b[0] == 'alloca':
            if not rest and not isinstance(p.a, np.ndarray):
                v = self.mem.get(('slot', b[1], p.a, sz))
                if v is not None:
                    return v.take(L) if not v.scalar() else v
            return self.top(w)
        return self.unitload(i, L, b, rest, p, sz, w)

    def globload(self, i, L, name, rest, p, sz, w):
        g = self.fn.mod.ginit(name)
        if g is None or rest or not self.fn.mod.globals[name].get("const", True):
            return self.top(w)
        return self.rawload(i, L, g[0], 0, len(g[0]), 0, p, sz, w, "a constant")

    def rawload(self, i, L, raw, lo, hi, off, p, sz, w, what):
        if not hasattr(self, '_np'):
            self._np = {}
        if id(raw) not in self._np:
            self._np[id(raw)] = (np.frombuffer(raw, np.uint8), raw)
        arr = self._np[id(raw)][0]
        if not isinstance(p.a, np.ndarray):
            c = off + sgn(p.a, 64)
            if c < lo or c + sz > hi:
                self.oob(i, L, c - lo, hi - lo, what)
                return (K(w, 0), np.zeros(len(L), bool))
            return K(w, int.from_bytes(bytes(raw[c:c + sz]), 'little'))
        c = self.signed(p.a, 64) + off
        good = (c >= lo) & (c + sz <= hi)
        if not good.all():
            bad = np.nonzero(~good)[0]
            self.oob(i, L[bad], int(c[bad[0]]) - lo, hi - lo, what)
        c = c[good]
        r = np.zeros(len(c), np.uint64)
        for k in range(sz):
            r |= arr[c + k].astype(np.uint64) << np.uint64(8 * k)
        v = Val(w, 0, r)
        return v if good.all() else (v, good)

    def oob(self, i, lanes, at, size, what):
        self.finds.append((i.where(), "reads byte %d of %s of %d bytes for %s" % (at, what, size, self.lane(lanes[0]))))

    def lane(self, l):
        return "U+%04X" % l if l < CP else "a unit above 10FFFF"

    def unitload(self, i, L, b, rest, p, sz, w):
        """units of the input view or of a string object"""
        if self.units is None:
            return self.top(w)
        c = p.a if isinstance(p.a, np.ndarray) else sgn(p.a, 64)
        if any(v % 4 for v in rest.values()) or sz != 4:
            return self.top(w)
        if isinstance(c, np.ndarray):
            cc = self.signed(c, 64)
            if (cc % 4).any():
                return self.top(w)
            ixv = Val(64, self.F.id({s: v // 4 for s, v in rest.items()}), (cc // 4).astype(np.uint64))
        else:
            if c % 4:
                return self.top(w)
            ixv = Val(64, self.F.id({s: v // 4 for s, v in rest.items()}), (c // 4) & mask(64))
        self.run.events.append(Event('read', L, i, obj=b, index=ixv))
        r = self.units(self, b, ixv, L, i)
        return self.top(w) if r is None else r

    def store(self, i, L):
        v = self.val(i.o[0], L)
        p = self.val(i.o[1], L)
        for ix, (t,) in self.groups(L, p):
            q, x = self.sub(p, ix), self.sub(v, ix)
            ls = L if ix is None else L[ix]
            if t in (0, TOP):
                self.run.events.append(Event('wild', ls, i))
                continue
            b = self.bases(t)
            d = self.F.get(t)
            if len(b) != 1:
                self.run.events.append(Event('wild', ls, i))
                continue
            b = b[0]
            rest = {s: c for s, c in d.items() if s != b}
            if b[0] == 'alloca':
                if rest or isinstance(q.a, np.ndarray):
                    self.run.events.append(Event('wild', ls, i))
                    continue
                sz = i.x.get("sz", 8)
                k = ('slot', b[1], q.a, sz)
                if x.scalar() and (len(ls) == self.n or k not in self.mem):
                    self.mem[k] = x
                else:
                    self.env['$m'] = self.mem[k] if k in self.mem else K(x.w, 0)
                    self.setv('$m', ls, x)
                    self.mem[k] = self.env.pop('$m')
                continue
            if any(c % 4 for c in rest.values()):
                self.run.events.append(Event('wild', ls, i))
                continue
            c = self.signed(q.a, 64) if isinstance(q.a, np.ndarray) else sgn(q.a, 64)
            f = self.F.id({s: c_ // 4 for s, c_ in rest.items()})
            iv = Val(64, f, (c // 4).astype(np.uint64) if isinstance(c, np.ndarray) else (c // 4) & mask(64))
            self.run.events.append(Event('write', ls, i, obj=b, index=iv, val=x))
            self.wrote(b, iv, x, ls)
        return None

    def wrote(self, b, iv, x, ls):
        pass

    def local(self, x):
        """number of the local variable (or by-reference parameter) that x points to"""
        if x.scalar() and x.t not in (0, TOP) and x.a == 0:
            f = self.F.of[x.t]
            if len(f) == 1 and isinstance(f[0][0], tuple) and f[0][0][0] == 'alloca' and f[0][1] == 1:
                return f[0][0][1]
        return None

    def byref(self, n, a, i):
        """arguments as if views were passed by value; a result passed by reference is remembered"""
        if i.ty == 'void' and a and ('operator u32view' in n or 'compute_decomposition_length' in n) and self.local(a[0]) is not None and len(a) == 2:
            self.out = self.local(a[0])
            a = a[1:]
        if 'basic_string' in n:
            return a
        r = []
        for x in a:
            k = self.local(x)
            if k is not None and ('slot', k, 0, 8) in self.mem and ('slot', k, 8, 8) in self.mem:
                r += [self.mem[('slot', k, 0, 8)], self.mem[('slot', k, 8, 8)]]
            else:
                r.append(x)
        return r

    def give(self, i, d):
        """the result of a call is a structure"""
        if self.out is None:
            self.agg[i.id] = d
        else:
            for (k,), x in d.items():
                self.mem[('slot', self.out, 8 * k, x.w // 8)] = x
        return None

    # ------------------------------------------------------------------ calls
    def call(self, i, L, w):
        n = i.callee
        a = [self.val(o, L) for o in i.o]
        self.out = None
        if 'u32view' in n:
            a = self.byref(n, a, i)
        r = self.hook(i, L, n, a, w)
        if r is not NotImplemented:
            return r
        if n.startswith('llvm.') or (i.x.get("f") or '').startswith('llvm.'):
            f = i.x.get("f") or n
            if any(x in f for x in ('lifetime', 'assume', 'dbg', 'experimental.noalias', 'invariant')):
                return None
            if '.memcpy.' in f and len(a) > 2 and a[2].const() and self.local(a[0]) is not None and self.local(a[1]) is not None:
                d, z = self.local(a[0]), self.local(a[1])
                for k in [k for k in self.mem if k[0] == 'slot' and k[1] == d]:
                    del self.mem[k]
                for k in [k for k in self.mem if k[0] == 'slot' and k[1] == z and k[2] + k[3] <= a[2].a]:
                    self.mem[('slot', d) + k[2:]] = self.mem[k]
                return None
            if '.umin.' in f or '.umax.' in f or '.smin.' in f or '.smax.' in f:
                lt = self.compare('ult' if '.u' in f else 'slt', a[0], a[1], L)
                c = lt if 'min' in f else ~lt
                return self.shrink(Val(w, np.where(c, a[0].t, a[1].t).astype(np.int32), np.where(c, self.u(a[0].a), self.u(a[1].a))))
            return self.top(w) if w else None
        if 'ensure_tables' in n or 'tables_are_ready' in n:
            return K(1, 1)
        if 'glibcxx_assert' in n or n.startswith('std::__glibcxx_assert'):
            return None
        m = n.split('::')[-1].split('(')[0] if '::' in n else n
        if ('u32string::' in n or n.startswith('string::')) and a and a[0].scalar() and a[0].t not in (0, TOP):
            b = self.bases(a[0].t)
            if len(b) == 1 and a[0].a == 0:
                return self.strcall(i, L, n, m, b[0], a, w)
        self.run.events.append(Event('call', L, i, name=n, args=a))
        if not n.startswith('u32string::basic_string<u32view'):
            self.clobber(a)
        return self.top(w) if i.ty and i.ty != 'void' else None

    def clobber(self, a):
        """local variables whose address is passed on"""
        ids = set()
        for x in a:
            for t in np.unique(x.t):
                if t != TOP:
                    ids |= {s[1] for s in self.bases(int(t)) if s[0] == 'alloca'}
        for k in self.mem:
            if k[0] == 'slot' and k[1] in ids:
                self.mem[k] = self.top(self.mem[k].w)

    def hook(self, i, L, n, a, w):
        return NotImplemented

    def size(self, b):
        k = ('size', b)
        if k not in self.mem:
            s = ('sz', b, 0)
            self.range[s] = (0, LIM)
            self.mem[k] = self.sym(s)
        return self.mem[k]

    def strcall(self, i, L, n, m, b, a, w):
        es = 4 if 'u32string' in n else 1
        if m in ('operator[]', 'at'):
            base = self.sym(('buf', b)) if es == 4 else self.sym(('buf', b))
            return self.lin(L, base, self.scale(L, a[1], es), False)
        if m in ('data', 'c_str', 'begin'):
            return self.sym(('buf', b))
        if m == 'operator u32view':
            v = self.size(b)
            return self.give(i, {(0,): v.take(L) if not v.scalar() else v, (1,): self.sym(('buf', b))})
        if m == 'end':
            return self.lin(L, self.sym(('buf', b)), self.scale(L, self.size(b), es), False)
        if m in ('size', 'length'):
            v = self.size(b)
            return v.take(L) if not v.scalar() else v
        if m == 'empty':
            v = self.size(b)
            r = self.compare('eq', v.take(L) if not v.scalar() else v, K(64, 0), L)
            return Val(1, 0, r.astype(np.uint64))
        if m == 'clear':
            self.run.events.append(Event('clear', L, i, obj=b))
            self.setsize(b, L, K(64, 0))
            return None
        if m == 'resize':
            self.run.events.append(Event('resize', L, i, obj=b, val=a[1]))
            self.setsize(b, L, a[1])
            return None
        if m in ('push_back',) or (m == 'operator+=' and len(a) == 2 and a[1].w == 8 * es):
            old = self.size(b)
            old = old.take(L) if not old.scalar() else old
            self.run.events.append(Event('write', L, i, obj=('buf', b), index=old, val=a[1], push=True))
            self.setsize(b, L, self.lin(L, old, K(64, 1), False))
            return None
        if m == 'reserve':
            return None
        self.run.events.append(Event('call', L, i, name=n, args=a, obj=b))
        return self.top(w) if i.ty and i.ty != 'void' else None

    def setsize(self, b, L, v):
        self.env['$m'] = self.mem.get(('size', b)) or K(64, 0)
        if len(L) == self.n:
            self.env['$m'] = None
        self.setv('$m', L, v)
        self.mem[('size', b)] = self.env.pop('$m')


class Cut(Exception):
    def __init__(self, h):
        self.h = h
