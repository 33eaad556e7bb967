"""Path-sensitive abstract interpreter over the canonical IR (disjunctive dataflow).

Each abstract state is a set of facts: symbolic constants / linear forms for SSA values,
interval sets, relations, contents of std::string objects as abstract tokens, and the
client's typestate.  States are propagated over the CFG to a fixpoint; loop headers
normalise loop-variant information and widen.  Branch facts refine states; contradictory
states are dropped.  Nothing is executed and no solver is involved.
"""
import heapq, re
from terms import *
import ir

MAXSTATES = 60000


class Undecided(Exception):
    pass


class State:
    __slots__ = ("env", "mem", "iv", "rel", "obj", "osz", "over", "ts", "sem", "touched", "vtok", "trail", "conds")

    def __init__(self):
        self.env, self.mem, self.iv, self.rel = {}, {}, {}, {}
        self.obj, self.osz, self.over, self.ts = {}, {}, {}, {}
        self.sem, self.touched, self.vtok, self.trail, self.conds = frozenset(), frozenset(), {}, (), ()

    def copy(self):
        s = State.__new__(State)
        s.env, s.mem, s.iv, s.rel = dict(self.env), dict(self.mem), dict(self.iv), dict(self.rel)
        s.obj, s.osz, s.over, s.ts = dict(self.obj), dict(self.osz), dict(self.over), dict(self.ts)
        s.sem, s.touched, s.vtok, s.trail, s.conds = self.sem, self.touched, dict(self.vtok), self.trail, self.conds
        return s

    def fz(self, d):
        return frozenset(d.items())

    def key(self):
        return (self.fz(self.env), self.fz(self.mem), self.fz(self.iv), self.fz(self.rel), self.fz(self.obj),
                self.fz(self.osz), self.fz(self.over), self.fz(self.ts), self.sem, self.touched, self.conds)

    # ---- typestate helpers
    def say(self, *f):
        self.sem = self.sem | {f}

    def knows(self, *f):
        return f in self.sem

    # ---- abstract evaluation
    def rng(self, t):
        """interval set of possible unsigned values"""
        w = t[1]
        if t[0] == 'k':
            return ((t[2], t[2]),)
        r = self._rng(t)
        f = self.iv.get(t)
        if f is not None:
            r = inter(r, f)
        return r

    def _rng(self, t):
        w = t[1]
        k = t[0]
        M = (1 << w) - 1
        if k in 'z':
            return self.rng(t[2])
        if k == 'x':
            n = t[2]
            h = 1 << (n[1] - 1)
            out = []
            for a, b in self.rng(n):
                if a < h:
                    out.append((a, min(b, h - 1)))
                if b >= h:
                    out.append((max(a, h) - 2 * h + (1 << w), b - 2 * h + (1 << w)))
            return iset(*out)
        if k == 't':
            r = self.rng(t[2])
            if r and r[-1][1] <= M:
                return r
            return full(w)
        if k == '+':
            lo = hi = sgn(w, t[2])
            for x, c in t[3]:
                r = self.rng(x)
                if not r:
                    return ()
                c = sgn(w, c)
                a, b = r[0][0], r[-1][1]
                if c >= 0:
                    lo, hi = lo + c * a, hi + c * b
                else:
                    lo, hi = lo + c * b, hi + c * a
            if lo >= 0 and hi <= M:
                if len(t[3]) == 1 and t[3][0][1] == 1:
                    return tuple((a + sgn(w, t[2]), b + sgn(w, t[2])) for a, b in self.rng(t[3][0][0]))
                return ((lo, hi),)
            if hi < 0 and lo >= -(1 << w):
                return ((lo + (1 << w), hi + (1 << w)),)
            if len(t[3]) == 1 and sgn(w, t[3][0][1]) == 1:  # exact modular shift
                out = []
                for a, b in self.rng(t[3][0][0]):
                    a, b = a + t[2], b + t[2]
                    if a > M:
                        out.append((a - M - 1, b - M - 1))
                    elif b > M:
                        out += [(a, M), (0, b - M - 1)]
                    else:
                        out.append((a, b))
                return iset(*out)
            return full(w)
        if k == 'o':
            op, a, b = t[2], t[3], t[4]
            ra, rb = self.rng(a), self.rng(b)
            if not ra or not rb:
                return ()
            al, ah, bl, bh = ra[0][0], ra[-1][1], rb[0][0], rb[-1][1]
            if op == 'and':
                if is_k(b) and popmask(b[2]) and ah <= b[2]:
                    return ra
                if is_k(b):
                    mask = b[2]
                    low = (mask & -mask) if mask else 0
                    # clear-low mask keeps order
                    return ((0, min(ah, mask)),)
                return ((0, min(ah, bh)),)
            if op == 'or':
                n = max(ah.bit_length(), bh.bit_length())
                return ((max(al, bl), (1 << n) - 1),)
            if op == 'xor':
                n = max(ah.bit_length(), bh.bit_length())
                return ((0, (1 << n) - 1),)
            if op == 'lshr' and is_k(b):
                return iset(*((x >> b[2], y >> b[2]) for x, y in ra))
            if op == 'ashr' and is_k(b) and ah < (1 << (w - 1)):
                return iset(*((x >> b[2], y >> b[2]) for x, y in ra))
            if op == 'udiv' and bl > 0:
                return ((al // bh, ah // bl),)
            if op == 'sdiv' and bl > 0 and ah < (1 << (w - 1)) and bh < (1 << (w - 1)):
                return ((al // bh, ah // bl),)
            if op == 'urem' and bl > 0:
                return ((0, min(ah, bh - 1)),)
            if op == 'srem' and bl > 0 and ah < (1 << (w - 1)) and bh < (1 << (w - 1)):
                return ((0, min(ah, bh - 1)),)
            if op == 'mul' and ah * bh <= M:
                return ((al * bl, ah * bh),)
            if op == 'shl' and is_k(b) and ah << b[2] <= M:
                return ((al << b[2], ah << b[2]),)
            return full(w)
        if k in 'c!':
            v = self.truth(t)
            return ((0, 1),) if v is None else ((int(v), int(v)),)
        return full(w)

    def val(self, t):
        if t[0] == 'k':
            return t[2]
        r = self.rng(t)
        if len(r) == 1 and r[0][0] == r[0][1]:
            return r[0][0]
        return None

    def truth(self, c):
        """True/False/None for a boolean term"""
        if c[0] == 'k':
            return bool(c[2])
        if c[0] == '!':
            v = self.truth(c[2])
            return None if v is None else not v
        if c in self.rel:
            return self.rel[c]
        if c[0] == 'c':
            p, a, b = c[2], c[3], c[4]
            ra, rb = self.rng(a), self.rng(b)
            if not ra or not rb:
                return None
            if p == 'eq':
                if not inter(ra, rb):
                    return False
                if len(ra) == 1 and ra == rb and ra[0][0] == ra[0][1]:
                    return True
                for q in (('c', 1, 'ult', a, b), ('c', 1, 'ult', b, a)):
                    if self.rel.get(q):
                        return False
                if self.rel.get(('c', 1, 'ule', a, b)) and self.rel.get(('c', 1, 'ule', b, a)):
                    return True
                return None
            w = a[1]
            if p[0] == 's':
                h = 1 << (w - 1)
                sr = lambda r: (min(x - (1 << w) if x >= h else x for x, _ in self._spl(r, h)),
                                max(y - (1 << w) if y >= h else y for _, y in self._spl(r, h)))
                al, ah = sr(ra)
                bl, bh = sr(rb)
            else:
                al, ah, bl, bh = ra[0][0], ra[-1][1], rb[0][0], rb[-1][1]
            if p[1:] == 'lt':
                if ah < bl: return True
                if al >= bh: return False
                if self.rel.get(('c', 1, p[0] + 'le', b, a)): return False
                if self.rel.get(('c', 1, p[0] + 'lt', b, a)): return False
                e = self._eqv(a, b)
                if e: return False
                if e is False and self.rel.get(('c', 1, p[0] + 'le', a, b)): return True
            else:
                if ah <= bl: return True
                if al > bh: return False
                if self.rel.get(('c', 1, p[0] + 'lt', a, b)): return True
                if self.rel.get(('c', 1, p[0] + 'lt', b, a)): return False
                if self._eqv(a, b): return True
            return None
        if c[0] == 'o' and c[1] == 1:
            x, y = self.truth(c[3]), self.truth(c[4])
            if c[2] == 'and':
                if x is False or y is False: return False
                if x and y: return True
            if c[2] == 'or':
                if x or y: return True
                if x is False and y is False: return False
            if c[2] == 'xor' and x is not None and y is not None:
                return x != y
            return None
        f = self.iv.get(c)
        if f and len(f) == 1 and f[0][0] == f[0][1] and c[1] == 1:
            return bool(f[0][0])
        return None

    def _eqv(self, a, b):
        e = cmp('eq', a, b)
        if e[0] == 'k':
            return bool(e[2])
        return self.rel.get(e)

    @staticmethod
    def _spl(r, h):
        for a, b in r:
            if a < h <= b:
                yield (a, h - 1)
                yield (h, b)
            else:
                yield (a, b)

    def restrict(self, t, s):
        """t ∈ s ; returns feasibility"""
        if t[0] == 'k':
            return any(a <= t[2] <= b for a, b in s)
        cur = self.rng(t)
        new = inter(cur, s)
        if not new:
            return False
        if new != cur or t[0] in ('s', 'ld'):
            if new != full(t[1]):
                self.iv[t] = new
        w = t[1]
        k = t[0]
        if k == 'z':
            return self.restrict(t[2], inter(new, full(t[2][1])))
        if k == 'x':
            n = t[2]
            h = 1 << (n[1] - 1)
            out = []
            for a, b in new:
                if a < h: out.append((a, min(b, h - 1)))
                top = (1 << w) - h
                if b >= top: out.append((max(a, top) - (1 << w) + 2 * h, b - (1 << w) + 2 * h))
            return self.restrict(n, iset(*out))
        if k == '+' and len(t[3]) == 1:
            x, c = t[3][0]
            M = (1 << w) - 1
            if c == 1:
                out = []
                for a, b in new:
                    a, b = a - t[2], b - t[2]
                    if b < 0: out.append((a + M + 1, b + M + 1))
                    elif a < 0: out += [(0, b), (a + M + 1, M)]
                    else: out.append((a, b))
                return self.restrict(x, iset(*out))
        if k == 'o' and is_k(t[4]):
            op, a, c = t[2], t[3], t[4][2]
            M = (1 << w) - 1
            if op == 'and' and len(new) == 1 and new[0][0] == new[0][1]:
                v = new[0][0]
                inv = c ^ M
                if v & ~c:
                    return False
                if popmask(inv) or inv == 0:  # high-bits mask: contiguous range
                    return self.restrict(a, ((v, v | inv),))
                hi = a[0] == 'z' and a[2][1]
                if hi and popmask((c ^ ((1 << hi) - 1)) & ((1 << hi) - 1)):
                    return self.restrict(a, ((v, v | ((c ^ ((1 << hi) - 1)) & ((1 << hi) - 1))),))
            if op == 'lshr' and new:
                return self.restrict(a, iset(*((x << c, ((y + 1) << c) - 1) for x, y in new if (x << c) <= M)))
        return True

    def assume(self, c, v, client=None):
        """returns False when contradictory"""
        if c[0] == 'k':
            return bool(c[2]) == v
        if c[0] == '!':
            return self.assume(c[2], not v, client)
        if c[0] == 'c' and c[2] != 'eq' and not v:
            return self.assume(neg(c), True, client)
        t = self.truth(c)
        if t is not None and t != v:
            return False
        if c[0] == 'c':
            p, a, b = c[2], c[3], c[4]
            w = a[1]
            M = (1 << w) - 1
            self.rel[c] = v
            if p == 'eq':
                if v:
                    r = inter(self.rng(a), self.rng(b))
                    if not r or not self.restrict(a, r) or not self.restrict(b, r):
                        return False
                else:
                    va, vb = self.val(a), self.val(b)
                    if vb is not None and not self.restrict(a, compl(((vb, vb),), w)):
                        return False
                    if va is not None and not self.restrict(b, compl(((va, va),), w)):
                        return False
                if client:
                    client.on_assume(self, c, v)
                return True
            if p == 'ule' and self.rel.get(('c', 1, 'ule', b, a)):      # a <= b and b <= a
                e = cmp('eq', a, b)
                if self.truth(e) is False or e[0] == 'c' and not self.assume(e, True):
                    return False
            ra, rb = self.rng(a), self.rng(b)
            if not ra or not rb:
                return False
            d = 1 if p[1:] == 'lt' else 0
            if p[0] == 'u':
                bh, al = rb[-1][1], ra[0][0]
                if bh - d < 0:
                    return False
                if (is_k(b) or bh < M - (1 << (w - 2))) and not self.restrict(a, ((0, bh - d),)):
                    return False
                if al + d > M or not self.restrict(b, ((al + d, M),)):
                    return False
            else:
                h = 1 << (w - 1)
                off = lambda r: iset(*((x ^ h, y ^ h) for x, y in self._spl(r, h)))
                oa, ob = off(ra), off(rb)
                bh, al = ob[-1][1], oa[0][0]
                if bh - d < 0 or al + d > M:
                    return False
                if not self.restrict(a, off(((0, bh - d),))) or not self.restrict(b, off(((al + d, M),))):
                    return False
            if client:
                client.on_assume(self, c, v)
            return True
        if c[0] == 'o' and c[1] == 1:
            if c[2] == 'and' and v or c[2] == 'or' and not v:
                self.rel[c] = v
                return self.assume(c[3], v, client) and self.assume(c[4], v, client)
        self.rel[c] = v
        if c[1] == 1 and not self.restrict(c, ((int(v), int(v)),)):
            return False
        if client:
            client.on_assume(self, c, v)
        return True


# ------------------------------------------------------------------------------------
class Client:
    """Override hooks.  Default: opaque calls return fresh symbols."""
    loop_all = True

    def init(self, st, fn): pass
    def on_assume(self, st, cond, v): pass
    def on_call(self, st, ins, name, args): return NotImplemented  # -> term | None | list[(st, term)]
    def on_load(self, st, ins, addr): pass
    def on_store(self, st, ins, addr, val): pass
    def on_ret(self, st, ins, val): pass
    def on_header(self, st, loop, entry): pass
    def on_back(self, st, loop): pass
    def on_edge(self, st, a, b): pass
    def keep_atom(self, a): return False
    def keep_ld(self, st, ld): return False
    def keep_fact(self, st, f): return False
    def live_terms(self, st): return ()
    def live_tokens(self, st): return ()
    def before_gc(self, st): pass


STR = re.compile(r"^(?:void |(?:u32)?string& )?(u32string|string)::(.*)$")


class Interp:
    def __init__(self, fn, client, forall=None, inv=None, collect_conds=False, max_states=MAXSTATES):
        self.fn, self.c, self.mod = fn, client, fn.mod
        self.forall_in = forall            # {(header, addr0): iset} from a previous pass
        self.forall_out = {}
        self.inv_in = inv or {}
        self.inv_cand, self.entries = {}, {}
        self.collect = collect_conds
        self.nstates = 0
        self.max = max_states
        self.rets = []
        self._live()
        self._loopinfo()
        client.ip = self

    # ---- preparation ------------------------------------------------------------
    def _live(self):
        fn = self.fn
        live = {b: set() for b in fn.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.order):
                bl = fn.blocks[b]
                out = set()
                for s in bl.succ:
                    sb = fn.blocks[s]
                    out |= live[s] - {p.id for p in sb.phis()}
                    for p in sb.phis():
                        for v, pb in p.x["in"]:
                            if pb == b and v.startswith('%'):
                                out.add(v)
                cur = set(out)
                for i in reversed(bl.ins):
                    cur.discard(i.id)
                    if i.op == 'phi':
                        continue
                    for o in i.o:
                        if isinstance(o, str) and o.startswith('%'):
                            cur.add(o)
                    for v, _ in i.x.get("vars") or []:
                        if v.startswith('%'):
                            cur.add(v)
                    if i.op == 'br' and i.o and i.o[0].startswith('%'):
                        cur.add(i.o[0])
                for p in bl.phis():
                    pass
                if cur != live[b]:
                    live[b] = cur
                    ch = True
        self.live = live

    def _loopinfo(self):
        fn = self.fn
        self.loops = fn.loops()
        self.rpo = {b: n for n, b in enumerate(fn.rpo())}
        self.inblk = {}
        for i in fn.instrs():
            self.inblk[i.id] = i.blk.id
        self.esc = set()
        der = {}
        for i in fn.instrs():
            if i.op == 'alloca':
                der[i.id] = i.id
            elif i.op in ('getelementptr', 'bitcast', 'addrspacecast') and i.o[0] in der:
                der[i.id] = der[i.o[0]]
        for i in fn.instrs():
            ops = [v for v, _ in i.x["in"]] if i.op == 'phi' else i.o[1:] if i.op == 'select' else i.o[:1] if i.op in ('store', 'ptrtoint') else []
            for o in ops:
                if o in der:
                    self.esc.add(der[o])
        self.linfo = {}
        for h, lp in self.loops.items():
            ind = {}
            for p in fn.blocks[h].phis():
                step = None
                ok = True
                for v, pb in p.x["in"]:
                    if pb in lp.body:
                        s = self._step(v, p.id)
                        if s is None or (step is not None and step != s):
                            ok = False
                        step = s
                if ok and step:
                    ind[p.id] = step
            mut = set()
            memw = set()
            for b in lp.body:
                for i in fn.blocks[b].ins:
                    if i.op == 'call':
                        for o in self.mutated_ops(i):
                            r = self._root(o)
                            if r:
                                mut.add(r)
                                memw.add(r)
                    elif i.op == 'store':
                        r = self._root(i.o[1])
                        memw.add(r or '?')
            self.linfo[h] = dict(ind=ind, mut=mut, memw=memw)

    def _step(self, v, pid, depth=0):
        """constant increment of v relative to phi pid along plain add/gep chains"""
        if v == pid:
            return 0
        if depth > 8 or v not in self.fn.defs:
            return None
        i = self.fn.defs[v]
        if i.op == 'add' and i.o[1].startswith('c:'):
            b = self._step(i.o[0], pid, depth + 1)
            w, c = int(i.o[1].split(':')[1]), int(i.o[1].split(':')[2])
            return None if b is None else b + sgn(w, c)
        if i.op == 'sub' and i.o[1].startswith('c:'):
            b = self._step(i.o[0], pid, depth + 1)
            w, c = int(i.o[1].split(':')[1]), int(i.o[1].split(':')[2])
            return None if b is None else b - sgn(w, c)
        if i.op == 'getelementptr' and not i.x.get("vars"):
            b = self._step(i.o[0], pid, depth + 1)
            return None if b is None else b + i.x.get("coff", 0)
        if i.op == 'phi':
            r = {self._step(x, pid, depth + 1) for x, _ in i.x["in"]}
            if len(r) == 1:
                return r.pop()
        return None

    def _root(self, o):
        seen = 0
        while isinstance(o, str) and o in self.fn.defs and seen < 50:
            i = self.fn.defs[o]
            seen += 1
            if i.op in ('getelementptr', 'bitcast', 'addrspacecast'):
                o = i.o[0]
            elif i.op == 'alloca':
                return o
            else:
                return None
        return o if isinstance(o, str) and (o.startswith('%a') or o.startswith('@')) else None

    def mutated_ops(self, ins):
        """pointer operands through which a call may write"""
        n = ins.callee
        if n.startswith('llvm.'):
            return [ins.o[0]] if n.startswith('llvm.mem') else []
        m = STR.match(n)
        if m:
            return [] if n.rstrip().endswith(' const') or re.match(r"operator\[\]|(data|begin|end|size|length|empty|front|back|at)\b", m.group(2)) or m.group(2).startswith('~') \
                else [ins.o[0]]
        if n.startswith('bool std::operator') or re.match(r'view::|u32view::', n):
            return []
        w = self.c_writes(n)
        if w is not None:
            return [ins.o[k] for k in w if k < len(ins.o)]
        return [o for o in ins.o if isinstance(o, str) and o.startswith('%')]

    # argument positions (IR operands; a view takes two) written by library functions
    WRITES = {
        'idna::is_ascii(': (), 'idna::map(u32view, u32string&)': (2,), 'idna::map(u32view)': (0,), 'idna::is_already_nfc(': (),
        'idna::normalize(': (0,), 'idna::punycode_to_utf32(': (2,), 'idna::verify_punycode(': (), 'idna::utf32_to_punycode(': (2,),
        'idna::is_label_valid(': (), 'idna::ensure_tables(': (), 'idna::tables_are_ready(': (), 'idna::utf32_length_from_utf8(': (),
        'idna::utf8_length_from_utf32(': (), 'idna::utf8_to_utf32(': (2,), 'idna::utf32_to_utf8(': (2,), 'idna::ascii_map(': (0,),
        'idna::contains_forbidden_domain_code_point(': (), 'idna::valid_name_code_point(': (), 'idna::crc32_ieee(': (),
        'idna::to_ascii(view, string&)': (2,), 'idna::to_unicode(view, string&)': (2,), 'idna::to_ascii(view)': (0,), 'idna::to_unicode(view)': (0,),
        'idna::deflate::inflate_raw(': (2,), 'memcmp': (), 'strlen': (), 'memchr': (), 'simdutf::utf32_length_from_utf8': (),
        'simdutf::utf8_length_from_utf32': (), 'simdutf::convert_utf8_to_utf32': (2,), 'simdutf::convert_utf32_to_utf8': (2,),
    }

    def c_writes(self, n):
        for p, w in self.WRITES.items():
            if n.startswith(p):
                return w
        if re.search(r'std::(ranges::)?_*(find|find_if|find_if_not|lower_bound|upper_bound|binary_search|equal)', n):
            return ()
        return None

    # ---- values -----------------------------------------------------------------
    def val(self, st, o, w=None):
        if o.startswith('c:'):
            _, ww, v = o.split(':')
            return K(int(ww), int(v))
        if o.startswith('%'):
            if o in st.env:
                return st.env[o]
            i = self.fn.defs.get(o)
            return ('s', self.width(i.ty) if i else (w or 64), 'undefd', o)
        if o == 'null':
            return K(64, 0)
        if o.startswith('@'):
            return ('s', 64, 'ga', o[1:])
        if o.startswith('g:@'):
            n, off = o[3:].rsplit('+', 1) if '+-' not in o else (o[3:o.rindex('+')], o[o.rindex('+') + 1:])
            return add(64, ('s', 64, 'ga', n), K(64, int(off)))
        if o in ('undef', 'poison', 'zero'):
            return K(w or 64, 0) if o == 'zero' else ('s', w or 64, 'undef')
        return ('s', w or 64, 'opq', o)

    @staticmethod
    def width(ty):
        if ty.startswith('i') and ty[1:].isdigit():
            return int(ty[1:])
        return 64

    # ---- main loop --------------------------------------------------------------
    def run(self):
        fn = self.fn
        st = State()
        for k, a in enumerate(fn.args):
            w = self.width(a["ty"])
            st.env[a["id"]] = ('s', w, 'argp', k) if a["ty"] == 'ptr' else ('s', w, 'arg', k)
        self.pending = {}
        self.heap = []
        self.hdr = {}
        self.c.init(st, fn)
        self.push(fn.entry, st, None)
        while self.heap:
            _, b = heapq.heappop(self.heap)
            sts = self.pending.pop(b, None)
            if not sts:
                continue
            for st in list(sts.values()):
                self.block(b, st)
        return self

    def push(self, b, st, frm):
        st = self.enter(b, st, frm)
        if st is None:
            return
        d = self.pending.setdefault(b, {})
        if not d:
            heapq.heappush(self.heap, (self.rpo.get(b, 10**9), b))
        k = st.key()
        if k not in d:
            d[k] = st
            self.nstates += 1
            if self.nstates > self.max:
                raise Undecided("state budget exceeded in %s" % self.fn.short)

    def site_in(self, lp):
        body = lp.body

        def p(a):
            if a[0] == 's':
                k = a[2]
                if k == 'it':
                    return a[3] in body
                if k in ('sdata', 'ssize'):
                    v = a[4]
                    return isinstance(v, tuple) and len(v) > 1 and self.inblk.get(v[1], v[1]) in body and v[0] != 'pre'
                for x in a[3:]:
                    if isinstance(x, str) and self.inblk.get(x) in body:
                        return True
            if a[0] == 'ld':
                v = a[3]
                if isinstance(v, tuple) and len(v) > 1 and (self.inblk.get(v[1], v[1]) in body):
                    return True
            return False
        return p

    def tok_in(self, lp):
        body = lp.body

        def p(t, ment):
            if not isinstance(t, tuple) or not t:
                return False
            if t[0] == 'view':
                return ment(t[1]) or ment(t[2])
            if len(t) == 2 and isinstance(t[0], str) and isinstance(t[1], str) and self.inblk.get(t[1]) in body:
                return True
            if t[0] in ('s', '+', 'o', 'z', 'x', 't', 'ld', 'c', '!') and len(t) > 2 and isinstance(t[1], int):
                return ment(t)
            return any(p(x, ment) for x in t)
        return p

    def enter(self, b, st, frm):
        fn = self.fn
        bl = fn.blocks[b]
        lp = self.loops.get(b)
        phis = bl.phis()
        inc = {}
        for p in phis:
            for v, pb in p.x["in"]:
                if pb == frm:
                    inc[p.id] = self.val(st, v, self.width(p.ty))
        if lp is None:
            for k, v in inc.items():
                st.env[k] = v
            self.gc(b, st)
            return st
        info = self.linfo[b]
        back = frm in lp.body
        self.cur_inc = inc
        if back:
            self.c.on_back(st, lp)
            self._collect_forall(st, lp)
            self._collect_inv(st, lp)
        else:
            self.entries.setdefault((b, self._disc(st, lp)), []).append(st.copy())
            if hasattr(self.c, 'on_entry_pre'):
                self.c.on_entry_pre(st, lp)
        hdisc = self._disc(st, lp)
        inl = self.site_in(lp)
        # intervals of incoming values before facts die
        incr = {k: st.rng(v) for k, v in inc.items()}
        # drop stale facts
        ment = lambda t: mentions(t, inl)
        st.rel = {k: v for k, v in st.rel.items() if not ment(k)}
        st.iv = {k: v for k, v in st.iv.items() if not ment(k)}
        for k in [k for k in st.env if self.inblk.get(k) in lp.body]:
            del st.env[k]
        hv = ('hdr', b)
        for o in list(st.over):
            if o[0] == 'r':
                bs = o[1]
                if ment(bs):
                    del st.over[o]
                    continue
                root = bs[3] if bs[2] == 'al' else '%%a%d' % bs[3] if bs[2] == 'argp' else '@' + bs[3] if bs[2] == 'ga' else None
                if bs[2] == 'sdata':
                    root = bs[3][1]
                if root is None or root in info['memw'] or ('?' in info['memw'] and (bs[2] != 'al' or bs[3] in self.esc)):
                    st.over[o] = hv
                continue
            if o[1] in info['mut']:
                st.over[o] = hv
                st.osz[o] = ('s', 64, 'ssize', o, hv)
                st.obj[o] = self.c.hdr_token(st, o, lp) if hasattr(self.c, 'hdr_token') else ('hdr', b, o)
        for o in list(st.osz):
            if ment(st.osz[o]):
                st.osz[o] = ('s', 64, 'ssize', o, hv)
        st.mem = {k: v for k, v in st.mem.items() if k[0] not in info['memw'] and not ment(v[1])
                  and not ('?' in info['memw'] and k[0] in self.esc)}
        st.vtok = {k: v for k, v in st.vtok.items() if not ment(k)}
        st.touched = frozenset(t for t in st.touched if not ment(t))
        if st.sem:
            inst = self.tok_in(lp)
            st.sem = frozenset(f for f in st.sem if not any(inst(x, ment) for x in f[1:]) or self.c.keep_fact(st, f))
        it = ('s', 64, 'it', b)
        for p in phis:
            w = self.width(p.ty)
            t = inc.get(p.id)
            if t is None:
                t = ('s', w, 'undef')
            step = info['ind'].get(p.id)
            if step is not None and (not back):
                itw = ('s', w, 'it', b)
                st.env[p.id] = add(w, t, scale(w, itw, step))
                st.env[('init', p.id)] = t
                continue
            if step is not None and back:
                t0 = st.env.get(('init', p.id))
                if t0 is None:
                    t0 = ('s', w, 'phi', p.id)
                st.env[p.id] = add(w, t0, scale(w, ('s', w, 'it', b), step))
                continue
            if w == 1 and is_k(t):
                st.env[p.id] = t
            elif not ment(t) and not back and is_k(t) and w <= 8:
                st.env[p.id] = t
            elif back and is_k(t) and w <= 8:
                st.env[p.id] = t
            else:
                pb = ptr_base(t) if p.ty == 'ptr' else None
                s = ('s', w, 'phi', p.id)
                if pb is not None and not ment(pb):
                    es = self._elem(p.id)
                    st.env[p.id] = add(w, pb, scale(w, s, es))
                else:
                    st.env[p.id] = s if w != 1 else s
                    if not ment(t) and not back:
                        pass
                    st.iv[s] = incr.get(p.id) or full(w)
        st.iv[it] = ((0, (1 << 62)),)
        for c in self.inv_in.get((b, hdisc), ()):
            st.rel[c] = True
        self.c.on_header(st, lp, not back)
        self.gc(b, st)
        # join/widen numeric facts of loop symbols per discrete key
        syms = {}
        for k in list(st.iv):
            if k[1] >= 16 and k != it:
                syms[k] = st.iv.pop(k)
        key = st.key()
        H = self.hdr.setdefault(b, {})
        ent = H.get(key)
        if ent is None:
            H[key] = [dict(syms), 1]
            ns = syms
        else:
            old, n = ent
            ns = {}
            ch = False
            for k in old:
                if k in syms:
                    u = union(old[k], syms[k])
                    if u != old[k]:
                        ch = True
                        if n > 1:
                            u = self._widen(old[k], u, k[1])
                        if n > 4:
                            u = None
                    if u is not None and u != full(k[1]):
                        ns[k] = u
                else:
                    ch = True
            if not ch:
                return None
            H[key] = [dict(ns), n + 1]
        st.iv.update(ns)
        return st

    @staticmethod
    def _widen(old, new, w):
        lo = 0 if new[0][0] < old[0][0] else new[0][0]
        hi = (1 << w) - 1 if new[-1][1] > old[-1][1] else new[-1][1]
        return ((lo, hi),)

    def _elem(self, pid):
        sz = set()
        for i in self.fn.instrs():
            if i.op == 'getelementptr' and i.o[0] == pid:
                m = re.match(r'i(\d+)$', i.x.get("ety", ""))
                if m:
                    sz.add(int(m.group(1)) // 8)
            if i.op == 'load' and i.o[0] == pid:
                sz.add(i.x.get("sz", 1))
        return min(sz) if sz else 1

    def gc(self, b, st):
        self.c.before_gc(st)
        live = self.live[b] | {p.id for p in self.fn.blocks[b].phis()}
        inits = {k for k in st.env if isinstance(k, tuple)}
        hl = set()
        l = self.fn.loop_of(b)
        while l is not None:
            hl |= {('init', p.id) for p in self.fn.blocks[l.header].phis()}
            l = l.parent
        hp = {k[1] for k in hl}
        st.env = {k: v for k, v in st.env.items() if k in live or k in hl or (isinstance(k, str) and k.startswith('%a'))}
        atoms = set()
        for v in st.env.values():
            atoms.update(x for x in subterms(v) if x[0] in ('s', 'ld', 'o'))
        for _, v in st.mem.values():
            atoms.update(x for x in subterms(v) if x[0] in ('s', 'ld', 'o'))
        for v in st.osz.values():
            atoms.update(x for x in subterms(v) if x[0] in ('s', 'ld', 'o'))

        for v in self.c.live_terms(st):
            atoms.update(x for x in subterms(v) if x[0] in ('s', 'ld', 'o'))

        def keepatom(a):
            if a in atoms:
                return True
            if a[0] == 's' and a[2] == 'phi' and a[3] in hp:        # where this iteration started
                return True
            if a[0] == 's' and a[2] == 'sdata' and st.over.get(a[3]) == a[4]:       # data() gives it again
                return True
            if a[0] == 's' and a[2] in ('arg', 'argp', 'ga', 'al', 'gp', 'it'):
                return a[2] != 'it' or any(b in l.body for l in [self.loops.get(a[3])] if l)
            return self.c.keep_atom(a)

        def keep(t):
            if t in atoms:
                return True
            for x in subterms(t):
                if x[0] == 's' and not keepatom(x):
                    return False
                if x[0] == 'ld' and x not in atoms and x not in st.touched and not self.c.keep_ld(st, x):
                    return False
            return True
        toks = set()

        def addtok(t):
            if isinstance(t, tuple) and t not in toks:
                toks.add(t)
                for y in t:
                    addtok(y)
        for t in st.obj.values():
            addtok(t)
        for t in self.c.live_tokens(st):
            addtok(t)

        def keepsem(f):
            if self.c.keep_fact(st, f):
                return True
            for t in f[1:]:
                if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
                    continue
                if t in toks:
                    continue
                if t[0] == 'view':
                    if all(keepatom(x) for y in t[1:3] for x in subterms(y) if x[0] == 's'):
                        continue
                return False
            return True
        if st.sem:
            st.sem = frozenset(f for f in st.sem if keepsem(f))
        if self.loops.get(b) is None and not self.fn.loop_of(b):
            st.touched = frozenset()
        elif st.touched:
            lit = set()
            l = self.fn.loop_of(b)
            while l is not None:
                lit.add(('s', 64, 'it', l.header))
                l = l.parent
            st.touched = frozenset(t for t in st.touched if mentions(t, lambda a: a in lit))
        st.rel = {k: v for k, v in st.rel.items() if keep(k)}
        st.iv = {k: v for k, v in st.iv.items() if keep(k)}
        if not self.collect:
            st.conds = ()
        # touched loads only matter inside the loop that iterates them
        l = self.fn.loop_of(b)
        if l is None:
            st.touched = frozenset()

    # ---- ∀-facts over scanned ranges ------------------------------------------------
    def _it_loads(self, st, lp):
        it = ('s', 64, 'it', lp.header)
        inl = self.site_in(lp)
        for t in st.touched:
            if t[0] != 'ld':
                continue
            c, d = parts(t[2])
            k = d.get(it)
            if k is None or sgn(64, k) * 8 != t[1]:
                continue
            d = dict(d)
            del d[it]
            a0 = mklin(64, c, d)
            if mentions(a0, inl):
                continue
            yield t, a0

    def _collect_forall(self, st, lp):
        seen = {}
        for t, a0 in self._it_loads(st, lp):
            seen[(lp.header, a0, t[1])] = st.rng(t)
        hk = (lp.header, self._disc(st, lp))
        prev = self.forall_out.get(hk)
        if prev is None:
            self.forall_out[hk] = dict(seen)
        else:
            for k in list(prev):
                if k in seen:
                    prev[k] = union(prev[k], seen[k])
                else:
                    prev[k] = full(k[2])
            for k in seen:
                if k not in prev:
                    prev[k] = full(k[2])  # some iteration did not look at it

    # ---- candidate invariants  X(it) <= Y  from the test  X < Y  that guards every step
    def _collect_inv(self, st, lp):
        it = ('s', 64, 'it', lp.header)
        inl = self.site_in(lp)
        cs = set()
        for c, v in st.rel.items():
            if v and c[0] == 'c' and c[2] == 'ult' and parts(c[3])[1].get(it) == 1 and not mentions(c[4], inl) \
                    and not mentions(sub(c[3][1], c[3], it), inl):
                cs.add(('c', 1, 'ule', c[3], c[4]))
            if v is False and c[0] == 'c' and c[2] == 'eq' and it in (c[3], c[4]):
                y = c[4] if c[3] == it else c[3]
                if not mentions(y, inl):
                    cs.add(('c', 1, 'ule', it, y))
        k = (lp.header, self._disc(st, lp))
        self.inv_cand[k] = cs if k not in self.inv_cand else self.inv_cand[k] & cs

    def invariants(self):
        out = {}
        for k, cs in self.inv_cand.items():
            it = ('s', 64, 'it', k[0])
            ok = []
            for c in cs:
                x0 = sub(64, c[3], it)
                if all(st.truth(cmp('ule', x0, c[4])) is True for st in self.entries.get(k, ())):
                    ok.append(c)
            if ok:
                out[k] = ok
        return out

    def _disc(self, st, lp):
        """which strings (in which version) this state carries through loop lp"""
        mut = self.linfo[lp.header]['mut']
        return frozenset((o, v) for o, v in st.over.items() if o[0] == 'o' and o[1] not in mut)

    def _exit_facts(self, st, lp):
        """called when leaving loop lp: derive facts about the whole scanned range"""
        it = ('s', 64, 'it', lp.header)
        bounds = []
        for c, v in st.rel.items():
            if c[0] != 'c':
                continue
            p, a, b = c[2], c[3], c[4]
            if p == 'eq' and it in (a, b):
                bounds.append((b if a == it else a, 'end' if v else 'in'))
            elif p == 'eq' and a[1] == 64:               # k*it + r == s  for all multiples of k: it == (s - r)/k
                k0, d = parts(sub(64, a, b))
                k = sgn(64, d.pop(it, 0))
                if k and sgn(64, k0) % k == 0 and all(sgn(64, x) % k == 0 for x in d.values()):
                    n = mklin(64, (-(sgn(64, k0) // k)) % (1 << 64), {x: (-(sgn(64, y) // k)) % (1 << 64) for x, y in d.items()})
                    bounds.append((n, 'end' if v else 'in'))
            elif p == 'ule' and v and b == it:
                bounds.append((a, 'end'))
            elif p == 'ult' and v and a == it:
                bounds.append((b, 'in'))
        if hasattr(self.c, 'on_loop_exit'):
            self.c.on_loop_exit(st, lp, bounds)
        loads = list(self._it_loads(st, lp))
        for t, a0 in loads:
            r = st.rng(t)
            for n, kind in bounds:
                if kind == 'in' and r != full(t[1]):
                    st.say('some', self.view_token(st, n, a0, t[1] // 8), r)
        if self.forall_in:
            for (h, a0, w), S in (self.forall_in.get((lp.header, self._disc(st, lp))) or {}).items():
                if S == full(w):
                    continue
                st.say('all', self.view_token(st, it, a0, w // 8), S)
                for n, kind in bounds:
                    if kind == 'end':
                        st.say('all', self.view_token(st, n, a0, w // 8), S)

    def view_token(self, st, n, ptr, es):
        """token of the sequence [ptr, ptr+n)"""
        for o, v in st.over.items():
            if ptr == ('s', 64, 'sdata', o, v) and n == st.osz.get(o):
                return st.obj[o]
        t = st.vtok.get(('s', 64, 'vk', ptr, n)) if False else None
        return ('view', ptr, n)

    # ---- transfer -----------------------------------------------------------------
    def block(self, b, st):
        work = [(st, 0)]
        bl = self.fn.blocks[b]
        while work:
            st, k = work.pop()
            dead = False
            while k < len(bl.ins):
                i = bl.ins[k]
                if i.op == 'phi':
                    k += 1
                    continue
                if i.op in ('br', 'switch', 'ret', 'unreachable'):
                    self.terminate(bl, i, st)
                    dead = True
                    break
                r = self.step(st, i)
                if r is not None:
                    if not r:
                        dead = True
                        break
                    for s2 in r[1:]:
                        work.append((s2, k + 1))
                    st = r[0]
                k += 1
        return

    def terminate(self, bl, i, st):
        if i.op == 'ret':
            v = self.val(st, i.o[0]) if i.o else None
            self.c.on_ret(st, i, v)
            self.rets.append((st, i, v))
            return
        if i.op == 'unreachable':
            return
        if i.op == 'br' and len(i.x["succ"]) == 1:
            self.go(bl.id, i.x["succ"][0], st)
            return
        if i.op == 'br':
            c = self.val(st, i.o[0], 1)
            for v, s in ((True, i.x["succ"][0]), (False, i.x["succ"][1])):
                s2 = st.copy()
                if self.collect and c[0] != 'k':
                    s2.conds = s2.conds + ((c, v),)
                if s2.assume(c, v, self.c):
                    self.go(bl.id, s, s2)
            return
        if i.op == 'switch':
            c = self.val(st, i.o[0])
            rest = full(c[1])
            for cv, s in i.x["cases"]:
                kv = self.val(st, cv)
                rest = inter(rest, compl(((kv[2], kv[2]),), c[1]))
                s2 = st.copy()
                e = cmp('eq', c, kv)
                if self.collect and e[0] != 'k':
                    s2.conds = s2.conds + ((e, True),)
                if s2.assume(e, True, self.c):
                    self.go(bl.id, s, s2)
            s2 = st.copy()
            okk = True
            for cv, s in i.x["cases"]:
                e = cmp('eq', c, self.val(st, cv))
                if self.collect and e[0] != 'k':
                    s2.conds = s2.conds + ((e, False),)
                if not s2.assume(e, False, self.c):
                    okk = False
                    break
            if okk:
                self.go(bl.id, i.x["def"], s2)

    def go(self, a, b, st):
        l = self.fn.loop_of(a)
        while l is not None and b not in l.body:
            self._exit_facts(st, l)
            l = l.parent
        st.trail = st.trail[-60:] + (b,)
        self.c.on_edge(st, a, b)
        if st.ts.get('dead'):
            return
        self.push(b, st, a)

    def sym(self, i, *k):
        return ('s', self.width(i.ty), 'call' if not k else k[0], i.id) + tuple(k[1:])

    def kill_site(self, st, i):
        """the site i is executed again: older facts on its symbols are stale"""
        l = self.fn.loop_of(i.blk.id)
        if l is None:
            return
        p = lambda a: a[0] == 's' and i.id in a[3:]
        st.rel = {k: v for k, v in st.rel.items() if not mentions(k, p)}
        st.iv = {k: v for k, v in st.iv.items() if not mentions(k, p)}

    def step(self, st, i):
        """returns None (st updated) or list of successor states"""
        op = i.op
        w = self.width(i.ty)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.val(st, i.o[0], w), self.val(st, i.o[1], w)
            t = binop(op, w, a, b)
            st.env[i.id] = t
            self.c.on_arith(st, i, op, a, b, t) if hasattr(self.c, 'on_arith') else None
            return None
        if op == 'icmp':
            a, b = self.val(st, i.o[0]), self.val(st, i.o[1])
            if a[1] != b[1]:
                b = K(a[1], b[2]) if is_k(b) else b
            st.env[i.id] = cmp(i.x["p"], a, b)
            return None
        if op == 'zext':
            st.env[i.id] = zext(w, self.val(st, i.o[0], self.width(i.x["sty"])))
        elif op == 'sext':
            st.env[i.id] = sext(w, self.val(st, i.o[0], self.width(i.x["sty"])))
        elif op == 'trunc':
            st.env[i.id] = trunc(w, self.val(st, i.o[0], self.width(i.x["sty"])))
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            st.env[i.id] = self.val(st, i.o[0])
        elif op == 'getelementptr':
            t = add(64, self.val(st, i.o[0]), K(64, i.x.get("coff", 0)))
            for v, s in i.x.get("vars") or []:
                x = self.val(st, v)
                if x[1] != 64:
                    x = sext(64, x)
                t = add(64, t, scale(64, x, s))
            st.env[i.id] = t
        elif op == 'alloca':
            st.env[i.id] = ('s', 64, 'al', i.id)
        elif op == 'select':
            c = self.val(st, i.o[0], 1)
            out = []
            for v, k in ((True, 1), (False, 2)):
                s2 = st.copy()
                if self.collect and c[0] != 'k':
                    s2.conds = s2.conds + ((c, v),)
                if s2.assume(c, v, self.c):
                    s2.env[i.id] = self.val(s2, i.o[k], w)
                    out.append(s2)
            return out
        elif op == 'load':
            return self.load(st, i)
        elif op == 'store':
            return self.store(st, i)
        elif op == 'extractvalue':
            idx = i.x["idx"]
            a = st.env.get(i.o[0])
            if a is not None and a[0] == 'agg' and len(idx) == 1 and idx[0] in dict(a[2]):
                st.env[i.id] = dict(a[2])[idx[0]]
            else:
                st.env[i.id] = ('s', w, 'xv', i.o[0], tuple(idx), i.id)
        elif op == 'insertvalue':
            a = st.env.get(i.o[0])
            d = dict(a[2]) if a is not None and a[0] == 'agg' else {}
            d[i.x["idx"][0]] = self.val(st, i.o[1])
            st.env[i.id] = ('agg', 0, tuple(sorted(d.items())))
        elif op in ('call', 'invoke'):
            return self.call(st, i)
        elif op in ('cmpxchg', 'atomicrmw', 'fence'):
            self.kill_site(st, i)
            if op != 'fence':
                st.env[i.id] = self.sym(i)
        else:
            self.kill_site(st, i)
            st.env[i.id] = self.sym(i)
        return None

    def memkey(self, addr):
        b = ptr_base(addr)
        if b is None:
            return None, None
        return b, sub(64, addr, b)

    def load(self, st, i):
        addr = self.val(st, i.o[0])
        w = self.width(i.ty)
        sz = i.x.get("sz", 8)
        self.c.on_load(st, i, addr)
        b, off = self.memkey(addr)
        if b is not None and b[2] == 'al' and is_k(off):
            m = st.mem.get((b[3], off[2]))
            if m and m[0] == sz:
                t = m[1]
                if t[1] == w:
                    st.env[i.id] = t
                    return None
        t = self.load_term(st, i, addr, b, off, w, sz)
        if t[0] == 'ld':
            st.touched = st.touched | {t}
            l = self.fn.loop_of(i.blk.id)
        st.env[i.id] = t
        return None

    def load_term(self, st, i, addr, b, off, w, sz):
        if i.x.get("ord"):
            self.kill_site(st, i)
            return ('s', w, 'atomic', i.id)
        if b is not None and b[2] == 'ga':
            g = self.mod.globals.get(b[3])
            if g and g["const"] and is_k(off):
                d = self.mod.ginit(b[3])
                if d:
                    raw = d[0][off[2]:off[2] + sz]
                    if len(raw) == sz:
                        return K(w, int.from_bytes(raw, 'little'))
            if g and not g["const"] and g["ty"] == 'ptr' and is_k(off) and off[2] == 0:
                return ('s', 64, 'gp', b[3])   # published table pointer (immutable after init)
            if g and g["const"]:
                return ('ld', w, addr, 0)
        ver = self.region_ver(st, b)
        return ('ld', w, addr, ver)

    def region_ver(self, st, b):
        if b is None:
            return ('any',) + (st.over.get('mem', (0,)),)
        if b[2] == 'sdata':
            return st.over.get(('w',) + b[3], b[4]) if False else b[4]
        return st.over.get(('r', b), 0)

    def store(self, st, i):
        addr, v = self.val(st, i.o[1]), self.val(st, i.o[0], self.width(i.x.get("sty", "i64")))
        self.c.on_store(st, i, addr, v)
        b, off = self.memkey(addr)
        m = re.match(r'i(\d+)$', i.x.get("sty", ""))
        sz = (int(m.group(1)) + 7) // 8 if m else 8
        if b is not None and b[2] == 'al':
            if is_k(off):
                o = off[2]
                for k in [k for k in st.mem if k[0] == b[3] and k[1] < o + sz and k[1] + st.mem[k][0] > o]:
                    del st.mem[k]
                st.mem[(b[3], o)] = (sz, v)
            else:
                for k in [k for k in st.mem if k[0] == b[3]]:
                    del st.mem[k]
            st.over[('r', b)] = ('st', i.id)
        elif b is not None:
            st.over[('r', b)] = ('st', i.id)
            if b[2] == 'sdata':
                self.string_written(st, i, b[3])
        return None

    def string_written(self, st, i, o):
        """raw write through data(): contents change, size and data pointer do not"""
        st.obj[o] = ('raw', i.id)
        isd = lambda a: a[0] == 's' and a[2] == 'sdata' and a[3] == o
        def men(x):
            return isinstance(x, tuple) and (x[:1] == ('view',) and mentions(x[1], isd) or any(men(y) for y in x))
        st.sem = frozenset(f for f in st.sem if not men(f))
        st.rel = {k: v for k, v in st.rel.items() if not mentions(k, lambda a: a[0] == 'ld' and mentions(a[2], isd))}
        st.iv = {k: v for k, v in st.iv.items() if not mentions(k, lambda a: a[0] == 'ld' and mentions(a[2], isd))}

    # ---- calls ----------------------------------------------------------------------
    def okey(self, t):
        b = ptr_base(t)
        if b is not None and b == t and b[2] in ('al', 'argp'):
            return ('o', b[3] if b[2] == 'al' else '%%a%d' % b[3])
        return None

    def touch_obj(self, st, o):
        if o not in st.over:
            st.over[o] = ('init', o[1])
            st.osz.setdefault(o, ('s', 64, 'ssize', o, ('init', o[1])))
            st.obj.setdefault(o, ('init', o[1]))

    def mutate(self, st, o, i, tok, size=None):
        st.over[o] = ('m', i.id)
        dead = lambda a: a[0] == 's' and a[2] in ('sdata', 'ssize') and a[3] == o and a[4] == ('m', i.id)
        st.rel = {k: v for k, v in st.rel.items() if not mentions(k, dead)}
        st.iv = {k: v for k, v in st.iv.items() if not mentions(k, dead)}
        st.osz[o] = size if size is not None else ('s', 64, 'ssize', o, ('m', i.id))
        st.obj[o] = tok
        self.forget_token(st, tok)

    def forget_token(self, st, tok):
        """re-created token: facts about its previous incarnation are stale"""
        if tok[0] in ('empty',):
            return
        def men(x):
            if x == tok:
                return True
            return isinstance(x, tuple) and any(men(y) for y in x)
        st.sem = frozenset(f for f in st.sem if not men(f))

    def call(self, st, i):
        n = i.callee
        if i.x.get("noret"):
            return []
        if n.startswith('llvm.'):
            return self.intrinsic(st, i, n)
        args = [self.val(st, o) for o in i.o]
        self.kill_site(st, i)
        r = self.c.on_call(st, i, n, args)
        if r is NotImplemented:
            r = self.std_call(st, i, n, args)
        if isinstance(r, list):
            return r
        if i.ty != 'void':
            st.env[i.id] = r if r is not None else self.sym(i)
        return None

    def intrinsic(self, st, i, n):
        w = self.width(i.ty)
        args = [self.val(st, o) for o in i.o]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n.startswith('llvm.memset'):
            dst = args[0]
            db, do = self.memkey(dst)
            self.c.on_memop(st, i, n, args) if hasattr(self.c, 'on_memop') else None
            if db is not None and db[2] == 'al':
                ln = args[2]
                for k in [k for k in st.mem if k[0] == db[3]]:
                    if not (is_k(do) and is_k(ln)) or (k[1] < do[2] + ln[2] and k[1] + st.mem[k][0] > do[2]):
                        del st.mem[k]
                st.over[('r', db)] = ('st', i.id)
                if n.startswith('llvm.memcpy') and is_k(do) and is_k(ln) and ln[2] in (1, 2, 4, 8):
                    sb, so = self.memkey(args[1])
                    src = None
                    if sb is not None and sb[2] == 'al' and is_k(so):
                        m = st.mem.get((sb[3], so[2]))
                        if m and m[0] == ln[2]:
                            src = m[1]
                    if src is None:
                        src = ('ld', ln[2] * 8, args[1], self.region_ver(st, sb))
                        st.touched = st.touched | {src}
                    st.mem[(db[3], do[2])] = (ln[2], src)
            elif db is not None:
                st.over[('r', db)] = ('st', i.id)
                if db[2] == 'sdata':
                    self.string_written(st, i, db[3])
            return None
        if n.startswith('llvm.umin') or n.startswith('llvm.umax') or n.startswith('llvm.smin') or n.startswith('llvm.smax'):
            c = cmp('ule' if n[5] == 'u' else 'sle', args[0], args[1])
            out = []
            for v in (True, False):
                s2 = st.copy()
                if s2.assume(c, v, self.c):
                    s2.env[i.id] = args[0] if (v == n.startswith(('llvm.umin', 'llvm.smin'))) else args[1]
                    out.append(s2)
            return out
        self.kill_site(st, i)
        if i.ty != 'void':
            st.env[i.id] = self.sym(i)
        return None

    def agg_view(self, ln, ptr):
        return ('agg', 0, ((0, ln), (1, ptr)))

    def std_call(self, st, i, n, args):
        m = STR.match(n)
        if m:
            return self.string_call(st, i, m.group(1), m.group(2), args)
        for k in self.mutated_ops(i):
            t = self.val(st, k)
            o = self.okey(t)
            b = ptr_base(t)
            if o is not None and o in st.over:
                self.mutate(st, o, i, ('mut', i.id))
            if b is not None:
                if b[2] == 'al':
                    for q in [q for q in st.mem if q[0] == b[3]]:
                        del st.mem[q]
                if b[2] == 'sdata':
                    self.string_written(st, i, b[3])
                st.over[('r', b)] = ('st', i.id)
        return None

    def string_call(self, st, i, kind, meth, args):
        o = self.okey(args[0])
        es = 4 if kind == 'u32string' else 1
        if o is None:
            return None
        self.touch_obj(st, o)
        v = st.over[o]
        sz = st.osz[o]
        data = ('s', 64, 'sdata', o, v)
        ev = getattr(self.c, 'on_string', None)
        name = re.match(r"~?[\w+=\[\] ]*?(?=[(<])", meth)
        base = re.match(r"(~?\w+(?:(?:\+=|=|\[\]|==)| (?:u32view|view))?)", meth).group(1)
        if ev:
            r = ev(st, i, o, base, meth, args)
            if r is not NotImplemented:
                return r
        if base in ('data', 'begin', 'c_str', 'cbegin'):
            return data
        if base in ('size', 'length'):
            return sz
        if base == 'empty':
            return cmp('eq', sz, K(64, 0))
        if base == 'end' or base == 'cend':
            return add(64, data, scale(64, sz, es))
        if base in ('operator u32view', 'operator view'):
            return self.agg_view(sz, data)
        if base in ('operator[]', 'at'):
            return add(64, data, scale(64, args[1], es))
        if base == 'front':
            return data
        if base == 'back':
            return add(64, add(64, data, scale(64, sz, es)), K(64, -es))
        if base.startswith('~'):
            return None
        if base in ('reserve', 'shrink_to_fit'):
            # contents and size unchanged, data pointer may move
            tok = st.obj[o]
            st.over[o] = ('m', i.id)
            return None
        if base == 'clear':
            self.mutate(st, o, i, ('empty',), K(64, 0))
            return None
        if base == 'basic_string':
            if meth.startswith('basic_string()'):
                self.mutate(st, o, i, ('empty',), K(64, 0))
            elif '(unsigned long, char' in meth:
                self.mutate(st, o, i, ('fill', i.id), args[1])
            elif '(char const*, unsigned long' in meth or '(char32_t const*, unsigned long' in meth:
                self.mutate(st, o, i, ('copyof', self.view_token(st, args[2], args[1], es)), args[2])
            elif re.search(r'basic_string\((u32)?string(&&| const&)', meth):
                so = self.okey(args[1])
                if so and so in st.over:
                    self.mutate(st, o, i, st.obj[so], st.osz[so])
                    st.obj[o] = st.obj[so]
                    if '&&' in meth:
                        pass
                else:
                    self.mutate(st, o, i, ('mut', i.id))
            else:
                v = self.view_obj(st, args[1]) if 'view' in meth and len(args) > 1 else None
                if v:
                    self.mutate(st, o, i, ('copyof', self.view_token(st, v[1], v[0], es)), v[1])
                else:
                    self.mutate(st, o, i, ('mut', i.id))
            return None
        if base == 'resize':
            self.mutate(st, o, i, ('resized', i.id), args[1])
            return None
        if base == 'push_back':
            self.mutate(st, o, i, ('pushed', i.id), add(64, sz, K(64, 1)))
            return None
        if base in ('append', 'operator+='):
            ln = None
            if '(char const*, unsigned long)' in meth or '(char32_t const*, unsigned long)' in meth:
                ln = args[2]
            elif '(unsigned long, char' in meth:
                ln = args[1]
            elif '(char)' in meth or '(char32_t)' in meth:
                ln = K(64, 1)
            elif re.search(r'\((u32)?string const&\)', meth):
                so = self.okey(args[1])
                ln = st.osz.get(so) if so else None
            elif '(char const*)' in meth:
                s = self.cstr(args[1])
                ln = K(64, len(s)) if s is not None else None
            elif self.pair_view(meth, args, es):
                ln = self.pair_view(meth, args, es)[1]
            self.mutate(st, o, i, ('appended', i.id), add(64, sz, ln) if ln is not None else None)
            return args[0]
        if base == 'assign' or base == 'operator=':
            if '(char const*, unsigned long)' in meth or '(char32_t const*, unsigned long)' in meth:
                vt = self.view_token(st, args[2], args[1], es)
                self.mutate(st, o, i, ('copyof', vt), args[2])
            elif re.search(r'\((u32)?string(&&| const&)\)', meth):
                so = self.okey(args[1])
                if so and so in st.over:
                    t, s = st.obj[so], st.osz[so]
                    self.mutate(st, o, i, ('mut', i.id), s)
                    st.obj[o] = t
                else:
                    self.mutate(st, o, i, ('mut', i.id))
            elif self.pair_view(meth, args, es):
                p, n, e2 = self.pair_view(meth, args, es)
                self.mutate(st, o, i, ('copyof', self.view_token(st, n, p, es)) if e2 == es else ('mut', i.id), n)
            else:
                self.mutate(st, o, i, ('mut', i.id))
            return args[0]
        if base == 'swap':
            so = self.okey(args[1])
            if so:
                self.touch_obj(st, so)
                st.obj[o], st.obj[so] = st.obj[so], st.obj[o]
                st.osz[o], st.osz[so] = st.osz[so], st.osz[o]
                st.over[o] = ('m', i.id)
                st.over[so] = ('m', i.id + 's')
            return None
        if base == 'insert':
            self.mutate(st, o, i, ('inserted', i.id), None)
            return self.sym(i)
        if not meth.rstrip().endswith('const'):
            self.mutate(st, o, i, ('mut', i.id))
        return None

    def view_obj(self, st, p):
        """(ptr, len) of a string_view object in memory"""
        b, off = self.memkey(p)
        if b is None or b[2] != 'al' or not is_k(off):
            return None
        a, c = st.mem.get((b[3], off[2])), st.mem.get((b[3], off[2] + 8))
        return (c[1], a[1]) if a and c else None

    def pair_view(self, meth, args, es):
        """(ptr, length, element size) of an iterator-pair argument such as append<char const*, void>(first, last)"""
        m = re.match(r'\w+<(.*?)>?, void>\(', meth)
        if not m or len(args) < 3 or not re.search(r'\bchar(32_t)?\b', meth):
            return None
        es = 4 if 'char32_t' in m.group(1) else 1
        n = self.c.unscale(sub(64, args[2], args[1]), es) if hasattr(self.c, 'unscale') else None
        return (args[1], n, es) if n is not None else None

    def cstr(self, t, es=1):
        b = ptr_base(t)
        if b is not None and b[2] == 'ga':
            d = self.mod.ginit(b[3])
            off = sub(64, t, b)
            if d and is_k(off) and d[1] == es == 4:
                u = [int.from_bytes(d[0][k:k + 4], 'little') for k in range(off[2], len(d[0]) - 3, 4)]
                if 0 in u and all(x < 256 for x in u):
                    return bytes(u[:u.index(0)])
            if d and is_k(off) and d[1] == es == 1:
                raw = d[0][off[2]:]
                if 0 in raw:
                    return raw[:raw.index(0)]
        return None


def analyse(fn, mkclient, **kw):
    """two passes: the first collects per-loop element sets, the second uses them"""
    c0 = mkclient()
    c0.quiet = True
    p0 = Interp(fn, c0, None, **kw).run()
    c1 = mkclient()
    c1.quiet = False
    p1 = Interp(fn, c1, p0.forall_out, p0.invariants(), **kw).run()
    return p1
