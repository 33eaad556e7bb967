"""Path rules on to_ascii / to_unicode: what must be known about every piece of the result."""
import re
from terms import *
from model import Model, strip_narrow
import absint, ir

XN = b'xn--'


class Gate(Model):
    """Shared record checks.  self.want selects which rules report."""
    def __init__(self, shared=None, want=()):
        super().__init__(shared)
        self.want = set(want)
        self.count = {}

    def before_gc(self, st):
        self.loop_flag(st)

    def loop_flag(self, st):
        """remember that the path depends on a truth value carried round a loop, whose meaning is not known"""
        if 'reason' in self.want and ('LFLAG',) not in st.sem:
            for k in list(st.rel) + list(st.iv):
                if any(x[0] == 's' and x[1] in (1, 8) and x[2] == 'phi' for x in subterms(k)):
                    st.say('LFLAG')
                    return

    def tick(self, k, where=None):
        if not self.quiet:
            self.count[k] = self.count.get(k, 0) + 1
            if where:
                self.sites.add((k, where))

    # -------------------------------------------------- ACE prefix knowledge
    def prefix_state(self, st, P, n, es):
        """'no' / 'yes' / 'maybe' : does the sequence start with xn-- ?"""
        if st.truth(cmp('ult', n, K(64, 4))) is True:
            return 'no'
        yes = 0
        for f in st.sem:
            if f[0] in ('PFX', 'NPFX') and f[1][0] == 'view' and f[1][1] == P:
                m = f[1][2]
                if not (m == n or st._eqv(m, n) or is_k(m) and m[2] >= len(f[2]) and st.truth(cmp('ule', m, n)) is True):
                    continue                   # not about this label nor about a beginning of it
                if f[0] == 'PFX' and f[2][:4] == XN:
                    return 'yes'
                if f[0] == 'NPFX' and (f[2] == XN[:len(f[2])]):
                    return 'no'
        w = 8 * es
        for k in range(4):
            addr = add(64, P, K(64, k * es))
            for t in self.lds_at(st, addr, w):
                r = st.rng(t)
                c = XN[k]
                if not any(a <= c <= b for a, b in r):
                    return 'no'
                if r == ((c, c),):
                    yes += 1
                    break
        if yes == 4 and st.truth(cmp('ult', n, K(64, 4))) is False:
            return 'yes'
        return 'maybe'

    def lds_at(self, st, addr, w):
        for t in st.iv:
            if t[0] == 'ld' and t[1] == w and t[2] == addr:
                yield t

    # -------------------------------------------------- oversize inputs first
    LIMIT = 16384

    def api_event(self, st, i, n, a):
        if 'size' in self.want and re.match(r'idna::|simdutf::|(u32)?string::(assign|append|resize|reserve|basic_string\(.)', n) and '::basic_string()' not in n:
            self.tick('library calls made only after the length check', i.where())
            self.within(st, i.where(), 'calls %s' % n.split('(')[0].replace('idna::', ''))
        if re.match(r'idna::|simdutf::', n):
            st.ts['worked'] = 1
        return NotImplemented

    def within(self, st, where, what):
        if st.truth(cmp('ule', ('s', 64, 'arg', 0), K(64, self.LIMIT))) is not True:
            self.bad(where, '%s although the input may be longer than %d bytes (path %s)' % (what, self.LIMIT, self.path(st)))

    def size_ret(self, st, i, t):
        if 'size' not in self.want:
            return
        size = ('s', 64, 'arg', 0)
        if t == 0:
            if not st.ts.get('worked'):
                self.tick('rejections before any work')
                if st.truth(cmp('ult', K(64, self.LIMIT), size)) is not True:
                    self.bad(i.where(), 'rejects, without looking at it, an input that may be within the limit of %d bytes (path %s)'
                             % (self.LIMIT, self.path(st)))
        else:
            self.tick('acceptances with the length known to be within the limit')
            self.within(st, i.where(), 'may succeed')

    def reset(self, st, where):
        if not st.ts.get('reset'):
            self.bad(where, 'the previous content of the result is never removed (path %s)' % self.path(st))

    # -------------------------------------------------- reasons for refusing a label
    @staticmethod
    def root(t):
        """the text t was mapped / normalised from"""
        while isinstance(t, tuple) and t and t[0] in ('map', 'nfc', 'copyof'):
            t = t[1]
        return t

    def decoding(self, st, tok):
        """punycode text the content tok was decoded from, or None"""
        for x in self.eqclass(st, self.canon(tok)) if isinstance(tok, tuple) else ():
            r = self.root(x)
            if isinstance(r, tuple) and r and r[0] == 'dec':
                return r[1]
        return None

    BREAKS = {'ASCII': 'is pure ASCII', 'INVALID': 'breaks the validity rules', 'NOTNFC': 'is not in NFC', 'MAPFAIL': 'contains a disallowed code point',
              'NORMFAIL': 'cannot be normalised', 'NEQ': 'changes under mapping or normalisation'}

    def decoded_breaks(self, st, kind, tok):
        """punycode text whose decoding is refused by this outcome"""
        if kind == 'DECFAIL':
            return tok
        if kind == 'NEQ':
            a, b = self.decoding(st, tok[0]), self.decoding(st, tok[1])
            return a if a is not None and a == b else None
        if kind in self.BREAKS:
            return self.decoding(st, tok)
        return None

    # -------------------------------------------------- gate sets
    def ace_missing(self, st, D, nfc=True):
        """names of the checks that are not known to have succeeded for decoded label D"""
        miss = []
        cls = self.eqclass(st, D)
        if any(self.asc1(st, x) for x in cls) and self.nonasc(st, D):
            return None          # contradictory knowledge: path cannot happen
        if not self.nonasc(st, D):
            miss.append('the decoded label contains a non-ASCII code point')
        if ('map', D) not in cls:
            miss.append('mapping leaves the decoded label unchanged')
        if not self.has(st, D, 'NFC'):
            miss.append('the decoded label is in NFC')
        if not self.has(st, D, 'VALID'):
            miss.append('the decoded label passes the label validity rules')
        return miss

    def suffix_of(self, st, V, r):
        """token V is the part after the first four units of copied label record r"""
        if not (isinstance(V, tuple) and V[0] == 'view'):
            return False
        S, P, n, es = r[1], r[2], r[3], r[4]
        L = sub(64, n, K(64, 4))
        if not (V[2] == L or st._eqv(V[2], L)):
            return False
        if es == 1 and V[1] == add(64, P, K(64, 4)):
            return True
        b = ptr_base(V[1])
        if b is not None and b[2] == 'sdata' and b[3] == self.OUT:
            return sub(64, V[1], b) == add(64, S, K(64, 4))
        return False

    def decoded(self, st):
        seen = set()
        for t in st.obj.values():
            stack = [t]
            while stack:
                x = stack.pop()
                if isinstance(x, tuple) and x and x not in seen:
                    seen.add(x)
                    if x[0] == 'dec':
                        yield x
                    stack.extend(y for y in x[1:] if isinstance(y, tuple))
        for f in st.sem:
            for x in f[1:]:
                if isinstance(x, tuple) and x[:1] == ('dec',) and x not in seen:
                    seen.add(x)
                    yield x


class StringForm(Model):
    """to_ascii(view)->string / to_unicode(view)->string agree with the out-parameter form"""
    OUT = None

    def __init__(self, shared, api, onfail):
        super().__init__(shared)
        self.api, self.onfail, self.count = api, onfail, {}

    def api_event(self, st, i, n, a):
        if n.startswith(self.api):
            o = self.ip.okey(a[2])
            src = ('view', a[1], a[0])
            self.sites.add(('calls the out-parameter form', i.where()))
            return self.split(st, i, [(1, lambda s: self.mutate(s, o, i, ('result', src))),
                                      (0, lambda s: (self.mutate(s, o, i, ('empty',), K(64, 0)), s.say('REJECTED', src)) and None)])
        return NotImplemented

    def keep_fact(self, st, f):
        return f[0] == 'REJECTED'

    def on_ret(self, st, i, v):
        src = ('view', ('s', 64, 'argp', 2), ('s', 64, 'arg', 1))
        tok = self.canon(st.obj.get(('o', '%a0'), ('unwritten',)))
        rej = ('REJECTED', src) in st.sem
        want = ('result', src) if not rej else (('empty',) if self.onfail == 'empty' else src)
        self.count['returns'] = self.count.get('returns', 0) + (not self.quiet)
        if tok == want or (want == ('empty',) and st.val(st.osz.get(('o', '%a0'), K(64, 1))) == 0):
            return
        if rej and want == src and tok[0] == 'unwritten':
            pass
        if tok[0] in ('result', 'empty', 'view', 'lower', 'fill', 'unwritten', 'copyof'):
            self.bad(i.where(), 'the string form returns %s where the out-parameter form %s (expected %s)' % (
                tok[0], 'fails' if rej else 'succeeds',
                {'result': 'its result', 'empty': 'an empty string', 'view': 'the input unchanged'}[want[0]]))
        else:
            self.unsure(i.where(), 'returned string not understood: %s' % (tok[0],))


class Labels:
    """How one iteration of the result-writing loop walks over the source text."""
    def subst(self, lp, t, inc, nit):
        """t with the header symbols of lp replaced: phis by inc, iteration counter by nit(counter)"""
        h = lp.header
        c, d = parts(t)
        out = mklin(t[1], c, {})
        for x, k in d.items():
            if x[0] == 's' and x[2] == 'it' and x[3] == h:
                out = add(t[1], out, scale(t[1], nit(x), sgn(t[1], k)))
                continue
            if x[0] == 's' and x[2] == 'phi' and x[3] in inc:
                v = inc[x[3]]
                b = ptr_base(v) if self.ip.fn.defs[x[3]].ty == 'ptr' else None
                if b is not None:
                    ci, di = parts(sub(64, v, b))
                    es = self.ip._elem(x[3])
                    if sgn(64, ci) % es or any(sgn(64, y) % es for y in di.values()):
                        return None
                    v = mklin(64, sgn(64, ci) // es, {y: sgn(64, z) // es for y, z in di.items()})
                out = add(t[1], out, scale(t[1], v, sgn(t[1], k)))
                continue
            if mentions(x, lambda a: a[0] == 's' and (a[2] == 'phi' and a[3] in inc or a[2] == 'it' and a[3] == h)):
                return None
            out = add(t[1], out, mklin(t[1], 0, {x: k}))
        return out

    def subst_next(self, st, lp, t):
        """value of t (a term over header symbols) in the next iteration, or None"""
        return self.subst(lp, t, self.ip.cur_inc, lambda x: add(x[1], x, K(x[1], 1)))

    def nrm(self, st, t):
        """replace symbols whose value is known"""
        c, d = parts(t)
        out = mklin(t[1], c, {})
        for x, k in d.items():
            v = st.val(x)
            out = add(t[1], out, K(t[1], (sgn(t[1], k) * v) & ((1 << t[1]) - 1)) if v is not None else mklin(t[1], 0, {x: k}))
        return out

    def same(self, st, a, b):
        if a == b or st._eqv(a, b) is True or st.val(sub(a[1], a, b)) == 0:
            return True
        t = self.nrm(st, sub(a[1], a, b))
        if t == K(a[1], 0):
            return True
        ct, dt = parts(t)
        if not dt:
            return False
        for c, v in st.rel.items():
            if v and c[0] == 'c' and c[2] == 'eq' and c[3][1] == a[1]:
                e = self.nrm(st, sub(a[1], c[3], c[4]))
                _, de = parts(e)
                x = next(iter(dt))
                if x in de:
                    kt, ke = sgn(64, dt[x]), sgn(64, de[x])
                    if kt % ke == 0 and scale(a[1], e, kt // ke) == t:
                        return True
        return False

    # ---- start and end of the walk
    def on_entry_pre(self, st, lp):
        Model.on_entry_pre(self, st, lp)
        if self.outer(lp):
            self.sh.setdefault(('start', lp.header), set()).add((self.start_of(st), tuple(sorted(self.ip.cur_inc.items()))))

    def on_loop_exit(self, st, lp, bounds):
        Model.on_loop_exit(self, st, lp, bounds)
        if self.outer(lp):
            h = lp.header
            for P, S, E, es in self.sh.get(('P', h), ()):
                if not self.alive(st, P):
                    continue
                x, y = self.unscale(sub(64, P, S), es), self.unscale(sub(64, E, S), es)
                if st.truth(cmp('ult', x, y)) is not False and st.truth(cmp('ult', P, E)) is not False and not self.same(st, P, E):
                    st.ts[('open', h)] = 1

    @staticmethod
    def unscale(t, k):
        c, d = parts(t)
        if k == 1 or sgn(64, c) % k or any(sgn(64, v) % k for v in d.values()):
            return t
        return mklin(64, (sgn(64, c) // k) % (1 << 64), {x: (sgn(64, v) // k) % (1 << 64) for x, v in d.items()})

    def check_open(self, st, where):
        for k in st.ts:
            if isinstance(k, tuple) and k[0] == 'open':
                self.bad(where, 'can succeed before the scan has reached the end of the source text (path %s)' % self.path(st))

    def finish(self):
        for k, vs in self.sh.items():
            if k[0] == 'P':
                lp = self.ip.loops[k[1]]
                for P, S, E, es in vs:
                    for S0, inc in self.sh.get(('start', k[1]), ()):
                        p0 = self.subst(lp, P, dict(inc), lambda x: K(x[1], 0))
                        if p0 is None or ptr_base(p0) != ptr_base(S):
                            continue
                        if p0 != S:
                            self.bad(self.ip.fn.blocks[k[1]].ins[0].where(), 'the label scan does not start at the beginning of the source text')
                        else:
                            self.tick('scan starts at the beginning')

    def start_of(self, st):
        return None

    def step_labels(self, st, lp, w, label_range, src, es, count):
        """one iteration emitted records w; label_range(r) -> (P, n); src(P) -> (start, end)"""
        labs = [r for r in w if r[0] in ('copy', 'utf8', 'puny')]
        dots = [r for r in w if r[0] == 'char' and st.val(r[2]) == 46]
        wh = self.ip.fn.blocks[lp.header].ins[-1].where()
        if len(labs) > 1:
            self.bad(labs[1][-1], 'more than one label is written in one step (path %s)' % self.path(st))
            return
        if len(dots) > 1 or (dots and labs and w.index(dots[0]) < w.index(labs[0])):
            self.bad(dots[-1][-1], 'a separator is written twice or before its label (path %s)' % self.path(st))
            return
        if labs:
            v = label_range(labs[0])
            if v is None:
                return
            P, n = v
            se = src(P)
            if se is None:
                return
            self.sh.setdefault(('P', lp.header), set()).add((P,) + se + (es,))
            self.walk(st, lp, P, n, es, bool(dots), se[1], labs[0][-1], count)
        else:
            for P, S, E, es in self.sh.get(('P', lp.header), ()):
                if self.alive(st, P):
                    self.walk(st, lp, P, K(64, 0), es, bool(dots), E, wh, 'empty labels')

    def walk(self, st, lp, P, n, es, dot, end, wh, count):
        """label [P, P+n) was emitted, then a dot or not"""
        nxt = self.subst_next(st, lp, P)
        stop = add(64, P, scale(64, n, es))
        if nxt is None:
            self.unsure(wh, 'cannot relate the label position to the next iteration')
            return
        if dot:
            want = add(64, stop, K(64, es))
            if not self.same(st, nxt, want):
                self.bad(wh, 'after this label and a "." the scan does not continue right behind the dot (path %s)' % self.path(st))
            k = self.ends_at_dot(st, P, n, es)
            if k is False:
                self.bad(wh, 'a "." is written although the label does not end at a dot of the source text (path %s)' % self.path(st))
            elif k is None:
                self.unsure(wh, 'cannot see that the label ends at a dot')
            else:
                self.tick(count + ' followed by the dot that ended them')
        else:
            if not self.same(st, stop, end):
                self.bad(wh, 'no "." is written after a label that is not known to be the last one (path %s)' % self.path(st))
            else:
                self.tick(count + ' at the end without a dot')

    def ends_at_dot(self, st, P, n, es):
        stop = add(64, P, scale(64, n, es))
        for t in [t for t in st.iv if t[0] == 'ld' and t[1] == 8 * es and self.nrm(st, sub(64, t[2], stop)) == K(64, 0)]:
            r = st.rng(t)
            if r == ((46, 46),):
                return True
            if not any(a <= 46 <= b for a, b in r):
                return False
        for k, v in st.ts.items():
            if isinstance(k, tuple) and k[0] == 'find':
                ptr, ln, ch, pos, fes = v
                r = k[1]
                if st.truth(cmp('eq', r, K(64, (1 << 64) - 1))) is False and st.val(ch) == 46 and fes == es:
                    if self.same(st, add(64, ptr, scale(64, r, es)), stop):
                        if self.same(st, add(64, ptr, scale(64, pos, es)), P):
                            return True
                        return False
        return None


class ToAsciiGate(Labels, Gate):
    OUT = ('o', '%a2')

    def on_ret(self, st, i, v):
        t = st.val(v) if v is not None else None
        self.size_ret(st, i, t)
        if t == 0:
            self.tick('failure returns')
            if 'empty' in self.want and st.val(st.osz.get(self.OUT, K(64, 1))) != 0:
                self.bad(i.where(), 'returns false with a result that may be non-empty (path %s)' % self.path(st))
            if 'carve' in self.want and st.truth(cmp('ule', ('s', 64, 'arg', 0), K(64, self.LIMIT))) is not False:
                self.carve(st, i.where(), 'may be rejected')
            if 'reason' in self.want and st.ts.get('worked'):
                self.rejected(st, i)
            return
        self.tick('success returns')
        if 'walk' in self.want or 'carve' in self.want:
            self.reset(st, i.where())
        if 'carve' in self.want:
            w = self.W(st)
            if t is None:
                self.unsure(i.where(), 'returned value not understood')
            elif len(w) == 1 and w[0][0] == 'lower':
                pass
            elif self.asc1(st, self.in_tok()):
                if not (st.val(('s', 64, 'arg', 0)) == 0 and not w):
                    self.bad(i.where(), 'an ASCII input can succeed with a result that is not its lower-cased copy (path %s)' % self.path(st))
            else:
                self.carve(st, i.where(), 'may be processed label by label')
        if 'walk' in self.want:
            self.check_open(st, i.where())
        self.records(st, i.where())

    def path(self, st):
        ls = []
        for b in st.trail:
            for i in self.ip.fn.blocks[b].ins:
                w = i.where()
                if ':?' not in w and ':0 ' not in w:
                    if not ls or ls[-1] != w.split(' ')[0].split(':')[1]:
                        ls.append(w.split(' ')[0].split(':')[1])
                    break
        return 'lines ' + '>'.join(ls[-14:])

    # -------------------------------------------------- reasons for rejecting the input
    def note(self, s, kind, tok, i):
        if 'reason' not in self.want:
            return
        if kind in ('TABLES', 'NORMFAIL'):
            s.say('REASON', 'the tables are not available')
            return
        V = self.decoded_breaks(s, kind, tok)
        if V is not None:
            k = self.ace_suffix(s, V)
            if k:
                s.say('REASON', 'an xn-- label is not valid')
            elif k is None:
                s.say('DOUBT', i.where())
            return
        if kind == 'MAPFAIL':
            if self.root(tok) == ('u32of', self.in_tok()):
                s.say('REASON', 'the input contains a disallowed code point')
            elif tok[0] in ('raw', 'unknown', 'fill', 'm'):
                s.say('DOUBT', i.where())
        elif kind in ('INVALID', 'PUNYFAIL', 'NONASCII') and tok[0] == 'view':
            if kind == 'NONASCII' and self.prefix_state(s, tok[1], tok[2], 4) != 'yes':
                return
            k = self.source_label(s, tok)
            if k:
                s.say('REASON', 'a label breaks the validity rules or cannot be encoded' if kind != 'NONASCII' else 'an xn-- label is not ASCII')
            elif k is None:
                s.say('DOUBT', i.where())

    def source_label(self, st, tok):
        """tok is a whole label of the mapped, normalised input"""
        b = ptr_base(tok[1])
        if b is None or b[2] != 'sdata' or not self.alive(st, tok[1]):
            return None
        if self.src_missing(st, self.base_token(st, tok[1])):
            return None
        E = add(64, b, scale(64, st.osz[b[3]], 4))
        stop = add(64, tok[1], scale(64, tok[2], 4))
        x, y = self.unscale(sub(64, stop, b), 4), self.unscale(sub(64, E, b), 4)
        end = st.truth(cmp('ule', x, y)) is True and st.truth(cmp('ule', y, x)) is True
        if end or self.same(st, stop, E) or self.ends_at_dot(st, tok[1], tok[2], 4):
            return True
        return None

    def ace_suffix(self, st, V):
        """V is what follows xn-- in a label just copied to the result"""
        if not (isinstance(V, tuple) and V and V[0] == 'view'):
            return None
        for r in self.W(st)[::-1]:
            if r[0] == 'copy' and self.suffix_of(st, V, r):
                return True if self.prefix_state(st, r[2], r[3], r[4]) == 'yes' else None
        b = ptr_base(V[1])
        return False if b is not None and b[2] == 'sdata' and b[3] == self.OUT else None

    def setW(self, st, o, w):
        if 'reason' in self.want and not w and o == self.OUT:      # the copied label is forgotten now
            self.late(st)
        Gate.setW(self, st, o, w)

    def late(self, st):
        """reasons that are facts of the state rather than outcomes of a call"""
        for k, src in st.ts.items():
            if isinstance(k, tuple) and k[0] in ('conv32', 'len32') and src == self.in_tok():
                if st.truth(cmp('eq', k[1], K(64, 0))) is True or any(
                        isinstance(k2, tuple) and k2[0] == 'len32' and src2 == src and k2 != k and st.truth(cmp('eq', k[1], k2[1])) is False
                        for k2, src2 in st.ts.items()):
                    return st.say('REASON', 'the input is malformed')
        for f in list(st.sem):
            if f[0] in ('some', 'NONASCII') and isinstance(f[1], tuple) and f[1] and f[1][0] == 'view' and self.nonasc(st, f[1]) \
                    and self.prefix_state(st, f[1][1], f[1][2], 4) == 'yes' and self.source_label(st, f[1]):
                return st.say('REASON', 'an xn-- label is not ASCII')
        for o, t in st.obj.items():
            if o in st.osz and o != self.OUT and st.val(st.osz[o]) == 0:
                V = self.decoding(st, t)
                if V is not None and self.ace_suffix(st, V):
                    return st.say('REASON', 'the decoding of an xn-- label is empty')

    def before_gc(self, st):
        self.loop_flag(st)
        if 'reason' in self.want and st.ts.get('worked') and any(f[0] in ('some', 'NONASCII') and f[1][0] == 'view' for f in st.sem if len(f) > 1 and f[1]):
            self.late(st)

    def rejected(self, st, i):
        self.tick('rejections after the length check')
        self.late(st)
        rs = sorted(f[1] for f in st.sem if f[0] == 'REASON')
        d = sorted(f[1] for f in st.sem if f[0] == 'DOUBT')
        if rs:
            self.tick('rejected because ' + rs[0])
        elif ('LFLAG',) in st.sem:
            self.unsure(i.where(), 'the rejection depends on a flag computed by a loop')
        elif d:
            self.unsure(d[0], 'cannot see that what is checked here is a label of the mapped, normalised input')
        else:
            self.bad(i.where(), 'an input is rejected although it is not known to be malformed, to contain a disallowed code point or to have an invalid label (path %s)' % self.path(st))

    def keep_fact(self, st, f):
        return f[0] in ('REASON', 'DOUBT', 'LFLAG') or Model.keep_fact(self, st, f)

    def carve(self, st, where, what):
        self.tick('other outcomes reached only by non-ASCII input')
        if not self.nonasc(st, self.in_tok()):
            self.bad(where, 'an input that may be pure ASCII %s (path %s)' % (what, self.path(st)))

    def end_iteration(self, st, lp):
        self.records(st, None)
        if 'walk' not in self.want:
            return
        w = self.W(st)
        if any(r[0] not in ('copy', 'puny', 'char', 'bytes') for r in w):
            return

        def src(P):
            b = ptr_base(P)
            if b is None or b[2] != 'sdata' or not self.alive(st, P):
                return None
            return b, add(64, b, scale(64, st.osz[b[3]], 4))
        self.step_labels(st, lp, w, lambda r: (r[2], r[3]) if r[0] == 'copy' else (r[4], r[5]), src, 4, 'labels')

    def in_tok(self):
        return ('view', ('s', 64, 'argp', 1), ('s', 64, 'arg', 0))

    def src_missing(self, st, tok, whole=None):
        """tok: content of the mapped domain string"""
        miss = []
        t = tok
        nfc = self.has(st, t, 'NFC') or t[0] == 'nfc'
        if t[0] == 'nfc':
            t = t[1]
        if t[0] != 'map':
            miss.append('it comes from mapping the input')
        else:
            s = t[1]
            if s[0] == 'badconv':
                miss.append('the UTF-8 input was completely and strictly decoded')
            elif s[0] != 'u32of':
                miss.append('the mapped text is the decoded input')
            elif s[1] != self.in_tok():
                miss.append('the whole input is decoded')
        if not nfc:
            miss.append('the mapped text is in NFC')
        return miss

    def records(self, st, where):
        recs = self.W(st)
        k = 0
        while k < len(recs):
            r = recs[k]
            wh = r[-1] if isinstance(r[-1], str) else where
            if r[0] == 'copy':
                self.copy(st, r, wh)
            elif r[0] == 'lower':
                self.lower(st, r, wh)
            elif r[0] == 'bytes' and r[2] == XN and k + 1 < len(recs) and recs[k + 1][0] == 'puny':
                self.puny(st, recs[k + 1])
                k += 1
            elif r[0] == 'puny':
                self.tick('punycode writes', wh)
                if 'ulabel' in self.want:
                    self.bad(wh, 'a punycode-encoded label is written without the "xn--" prefix directly before it')
            elif r[0] == 'bytes':
                if 'ulabel' in self.want:
                    self.bad(wh, 'constant text %r enters the result outside an encoded label' % r[2])
            elif r[0] == 'char':
                c = st.val(r[2])
                if c is not None and c == 46:
                    pass
                elif 'ascii' in self.want:
                    self.char(st, r, wh)
            elif r[0] == 'junk' and r[2].startswith('partial'):
                if 'ulabel' in self.want or 'ascii' in self.want:
                    self.bad(wh, 'output of a failed punycode encoding can be part of a successful result')
            elif r[0] in ('junk', 'elem', 'resize'):
                self.unsure(wh, 'write to the result not understood: %s' % (r[0] if r[0] != 'junk' else r[2]))
            k += 1

    def char(self, st, r, wh):
        rg = st.rng(r[2])
        if not subset(rg, ((0, 64), (91, 127))):
            self.bad(wh, 'a character that may be non-ASCII or upper case is written')

    def copy(self, st, r, wh):
        _, S, P, n, es = r[:5]
        self.tick('label copies', wh)
        view = ('view', P, n)
        base = self.base_token(st, P)
        asc = self.asc1(st, view) or self.has(st, base, 'ASCII') or self.inherited_ascii(st, P, n)
        if 'ascii' in self.want and not asc:
            self.bad(wh, 'text is copied into the result without being known to be ASCII (path %s)' % self.path(st))
        if 'source' in self.want:
            m = self.src_missing(st, base)
            if m:
                self.bad(wh, 'label copied to the result although not known: %s' % '; '.join(m))
        ps = self.prefix_state(st, P, n, es)
        self.tick('copies: ACE prefix ' + ps)
        if ps != 'no' and 'ace' in self.want:
            best = None
            for D in self.decoded(st):
                if not self.suffix_of(st, D[1], r):
                    continue
                m = self.ace_missing(st, D)
                if m is None:
                    return
                if best is None or len(m) < len(best):
                    best = m
            if best is None:
                best = ['the rest of the label decodes as punycode']
            if best:
                self.bad(wh, 'a label that may start with "xn--" can be part of a successful result although not known: %s (path %s)'
                         % ('; '.join(best), self.path(st)))
            else:
                self.tick('ACE labels with every gate')

    def inherited_ascii(self, st, P, n):
        return False

    def lower(self, st, r, wh):
        _, S, P, n, es = r[:5]
        self.tick('lower-cased ASCII results', wh)
        view = ('view', P, n)
        if 'ascii' in self.want and not self.asc1(st, view):
            self.bad(wh, 'lower-cased copy of text not known to be ASCII')
        if 'carve' in self.want and view != self.in_tok():
            self.bad(wh, 'the lower-cased result is not the whole input')

    def puny(self, st, r):
        _, S, tok, src, P, n, wh = r
        self.tick('punycode writes', wh)
        if 'ulabel' in self.want:
            if not self.has(st, tok, 'VALID'):
                self.bad(wh, 'a label is punycode-encoded without passing the label validity rules (path %s)' % self.path(st))
        if 'source' in self.want:
            m = self.src_missing(st, src)
            if m:
                self.bad(wh, 'label encoded into the result although not known: %s' % '; '.join(m))
        if 'ulabel' in self.want and self.prefix_state(st, P, n, 4) != 'no':
            self.bad(wh, 'a label that may already start with "xn--" is punycode-encoded again')
        if 'ulabel' in self.want and not self.nonasc(st, tok):
            self.bad(wh, 'a label not known to contain a non-ASCII code point is punycode-encoded')


class ToUnicodeGate(Labels, Gate):
    """rules on to_unicode(view, string&); want: 'ace', 'verbatim', 'total'"""
    OUT = ('o', '%a2')
    path = ToAsciiGate.path

    def on_ret(self, st, i, v):
        t = st.val(v) if v is not None else None
        size = ('s', 64, 'arg', 0)
        self.size_ret(st, i, t)
        if t == 0:
            self.tick('failure returns')
            if 'total' in self.want and st.truth(cmp('ule', size, K(64, 16384))) is not False:
                self.bad(i.where(), 'returns false for an input that may be within the length limit (path %s)' % self.path(st))
            if 'empty' in self.want and st.val(st.osz.get(self.OUT, K(64, 1))) != 0:
                self.bad(i.where(), 'returns false with a result that may be non-empty (path %s)' % self.path(st))
            return
        self.tick('success returns')
        if 'total' in self.want:
            self.reset(st, i.where())
        if t is None and 'total' in self.want:
            self.bad(i.where(), 'may return false for an input within the length limit (path %s)' % self.path(st))
        if 'verbatim' in self.want:
            self.check_open(st, i.where())
        for r in self.W(st):
            self.rec(st, r, i.where())

    def end_iteration(self, st, lp):
        w = self.W(st)
        for r in w:
            self.rec(st, r, None)
        if 'verbatim' not in self.want or any(r[0] not in ('copy', 'utf8', 'char') for r in w):
            return
        inp = ('s', 64, 'argp', 1)
        self.step_labels(st, lp, w, lambda r: (r[2], r[3]) if r[0] == 'copy' else self.label_of(st, r),
                         lambda P: (inp, add(64, inp, ('s', 64, 'arg', 0))), 1, 'labels')

    def label_of(self, st, r):
        """the input range whose punycode part was decoded into record r"""
        D = r[2]
        for x in self.eqclass(st, D):
            while x[0] in ('map', 'nfc'):
                x = x[1]
            if x[0] == 'dec' and x[1][0] == 'view':
                return sub(64, x[1][1], K(64, 4)), add(64, x[1][2], K(64, 4))
        return None

    def rec(self, st, r, wh):
        wh = r[-1] if isinstance(r[-1], str) else wh
        if r[0] == 'copy':
            self.tick('label copies', wh)
            if 'verbatim' in self.want:
                P, n = r[2], r[3]
                b = ptr_base(P)
                if b != ('s', 64, 'argp', 1):
                    self.bad(wh, 'text that is not part of the input is copied to the result')
            if 'reason' in self.want:
                self.why(st, r, wh)
        elif r[0] == 'utf8':
            self.tick('decoded labels written', wh)
            self.decoded_label(st, r, wh)
        elif r[0] == 'char':
            if st.val(r[2]) != 46 and 'verbatim' in self.want:
                self.bad(wh, 'a character other than "." is written between labels')
        elif r[0] == 'bytes':
            if 'verbatim' in self.want:
                self.bad(wh, 'constant text %r is written to the result' % r[2])
        else:
            self.unsure(wh, 'write to the result not understood: %s' % (r[0] if r[0] != 'junk' else r[2]))

    # -------------------------------------------------- reasons for showing a label as it is
    def note(self, s, kind, tok, i):
        if 'reason' not in self.want:
            return
        if kind == 'TABLES':
            s.say('WHY', 'tables')
            return
        V = self.decoded_breaks(s, kind, tok)
        if V is not None:
            s.say('WHY', V, self.BREAKS.get(kind, 'cannot be decoded'))

    def addW(self, st, o, rec):
        Gate.addW(self, st, o, rec)
        if 'reason' in self.want and rec[0] == 'copy':       # known here, forgotten at the end of the iteration
            for k, tok in st.ts.items():
                V = self.decoding(st, tok) if isinstance(k, tuple) and k[0] == 'conv8' else None
                if V is not None and any(isinstance(k2, tuple) and k2[0] == 'len8' and st.truth(cmp('eq', k[1], k2[1])) is False for k2 in st.ts):
                    st.say('WHY', V, 'has no UTF-8 form')

    def why(self, st, r, wh):
        P, n = r[2], r[3]
        self.tick('labels shown as they are')
        if self.prefix_state(st, P, n, 1) == 'no':
            self.tick('shown as it is because it does not start with xn--')
            return
        P4, n4 = add(64, P, K(64, 4)), sub(64, n, K(64, 4))
        if self.nonasc(st, ('view', P, n)) or self.nonasc(st, ('view', P4, n4)):
            self.tick('shown as it is because it is not ASCII')
            return
        doubt = False

        def mine(V):
            return isinstance(V, tuple) and V and V[0] == 'view' and self.same(st, V[1], P4) and self.same(st, V[2], n4)
        for f in st.sem:
            if f[0] == 'WHY':
                if f[1] == 'tables' or mine(f[1]):
                    self.tick('shown as it is because its decoding ' + (f[2] if len(f) > 2 else 'needs the tables'))
                    return
                if not (isinstance(f[1], tuple) and f[1] and f[1][0] == 'view' and ptr_base(f[1][1]) == ('s', 64, 'argp', 1)):
                    doubt = True
        for o, t in st.obj.items():
            if o in st.osz and st.val(st.osz[o]) == 0 and mine(self.decoding(st, t)):
                self.tick('shown as it is because its decoding is empty')
                return
        if doubt or ('LFLAG',) in st.sem:
            self.unsure(wh, 'cannot see that the checks made before a label is shown as it is concern this label')
        else:
            self.bad(wh, 'a label that may start with "xn--" is shown as it is although its decoding is not known to fail any check (path %s)' % self.path(st))

    def decoded_label(self, st, r, wh):
        _, at, tok, ret, ln, _ = r
        if 'ace' in self.want:
            m = self.ace_missing(st, tok)
            if m is None:
                return
            lab = self.label_of(st, r)
            if lab is None:
                m.append('it is the punycode decoding of the label')
            else:
                P, n = lab
                if ptr_base(P) != ('s', 64, 'argp', 1):
                    m.append('it is the punycode decoding of a label of the input')
                if self.prefix_state(st, P, n, 1) != 'yes':
                    m.append('the label starts with "xn--"')
                asc = self.asc1(st, ('view', P, n)) or self.asc1(st, ('view', add(64, P, K(64, 4)), sub(64, n, K(64, 4))))
                if not asc:
                    m.append('the label is ASCII')
                if not self.nonempty(st, tok):
                    m.append('the decoded label is not empty')
            if m:
                self.bad(wh, 'a decoded label is written although not known: %s (path %s)' % ('; '.join(m), self.path(st)))
            else:
                self.tick('decoded labels with every gate')
        if 'verbatim' in self.want:
            L = [k[1] for k, v in st.ts.items() if isinstance(k, tuple) and k[0] == 'len8' and v == self.canon(tok)]
            if not any(self.same(st, ln, x) for x in L):
                self.bad(wh, 'the space reserved for a decoded label is not its UTF-8 length (path %s)' % self.path(st))
            if not self.same(st, ret, ln):
                self.bad(wh, 'a decoded label stays in the result although its UTF-8 conversion may have failed (path %s)' % self.path(st))
            else:
                self.tick('decoded labels written completely')

    def nonempty(self, st, tok):
        for x in self.eqclass(st, tok):
            if ('NONASCII', x) in st.sem:
                return True
        return False


def run(mod, fn, mk, **kw):
    shared = {}
    f = mod.fn(fn)
    cl = []

    def make():
        c = mk(shared)
        cl.append(c)
        return c
    ip = absint.analyse(f, make, **kw)
    if hasattr(cl[-1], 'finish'):
        cl[-1].finish()
    return ip, cl[-1]



if __name__ == "__main__":
    m = ir.load_module()
    for fn, mk in (("idna::to_ascii(view, string&)", lambda sh: ToAsciiGate(sh, ('ace', 'ascii', 'empty', 'ulabel', 'source', 'carve', 'walk'))),
                   ("idna::to_unicode(view, string&)", lambda sh: ToUnicodeGate(sh, ('ace', 'verbatim', 'total', 'empty')))):
        ip, c = run(m, fn, mk)
        print(ip.nstates, c.count)
        for v in c.viol: print("VIOL", v)
        for v in c.undec: print("UNDEC", v)
        for s in sorted(c.sites): print(s)
