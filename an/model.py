"""Client that knows what the library's public functions promise each other.

Strings carry content tokens ('map', x), ('nfc', x), ('dec', x), ...; successful calls add
facts about tokens; writes to the result string are kept as records.  Property modules
subclass Model and inspect states at iteration ends and returns.
"""
import re
from terms import *
from absint import Client, Interp
import ir


def strip_narrow(t):
    while t[0] in 'txz':
        t = t[2]
    return t


class Model(Client):
    OUT = None          # object key of the result string, e.g. ('o', '%a2')

    def __init__(self, shared=None):
        self.sh = shared if shared is not None else {}
        self.viol = []      # (where, message)
        self.undec = []
        self.sites = set()
        self.quiet = False

    # ------------------------------------------------------------ bookkeeping
    def bad(self, where, msg):
        if not self.quiet and (where, msg) not in self.viol:
            self.viol.append((where, msg))

    def unsure(self, where, msg):
        if not self.quiet and (where, msg) not in self.undec:
            self.undec.append((where, msg))

    def W(self, st, o=None):
        return st.ts.get(('W', o or self.OUT), ())

    def setW(self, st, o, w):
        if w:
            st.ts[('W', o)] = w
        else:
            st.ts.pop(('W', o), None)

    def addW(self, st, o, rec):
        self.setW(st, o, self.W(st, o) + (rec,))

    def tracked(self, o):
        return o == self.OUT

    def live_terms(self, st):
        for k, w in st.ts.items():
            if isinstance(k, tuple) and k[0] == 'W':
                for r in w:
                    for x in r:
                        if isinstance(x, tuple) and len(x) > 2 and isinstance(x[1], int) and x[0] in ('s', '+', 'o', 'z', 'x', 't', 'ld'):
                            yield x
                        elif isinstance(x, tuple) and x and x[0] == 'view':
                            yield x[1]
                            yield x[2]
            elif isinstance(k, tuple) and k[0] in ('conv32', 'len32', 'conv8'):
                yield k[1]
        for t in self.live_tokens(st):
            yield from self.tok_terms(t)
        for t in st.obj.values():
            yield from self.tok_terms(t)

    def tok_terms(self, t):
        if isinstance(t, tuple) and t:
            if t[0] == 'view':
                yield t[1]
                yield t[2]
            elif t[0] in ('dec', 'map', 'nfc', 'u32of', 'copyof', 'puny'):
                for x in t[1:]:
                    if isinstance(x, tuple):
                        if x and x[0] in ('s', '+') and len(x) > 2 and isinstance(x[1], int):
                            yield x
                        else:
                            yield from self.tok_terms(x)

    def live_tokens(self, st):
        for k, w in st.ts.items():
            if isinstance(k, tuple) and k[0] == 'W':
                for r in w:
                    if r[0] in ('copy', 'lower', 'puny'):
                        yield ('view', r[2], r[3]) if r[0] != 'puny' else ('view', r[4], r[5])
                    for x in r:
                        if isinstance(x, tuple):
                            yield x

    def keep_ld(self, st, ld):
        r = st.rng(ld)
        if ld[1] > 32:
            return False
        for c in (120, 110, 45, 46):
            if r == ((c, c),) or r == compl(((c, c),), ld[1]):
                return True
        return False

    def keep_fact(self, st, f):
        return f[0] in ('READY', 'flag')

    # ------------------------------------------------------------ fact algebra
    @staticmethod
    def canon(t):
        while isinstance(t, tuple) and t and t[0] == 'copyof':
            t = t[1]
        return t

    def eqclass(self, st, tok):
        cls = {tok}
        ch = True
        while ch:
            ch = False
            for f in st.sem:
                if f[0] == 'EQ' and (f[1] in cls) != (f[2] in cls):
                    cls |= {f[1], f[2]}
                    ch = True
        return cls

    def has(self, st, tok, what):
        for x in self.eqclass(st, self.canon(tok)):
            if (what, x) in st.sem:
                return True
            if what == 'NFC' and x[0] == 'nfc':
                return True
            if what == 'NFC' and self.asc1(st, x):
                return True
            if what == 'ASCII' and self.asc1(st, x):
                return True
        return False

    def asc1(self, st, x):
        if ('ASCII', x) in st.sem or x == ('empty',):
            return True
        for f in st.sem:
            if f[0] == 'all' and f[1] == x and subset(f[2], ((0, 127),)):
                return True
        if x[0] == 'view' and is_k(x[2]) and x[2][2] == 0:
            return True
        return False

    def nonasc(self, st, x):
        for y in self.eqclass(st, self.canon(x)):
            if ('NONASCII', y) in st.sem:
                return True
            for f in st.sem:
                if f[0] == 'some' and f[1] == y and not inter(f[2], ((0, 127),)):
                    return True
        return False

    def note(self, s, kind, tok, i):
        """a library predicate or conversion had the outcome `kind` for the content tok"""

    # ------------------------------------------------------------ call model
    def split(self, st, i, outcomes):
        out = []
        for n, (v, fn) in enumerate(outcomes):
            s = st.copy() if n + 1 < len(outcomes) else st
            if v is not None:
                s.env[i.id] = v if isinstance(v, tuple) else K(self.ip.width(i.ty), int(v))
            if fn is None or fn(s) is not False:
                out.append(s)
        return out

    def view_at(self, st, p):
        """(ptr, len) of a string_view object in memory"""
        b, off = self.ip.memkey(p)
        if b is None or b[2] != 'al' or not is_k(off):
            return None
        a, c = st.mem.get((b[3], off[2])), st.mem.get((b[3], off[2] + 8))
        if a and c:
            return c[1], a[1]
        return None

    def vtok(self, st, ln, ptr, es):
        return self.canon(self.ip.view_token(st, ln, ptr, es))

    def stok(self, st, p):
        o = self.ip.okey(p)
        if o is None:
            return ('unknown',)
        self.ip.touch_obj(st, o)
        return self.canon(st.obj[o])

    def pred(self, st, i, yes, no, tok):
        """boolean predicate on a token: two states with opposite facts"""
        k = [f for f in (yes, no) if f]
        outs = []
        ky = yes and self.has(st, tok, yes) if yes else False
        kn = (no in ('NONASCII',) and self.nonasc(st, tok)) or (no and (no, tok) in st.sem)
        def say(f, d):
            def g(s):
                if f:
                    s.say(f, tok)
                if f == 'NONASCII':            # ... contains something
                    if tok[0] == 'view' and not s.assume(cmp('eq', tok[2], K(64, 0)), False, self):
                        return False
                    for o, t in s.obj.items():
                        if self.canon(t) == tok and s.osz.get(o) is not None and not s.assume(cmp('eq', s.osz[o], K(64, 0)), False, self):
                            return False
                self.note(s, f or 'NOT' + d, tok, i)
            return g
        if not kn:
            outs.append((1, say(yes, no)))
        if not ky:
            outs.append((0, say(no, yes)))
        return self.split(st, i, outs)

    def mutate(self, st, o, i, tok, size=None):
        if o is not None:
            self.ip.touch_obj(st, o)
            self.ip.mutate(st, o, i, tok, size)

    def on_call(self, st, i, n, a):
        ip = self.ip
        r = self.api_event(st, i, n, a)
        if r is not NotImplemented:
            return r
        if n.startswith('idna::ensure_tables('):
            return self.split(st, i, [(1, lambda s: s.say('READY')), (0, lambda s: self.note(s, 'TABLES', None, i))])
        if n.startswith('idna::tables_are_ready('):
            return self.split(st, i, [(1, lambda s: s.say('READY')), (0, lambda s: self.note(s, 'TABLES', None, i))])
        if n.startswith('idna::is_ascii('):
            tok = self.vtok(st, a[0], a[1], 4 if 'u32' in n else 1)
            return self.pred(st, i, 'ASCII', 'NONASCII', tok)
        if n.startswith('idna::is_already_nfc('):
            tok = self.vtok(st, a[0], a[1], 4)
            return self.pred(st, i, 'NFC', None, tok)
        if n.startswith('idna::is_label_valid('):
            tok = self.vtok(st, a[0], a[1], 4)
            return self.pred(st, i, 'VALID', 'INVALID', tok)
        if n.startswith('idna::verify_punycode('):
            return self.pred(st, i, 'PUNYOK', None, self.vtok(st, a[0], a[1], 1))
        if n.startswith('idna::contains_forbidden_domain_code_point('):
            return self.pred(st, i, 'FORBIDDEN', 'PERMITTED', self.vtok(st, a[0], a[1], 1))
        if n.startswith('idna::map(u32view, u32string&)'):
            tok = self.vtok(st, a[0], a[1], 4)
            o = ip.okey(a[2])
            b = ptr_base(a[1])
            if b is not None and b[2] == 'sdata' and b[3] == o:
                tok = ('selfmap', i.id)
            tok = self.source_tok(st, tok, a[0], a[1])
            return self.split(st, i, [(1, lambda s: self.mutate(s, o, i, ('map', tok))),
                                      (0, lambda s: (self.mutate(s, o, i, ('empty',), K(64, 0)), self.note(s, 'MAPFAIL', tok, i)) and None)])
        if n.startswith('idna::map(u32view)'):
            tok = self.source_tok(st, self.vtok(st, a[1], a[2], 4), a[1], a[2])
            o = ip.okey(a[0])
            return self.split(st, i, [(None, lambda s: self.mutate(s, o, i, ('mapor', tok)))])
        if n.startswith('idna::normalize('):
            o = ip.okey(a[0])
            tok = self.stok(st, a[0])

            def ok(s):
                if self.has(s, tok, 'NFC'):
                    return
                self.mutate(s, o, i, ('nfc', tok))
            return self.split(st, i, [(1, ok), (0, lambda s: self.note(s, 'NORMFAIL', tok, i))])
        if n.startswith('idna::punycode_to_utf32('):
            tok = self.vtok(st, a[0], a[1], 1)
            o = ip.okey(a[2])
            if o is not None:
                ip.touch_obj(st, o)
            empty = o is not None and st.val(st.osz[o]) == 0
            return self.split(st, i, [(1, lambda s: self.mutate(s, o, i, ('dec', tok) if empty else ('appdec', i.id))),
                                      (0, lambda s: (self.mutate(s, o, i, ('partial', i.id)), self.note(s, 'DECFAIL', tok, i)) and None)])
        if n.startswith('idna::utf32_to_punycode('):
            tok = self.vtok(st, a[0], a[1], 4)
            o = ip.okey(a[2])
            if o is None:
                return None
            ip.touch_obj(st, o)
            src = self.base_token(st, a[1])
            S = st.osz[o]

            def ok(s):
                self.mutate(s, o, i, ('puny', s.obj[o] if s.obj[o] == ('empty',) else ('pre', i.id), tok))
                if self.tracked(o):
                    self.addW(s, o, ('puny', S, tok, src, a[1], a[0], i.where()))

            def no(s):
                self.mutate(s, o, i, ('partial', i.id))
                if self.tracked(o):
                    self.addW(s, o, ('junk', S, 'partial punycode', i.where()))
                self.note(s, 'PUNYFAIL', tok, i)
            return self.split(st, i, [(1, ok), (0, no)])
        if re.match(r'idna::utf8_to_utf32\(|simdutf::convert_utf8_to_utf32(_with_errors)?\(', n):
            src = ('view', a[1 - 1], a[1])
            b = ptr_base(a[2])
            r = ip.sym(i)
            st.ts[('conv32', r)] = src
            if b is not None and b[2] == 'sdata' and b == a[2] and st.over.get(b[3]) == b[4]:
                o = b[3]
                ip.forget_token(st, ('u32of', src, r))
                st.obj[o] = ('u32of', src, r)
                st.over[('r', b)] = ('st', i.id)
            return r
        if re.match(r'idna::utf32_to_utf8\(|simdutf::convert_utf32_to_utf8\(', n):
            tok = self.vtok(st, a[1], a[0], 4)
            b = ptr_base(a[2])
            r = ip.sym(i)
            st.ts[('conv8', r)] = tok
            if b is not None and b[2] == 'sdata':
                o = b[3]
                st.obj[o] = ('raw', i.id)
                st.over[('r', b)] = ('st', i.id)
                if self.tracked(o):
                    self.raw_block(st, o, sub(64, a[2], b), ('utf8', tok, r), i)
            return r
        if re.match(r'idna::utf8_length_from_utf32\(|simdutf::utf8_length_from_utf32\(', n):
            r = ip.sym(i)
            st.ts[('len8', r)] = self.vtok(st, a[1], a[0], 4)
            return r
        if re.match(r'idna::utf32_length_from_utf8\(|simdutf::utf32_length_from_utf8\(', n):
            r = ip.sym(i)
            st.ts[('len32', r)] = ('view', a[0], a[1])
            return r
        if n.startswith('idna::ascii_map('):
            b = ptr_base(a[0])
            if b is not None and b[2] == 'sdata':
                o = b[3]
                whole = a[0] == b and (a[1] == st.osz.get(o))
                t = self.canon(st.obj[o])
                self.ip.string_written(st, i, o)
                st.obj[o] = ('lower', t) if whole else ('raw', i.id)
                if self.tracked(o):
                    w = self.W(st, o)
                    if whole and len(w) == 1 and w[0][0] == 'copy':
                        self.setW(st, o, (('lower',) + w[0][1:],))
                    else:
                        self.addW(st, o, ('junk', st.osz[o], 'in-place lowercase of part of the result', i.where()))
            return None
        if n.startswith('bool std::operator=='):
            if len(a) == 2:
                x, y = self.stok(st, a[0]), self.stok(st, a[1])
            elif len(a) == 4:
                es = 4 if 'u32' in n or 'char32' in n else 1
                for p, q in ((0, 2), (2, 0)):
                    lit = self.ip.cstr(a[q + 1], es)
                    ln = st.val(a[q]) if lit is not None else None
                    if ln is None and lit is not None and a[q][0] == 's' and a[q][2] in ('it', 'phi'):
                        ln = len(lit)              # counted by a loop over the literal (char_traits::length)
                    if ln is not None and 1 <= ln <= len(lit) and self.ip.cstr(a[p + 1], es) is None:
                        lit = lit[:ln]
                        return self.literal_test(st, i, (a[p + 1], a[p]), lit)
                x, y = self.vtok(st, a[0], a[1], es), self.vtok(st, a[2], a[3], es)
            else:
                return NotImplemented
            ox, oy = (ip.okey(a[0]), ip.okey(a[1])) if len(a) == 2 else (None, None)

            def same(s):
                s.say('EQ', x, y)
                if ox in s.osz and oy in s.osz and not s.assume(cmp('eq', s.osz[ox], s.osz[oy]), True, self):
                    return False
            outs = [(1, same)]
            if x != y:
                outs.append((0, lambda s: (s.say('NEQ', x, y), self.note(s, 'NEQ', (x, y), i)) and None))
            return self.split(st, i, outs)
        if n == 'strlen':
            lit = ip.cstr(a[0])
            return K(64, len(lit)) if lit is not None else NotImplemented
        m = re.match(r'(u32)?view::(\w+)\(', n)
        if m:
            return self.view_call(st, i, n, m.group(2), 4 if m.group(1) else 1, a)
        return NotImplemented

    def view_call(self, st, i, n, meth, es, a):
        v = self.view_at(st, a[0])
        if meth == 'starts_with' and v:
            lit = None
            if '(char const*)' in n or '(char32_t const*)' in n:
                lit = self.ip.cstr(a[1], es)
            elif re.search(r'\((u32)?view\)', n) and len(a) >= 3 and is_k(a[1]):
                c = self.ip.cstr(a[2], es)
                lit = c[:a[1][2]] if c is not None else None
            if lit is not None:
                return self.prefix_test(st, i, v, es, lit)
        if meth in ('find', 'rfind') and v and 'char const*, unsigned long)' in n and st.val(a[2]) == 0 and meth == 'rfind':
            lit = self.ip.cstr(a[1])
            if lit is not None:
                return self.prefix_test(st, i, v, es, lit, (K(64, 0), K(64, (1 << 64) - 1)))
        if meth == 'compare' and v and '(unsigned long, unsigned long, char const*)' in n and st.val(a[1]) == 0:
            lit = self.ip.cstr(a[3])
            if lit is not None and st.val(a[2]) == len(lit):
                return self.prefix_test(st, i, v, es, lit, (K(32, 0), None))
        if meth == 'find' and v and '(char' in n and '(char const' not in n:
            r = self.ip.sym(i)
            st.ts[('find', r)] = (v[0], v[1], a[1], a[2], es)

            def found(s):           # pos <= r < size
                return s.assume(cmp('eq', r, K(64, (1 << 64) - 1)), False, self) and s.assume(cmp('ult', r, v[1]), True, self) \
                    and s.assume(cmp('ule', a[2], r), True, self) and s.assume(cmp('ult', sub(64, r, a[2]), sub(64, v[1], a[2])), True, self)
            return self.split(st, i, [(r, found), (K(64, (1 << 64) - 1), None)])
        return self.ip.sym(i)

    def literal_test(self, st, i, v, lit):
        """view == literal"""
        ptr, ln = v
        n = K(64, len(lit))

        def yes(s):
            if not s.assume(cmp('eq', ln, n), True, self):
                return False
            s.say('PFX', ('view', ptr, n), bytes(lit))

        def no(s):
            if not s.assume(cmp('eq', ln, n), True, self):
                return False
            s.say('NPFX', ('view', ptr, n), bytes(lit))
        return self.split(st, i, [(1, yes), (0, no), (0, lambda s: s.assume(cmp('eq', ln, n), False, self))])

    def prefix_test(self, st, i, v, es, lit, res=(1, 0)):
        ptr, ln = v
        tok = self.vtok(st, ln, ptr, es)

        def yes(s):
            if not s.assume(neg(cmp('ult', ln, K(64, len(lit)))), True, self):
                return False
            s.say('PFX', ('view', ptr, ln), bytes(lit))

        def no(s):
            s.say('NPFX', ('view', ptr, ln), bytes(lit))
        if res[1] is None:
            r = self.ip.sym(i)
            return self.split(st, i, [(res[0], yes), (r, lambda s: no(s) is not False and s.assume(cmp('eq', r, res[0]), False, self))])
        return self.split(st, i, [(res[0], yes), (res[1], no)])

    def api_event(self, st, i, n, a):
        return NotImplemented

    # content token of the string a view points into
    def base_token(self, st, ptr):
        b = ptr_base(ptr)
        if b is not None and b[2] == 'sdata' and st.over.get(b[3]) == b[4]:
            return self.canon(st.obj[b[3]])
        return ('view', b, None) if b is not None else ('unknown',)

    def source_tok(self, st, tok, ln, ptr):
        """('u32of', src, r) counts as the decoded source only if the conversion is known to have
        succeeded and the string has exactly the converted length"""
        if tok[0] == 'u32of' and len(tok) == 3:
            src, r = tok[1], tok[2]
            z = st.truth(cmp('eq', r, K(64, 0)))
            same = ln == r or st._eqv(ln, r)
            if z is False and same:
                return ('u32of', src)
            return ('badconv', src, 'zero' if z is not False else 'size')
        return tok

    # ------------------------------------------------------------ result writes
    def on_string(self, st, i, o, base, meth, a):
        if not self.tracked(o):
            if base == 'resize' and self.canon(st.obj[o])[0] == 'u32of':
                t = st.obj[o]
                if len(t) == 3 and (a[1] == t[2] or st._eqv(a[1], t[2]) or a[1] == st.osz[o]):
                    sz = st.osz[o]
                    st.over[o] = ('m', i.id)
                    st.osz[o] = a[1]
                    return None
            if base == 'resize' and (a[1] == st.osz[o] or st._eqv(a[1], st.osz[o])):
                st.osz[o] = a[1]
                return None
            return NotImplemented
        S = st.osz[o]
        es = 1
        rec = None
        wh = i.where()
        if base in ('clear', 'assign', 'operator=', 'basic_string') or base == 'resize' and st.val(a[1]) == 0:
            st.ts['reset'] = 1
        if base == 'clear':
            self.setW(st, o, ())
            return NotImplemented
        if base in ('data', 'size', 'length', 'begin', 'end', 'empty', 'operator[]', 'reserve', 'capacity', 'c_str', 'back', 'front',
                    'cbegin', 'cend', 'operator view', 'max_size', 'at', 'shrink_to_fit') or base.startswith('~'):
            return NotImplemented
        if base == 'push_back':
            self.push_char(st, o, S, a[1], i)
            return NotImplemented
        if base in ('append', 'operator+='):
            if '(char const*, unsigned long)' in meth:
                lit = self.ip.cstr(a[1])
                if lit is not None and is_k(a[2]):
                    rec = ('bytes', S, bytes(lit[:a[2][2]]), wh)
                else:
                    rec = ('copy', S, a[1], a[2], 1, wh)
            elif '(char const*)' in meth:
                lit = self.ip.cstr(a[1])
                if lit is not None:
                    rec = ('bytes', S, bytes(lit), wh)
            elif '(char)' in meth:
                self.push_char(st, o, S, a[1], i)
                return NotImplemented
            elif '(unsigned long, char)' in meth:
                if st.val(a[1]) == 1:
                    self.push_char(st, o, S, a[2], i)
                    return NotImplemented
            elif '(view' in meth or 'view const&' in meth:
                v = self.view_at(st, a[1])
                if v:
                    rec = ('copy', S, v[0], v[1], 1, wh)
                    st0 = self.ip
                    self.ip.mutate(st, o, i, ('appended', i.id), add(64, S, v[1]))
                    self.addW(st, o, rec)
                    return a[0]
            elif re.search(r'\(string const&\)', meth):
                so = self.ip.okey(a[1])
                if so and self.W(st, so):
                    self.unsure(wh, 'append of another tracked string')
                if so and so in st.obj:
                    rec = ('copy', S, ('s', 64, 'sdata', so, st.over[so]), st.osz[so], 1, wh)
            elif self.ip.pair_view(meth, a, 1):
                v = self.ip.pair_view(meth, a, 1)
                rec = ('copy', S, v[0], v[1], v[2], wh)
        elif base in ('assign', 'operator='):
            if self.ip.pair_view(meth, a, 1):
                v = self.ip.pair_view(meth, a, 1)
                self.setW(st, o, (('copy', K(64, 0), v[0], v[1], v[2], wh),))
                return NotImplemented
            if '(char const*, unsigned long)' in meth:
                self.setW(st, o, (('copy', K(64, 0), a[1], a[2], 1, wh),))
                return NotImplemented
            v = None
            if 'view' in meth:
                v = self.view_at(st, a[1])
                if v is None and len(a) >= 3:
                    v = (a[2], a[1])
            if v:
                self.ip.mutate(st, o, i, ('copyof', ('view', v[0], v[1])), v[1])
                self.setW(st, o, (('copy', K(64, 0), v[0], v[1], 1, wh),))
                return a[0]
            so = self.ip.okey(a[1]) if len(a) > 1 else None
            if so and so in st.obj:
                if st.obj[so] == ('empty',):
                    self.setW(st, o, ())
                elif self.canon(st.obj[so])[0] == 'view':      # a copy of known text
                    _, p, n = self.canon(st.obj[so])[:3]
                    self.setW(st, o, (('copy', K(64, 0), p, n, 1, wh),))
                else:
                    self.setW(st, o, (('copy', K(64, 0), ('s', 64, 'sdata', so, st.over[so]), st.osz[so], 1, wh),))
                return NotImplemented
        elif base == 'basic_string':
            if meth.startswith('basic_string()'):
                self.setW(st, o, ())
                return NotImplemented
            if '(char const*, unsigned long' in meth:
                self.setW(st, o, (('copy', K(64, 0), a[1], a[2], 1, wh),))
                return NotImplemented
            v = self.view_at(st, a[1]) if len(a) > 1 else None
            if v:
                self.ip.mutate(st, o, i, ('copyof', ('view', v[0], v[1])), v[1])
                self.setW(st, o, (('copy', K(64, 0), v[0], v[1], 1, wh),))
                return None
        elif base == 'resize':
            self.resize_out(st, o, S, a[1], i)
            return NotImplemented
        if rec is None:
            rec = ('junk', S, 'unrecognised write %s' % meth[:40], wh)
        self.addW(st, o, rec)
        return NotImplemented

    def push_char(self, st, o, S, v, i):
        lp = self.ip.fn.loop_of(i.blk.id)
        # character copied from a sequence element indexed by the innermost loop?
        src = strip_narrow(v)
        if lp is not None and src[0] == 'ld':
            it = ('s', 64, 'it', lp.header)
            c, d = parts(src[2])
            k = d.get(it)
            if k is not None and sgn(64, k) * 8 == src[1]:
                d = dict(d)
                del d[it]
                st.ts[('cl', lp.header)] = ('push' if ('cl', lp.header) not in st.ts else 'bad', mklin(64, c, d), src[1] // 8)
                self.addW(st, o, ('elem', S, lp.header, i.where()))
                return
        self.addW(st, o, ('char', S, v, i.where()))

    def resize_out(self, st, o, S, n, i):
        w = self.W(st, o)
        if n == S or st._eqv(n, S):
            return
        if is_k(n) and n[2] == 0:
            self.setW(st, o, ())
            return
        for k, r in enumerate(w):
            if r[1] == n:
                self.setW(st, o, w[:k])
                return
        self.addW(st, o, ('resize', S, n, i.where()))

    def raw_block(self, st, o, at, what, i):
        """a callee wrote `what` at offset `at` of the result"""
        w = self.W(st, o)
        if w and w[-1][0] == 'resize' and w[-1][1] == at and what[0] == 'utf8':
            self.setW(st, o, w[:-1] + (('utf8', at, what[1], what[2], sub(64, w[-1][2], at), i.where()),))
        else:
            self.addW(st, o, ('junk', at, 'write outside the freshly grown part', i.where()))

    def on_store(self, st, i, addr, val):
        b = ptr_base(addr)
        if b is None or b[2] != 'sdata' or not self.tracked(b[3]):
            return
        o = b[3]
        lp = self.ip.fn.loop_of(i.blk.id)
        src = strip_narrow(val)
        at = sub(64, addr, b)
        if lp is not None and src[0] == 'ld' and val[1] == 8:
            it = ('s', 64, 'it', lp.header)
            c, d = parts(src[2])
            c2, d2 = parts(at)
            k = d.get(it)
            if k is not None and sgn(64, k) * 8 == src[1] and d2.get(it) == 1:
                d, d2 = dict(d), dict(d2)
                del d[it]
                del d2[it]
                st.ts[('cl', lp.header)] = ('raw' if ('cl', lp.header) not in st.ts else 'bad', mklin(64, c, d), src[1] // 8, mklin(64, c2, d2))
                return
        w = self.W(st, o)
        if is_k(val) or True:
            # store of one character into the freshly grown tail
            if w and w[-1][0] == 'resize':
                done = w[-1][4:] if len(w[-1]) > 4 else ()
                off = sub(64, at, w[-1][1])
                if is_k(off):
                    self.setW(st, o, w[:-1] + (w[-1][:4] + done + ((off[2], val),),))
                    return
        self.addW(st, o, ('junk', at, 'unrecognised store into the result', i.where()))

    # ------------------------------------------------------------ loops
    def outer(self, lp):
        """lp is the outermost loop that writes the result"""
        if self.OUT is None:
            return False
        root = self.OUT[1]
        if root not in self.ip.linfo[lp.header]['mut'] and not self.raw_in(lp):
            return False
        p = lp.parent
        while p is not None:
            if root in self.ip.linfo[p.header]['mut'] or self.raw_in(p):
                return False
            p = p.parent
        return not self.is_copy_loop(lp)

    def raw_in(self, lp):
        return False

    def is_copy_loop(self, lp):
        return self.sh.get(('clpat', lp.header)) not in (None, 'bad') and not self.sh.get(('notcopy', lp.header))

    def on_header(self, st, lp, entry):
        h = lp.header
        if self.outer(lp):
            self.setW(st, self.OUT, ())
        else:
            # inner loop: elements pushed in an iteration are folded into one record per loop
            w = tuple(r for r in self.W(st) if not (r[0] == 'elem' and r[2] == h))
            self.setW(st, self.OUT, w)
        st.ts.pop(('cl', h), None)

    def on_entry_pre(self, st, lp):
        if self.OUT in st.osz and not self.outer(lp):
            st.ts[('S', lp.header)] = st.osz[self.OUT]

    def on_back(self, st, lp):
        h = lp.header
        p = st.ts.get(('cl', h))
        pat = p if p and p[0] != 'bad' else 'bad'
        if self.OUT is not None and (p or ('clpat', h) in self.sh or any(r[0] == 'elem' and r[2] == h for r in self.W(st))):
            old = self.sh.get(('clpat', h))
            if old is None:
                self.sh[('clpat', h)] = pat
                self.sh[('clpats', h)] = {pat}
            else:
                self.sh[('clpats', h)].add(pat)
            if pat == 'bad':
                self.sh[('clpat', h)] = 'bad'
        if self.outer(lp):
            self.end_iteration(st, lp)

    def on_loop_exit(self, st, lp, bounds):
        """leaving lp; bounds = [(n, kind)]"""
        if self.OUT is None:
            return
        h = lp.header
        st.ts.pop(('cl', h), None)
        pats = self.sh.get(('clpats', h))
        if not pats or 'bad' in pats:
            return
        ends = [n for n, k in bounds if k == 'end']
        if not ends:
            return
        n = ends[0]
        o = self.OUT
        w = self.W(st)
        for p in pats:
            kind, P, es = p[0], p[1], p[2]
            if not self.alive(st, P):
                continue
            if kind == 'raw' and w and w[-1][0] == 'resize':
                S = p[3]
                r = w[-1]
                if r[1] == S and (sub(64, r[2], S) == n or st._eqv(sub(64, r[2], S), n)):
                    self.setW(st, o, w[:-1] + (('copy', S, P, n, es, r[3]),))
                    return
            if kind == 'push':
                S = st.ts.get(('S', h))
                if S is not None:
                    self.setW(st, o, w + (('copy', S, P, n, es, self.ip.fn.blocks[h].ins[0].where()),))
                    st.osz[o] = add(64, S, n)
                    return

    def alive(self, st, P):
        b = ptr_base(P)
        if b is not None and b[2] == 'sdata':
            return st.over.get(b[3]) == b[4]
        return True

    def end_iteration(self, st, lp):
        pass
