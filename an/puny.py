"""RFC 3492 (sections 6.1 - 6.3) as reference procedures for bisim.py, and the three functions of the library."""
import itertools
from poly import *
from poly import Ctx
import bisim
from bisim import Bisim, Code, Ptr, Stop, Cand

MAX = 0x7fffffff
N = 1 << 30
C = const


class Spec:
    silent = False                          # only the answer counts, there is no output
    cells = ()                              # state variables that stand for the elements of a local array

    def begin(self, ctx):
        self.L = sym('L')
        ctx.set(self.L, 0, N)
        self.memo = {}

    def sy(self, ctx, n, lo, hi):
        p = sym(n)
        ctx.set(p, lo, hi)
        return p

    def inv(self, h):
        return []

    def derived(self, ctx, h, S):
        return {}

    def late_failure(self, ctx, h):
        return False

    def doomed(self, ctx, h, S):
        return False

    def pre(self, ctx, h, S):
        pass

    def dontcare(self, ctx, n, S):
        return False

    def say(self, h):
        return {'true': "succeeds", 'false': "fails"}.get(h) or self.names[h]

    def varname(self, cd):
        if cd.v is None:
            return "a constant"
        return self.what.get(cd.v, cd.v)

    use_t = False

    def with_t(self, ctx, S):
        if self.use_t:
            S['t'] = self.threshold(ctx, S['k'], S['bias'])
        return S

    def threshold(self, ctx, k, bias):
        if ctx.ge(bias, k):
            return C(1)
        if ctx.ge(k, add(bias, C(26))):
            return C(26)
        return sub(k, bias)

    def adapt(self, ctx, delta, points, first):
        d = ctx.div(delta, C(700)) if first else ctx.div(delta, C(2))
        return add(d, ctx.div(d, points))

    def bias(self, ctx, S):
        return add(S['kk'], ctx.div(scale(S['d'], 36), add(S['d'], C(38))))


class Decode(Spec):
    """6.2, with maxint 2^31-1, digits a-z 0-9, and (WHATWG) failing if the result starts with xn--"""
    tree = [('A', None), ('M', None), ('K', 'M'), ('D', 'M')]
    names = {'A': "copies the basic code points", 'M': "starts the next code point", 'K': "goes on to the next digit", 'D': "goes on adapting the bias"}
    what = {'i': "i", 'oldi': "the old i", 'w': "the weight w", 'k': "k", 'pos': "the read position", 'n': "the code point n", 't': "the threshold", 'bias': "the bias", 'len': "the number of code points written",
            'd': "delta (while adapting)", 'kk': "k (while adapting)", 'j': "the position in the basic code points", 'b': "the number of basic code points", 'first': "the flag for the first time",
            'q': "i div (written+1)", 'nq': "the new code point", 'im': "i mod (written+1)", 'o0': "output[0]", 'o1': "output[1]", 'o2': "output[2]", 'o3': "output[3]"}
    O = cells = ('o0', 'o1', 'o2', 'o3')

    def fixed_atoms(self):
        return {atom('s', 'L'), atom('s', 'e')}

    def dontcare(self, ctx, n, S):
        """output elements that do not exist yet"""
        return n in self.O and ctx.value(sub(S['len'], C(self.O.index(n)))) is False

    def delim(self, ctx):
        """position of the last '-', None if there is none"""
        if 'e' not in self.memo:
            has = self.sy(ctx, 'has a delimiter', 0, 1)
            if not ctx.gt0(has):
                self.memo['e'] = None
            else:
                ctx.assume(self.L)
                e = self.sy(ctx, 'e', 0, N)
                ctx.assume(sub(self.L, e))
                if ctx.gt0(e):
                    ctx.box[atom('rd', 'in', e)] = (45, 45)
                    self.memo['e'] = e
                else:
                    ctx.box[atom('rd', 'in', ())] = (45, 45)
                    self.memo['e'] = ()
        return self.memo['e']

    def entry_state(self, ctx):
        return {'len': ()}

    def stable(self, h):
        return {'A': {'b'}, 'M': set(), 'K': {'oldi', 'n', 'bias', 'len', 'first', *self.O}, 'D': {'i', 'n', 'len', 'pos', 'first', 'q', 'nq', 'im', *self.O}}[h]

    def state(self, ctx, h):
        s = lambda n, lo, hi: self.sy(ctx, n, lo, hi)
        S = {}
        if h == 'A':
            b = sym('e')
            ctx.set(b, 1, N)
            ctx.assume(sub(self.L, b))
            self.memo['e'] = b
            S.update(j=s('j', 0, N), b=b)
            ctx.assume(add(sub(b, S['j']), C(1)))
            S['len'] = S['j']
        else:
            S['pos'] = s('pos', 0, N)
            ctx.assume(add(sub(self.L, S['pos']), C(1)))
            S['n'] = s('n', 128, MAX)
            S['len'] = s('len', 0, N)
            if h in 'MK':
                S['bias'] = s('bias', 0, 251)
            if h == 'M':
                S['i'] = s('i', 0, N)
            elif h == 'K':
                S.update(i=s('i', 0, MAX), oldi=s('oldi', 0, N), w=s('w', 1, MAX))
                S['k'] = add(S['bias'], s('k-bias', -215, 432))
                ctx.assume(add(sub(S['i'], S['oldi']), C(1)))
            else:
                S.update(d=s('d', 0, MAX), kk=s('kk', 0, 252), i=s('i', 0, MAX))
        for o in self.O:
            S[o] = s(o, 0, MAX)
        if h == 'M':
            S['first'] = s('first', 0, 1)
        elif h == 'K':
            S['first'] = s('first', 0, 1)
        return S

    def pre(self, ctx, h, S):
        if self.use_first and 'first' in S and h in 'MK':
            # i is 0 exactly before the first insertion
            ctx.set(S['first'], 0, 0) if ctx.gt0(S['i' if h == 'M' else 'oldi']) else ctx.set(S['first'], 1, 1)
        if self.use_t and h == 'K':
            S['t'] = self.threshold(ctx, S['k'], S['bias'])

    use_first = use_t = False

    def inv(self, h):
        left = lambda S: sub(self.L, S['pos'])
        return {'A': [lambda S: sub(S['b'], S['j'])], 'M': [left], 'K': [left],
                'D': [lambda S: sub(S['d'], C(455)), lambda S: sub(C(MAX + 1), self.nq(S))]}[h]

    def nq(self, S):
        return add(S['n'], var('div', S['i'], add(S['len'], C(1))))

    def derived(self, ctx, h, S):
        if h != 'D':
            return {}
        q = ctx.div(S['i'], add(S['len'], C(1)))
        return {'q': q, 'nq': add(S['n'], q), 'im': sub(S['i'], mul(q, add(S['len'], C(1))))}

    def doomed(self, ctx, h, S):
        return h == 'D' and ctx.gt(self.derived(ctx, h, S)['nq'], C(MAX))

    def put(self, ctx, S, idx, v):
        """insert v at idx; keeps track of the first four elements"""
        S = dict(S)
        o = [S[x] for x in self.O]
        for j in range(4):
            if not ctx.gt(idx, C(j)):
                o = o[:j] + [v] + o[j:3]
                break
        S.update(zip(self.O, o))
        S['len'] = add(S['len'], C(1))
        return S

    def step(self, ctx, h, S):
        S = dict(S)
        if h is None:
            e = self.delim(ctx)
            z = {o: () for o in self.O}
            if e is not None and e != ():
                return 'A', dict(z, j=(), b=e, len=()), []
            return 'M', dict(z, pos=(), n=C(128), len=(), bias=C(72), i=(), first=C(1)), []
        if h == 'A':
            if not ctx.gt(S['b'], S['j']):
                return 'M', dict({o: S[o] for o in self.O}, pos=add(S['b'], C(1)), n=C(128), len=S['b'], bias=C(72), i=(), first=C(1)), []
            c = var('rd', 'in', S['j'])
            if ctx.gt(c, C(127)):
                return 'false', S, []
            T = dict(S)
            for j in range(4):
                if not ctx.gt(S['len'], C(j)):
                    T[self.O[j]] = c
                    break
            T['len'] = T['j'] = add(S['j'], C(1))
            return 'A', T, [('insert', S['len'], c)]
        if h == 'M':
            if not ctx.gt(self.L, S['pos']):
                if ctx.ge(S['len'], C(4)) and all(ctx.eq(S[o], C(ord(x))) for o, x in zip(self.O, "xn--")):
                    return 'false', S, []
                return 'true', S, []
            S.update(oldi=S['i'], w=C(1), k=C(36))
            return 'K', self.with_t(ctx, S), []
        if h == 'K':
            if not ctx.gt(self.L, S['pos']):
                return 'false', S, []
            c = var('rd', 'in', S['pos'])
            if ctx.ge(c, C(97)):
                if ctx.gt(c, C(122)):
                    return 'false', S, []
                g = sub(c, C(97))
            elif ctx.ge(c, C(48)) and not ctx.gt(c, C(57)):
                g = sub(c, C(22))
            else:
                return 'false', S, []
            ni = add(S['i'], mul(g, S['w']))
            if ctx.gt(ni, C(MAX)):
                return 'false', S, []
            S['i'] = ni
            S['pos'] = add(S['pos'], C(1))
            t = self.threshold(ctx, S['k'], S['bias'])
            if ctx.gt(t, g):
                d = self.adapt(ctx, sub(ni, S['oldi']), add(S['len'], C(1)), ctx.eq(S['oldi'], ()))
                T = {x: S[x] for x in ('pos', 'n', 'len', 'i', *self.O)}
                T.update(d=d, kk=())
                return 'D', T, []
            nw = mul(S['w'], sub(C(36), t))
            if ctx.gt(nw, C(MAX)):
                return 'false', S, []
            S.update(w=nw, k=add(S['k'], C(36)))
            return 'K', self.with_t(ctx, S), []
        if h == 'D':
            if ctx.gt(S['d'], C(455)):
                S.update(d=ctx.div(S['d'], C(35)), kk=add(S['kk'], C(36)))
                return 'D', S, []
            X = self.derived(ctx, h, S)
            if ctx.gt(X['nq'], C(MAX)):
                return 'false', S, []
            T = self.put(ctx, S, X['im'], X['nq'])
            T.update(bias=self.bias(ctx, S), n=X['nq'], i=add(X['im'], C(1)), first=())
            return 'M', T, [('insert', X['im'], X['nq'])]


class Encode(Spec):
    """6.3"""
    tree = [('A', None), ('H', None), ('N', 'H'), ('P', 'H'), ('K', 'P'), ('D', 'P')]
    names = {'A': "copies the basic code points", 'H': "starts the next code point value", 'N': "goes on looking for the next code point value", 'P': "goes on with the next position", 'K': "writes another digit",
             'D': "goes on adapting the bias"}
    what = {'h': "h", 'b': "b", 'd': "delta", 'n': "n", 'm': "m", 'bias': "the bias", 'j': "the position", 'q': "q", 'k': "k", 't': "the threshold", 'a': "delta (while adapting)", 'kk': "k (while adapting)",
            'first': "the flag for the first time", 'ol': "the output length"}

    def fixed_atoms(self):
        return {atom('s', 'L'), atom('s', 'm0')}

    def entry_state(self, ctx):
        return {'ol': self.sy(ctx, 'ol', 0, N)}

    def stable(self, h):
        return {'A': set(), 'H': {'b'}, 'N': {'h', 'b', 'd', 'n', 'bias', 'first', 'ol'}, 'P': {'b', 'n'}, 'K': {'j', 'h', 'd', 'bias', 'n', 'b', 'first'},
                'D': {'j', 'h', 'n', 'b', 'ol', 'd'}}[h]

    def state(self, ctx, h):
        s = lambda n, lo, hi: self.sy(ctx, n, lo, hi)
        S = {'ol': s('ol', 0, N), 'h': s('h', 0, N)}
        ctx.assume(add(sub(self.L, S['h']), C(1)))
        if h == 'A':
            S['j'] = s('j', 0, N)
            ctx.assume(add(sub(self.L, S['j']), C(1)))
            ctx.assume(add(sub(S['j'], S['h']), C(1)))
            return S
        S['b'] = s('b', 0, N)
        ctx.assume(add(sub(S['h'], S['b']), C(1)))
        S['n'] = s('n', 128, 0x110000)
        if h != 'D':
            S['bias'] = s('bias', 0, 251)
            S['d'] = s('d', 0, MAX)
            S['first'] = s('first', 0, 1)
        if h in 'NPKD':
            S['j'] = s('j', 0, N)
            ctx.assume(add(sub(self.L, S['j']), C(1 if h in 'NP' else 0)))
        if h == 'N':
            S['m'] = add(S['n'], s('m-n', 0, 0xffffffff))          # m starts above n and only takes values >= n
            ctx.assume(sub(C(1 << 32), S['m']))
            ctx.assume(sub(self.L, S['h']))
            ctx.assume(sub(C(0x110000), S['n']))
        if h in 'PKD':
            ctx.assume(sub(C(0x110000), S['n']))
        if h in 'KD':
            # the unit at j is n: one more unit is handled than before
            ctx.assume(sub(self.L, S['h']))
        if h == 'K':
            S['q'] = s('q', 0, MAX)
            S['k'] = add(S['bias'], s('k-bias', -215, 432))
        if h == 'D':
            S.update(a=s('a', 0, MAX), kk=s('kk', 0, 252), d=s('d', 0, MAX))
        return S

    use_first = use_t = False

    def pre(self, ctx, h, S):
        if h == 'N' and not ctx.gt(self.L, S['j']):
            # some unit is not handled yet, and all those are >= n: m is the smallest of them
            ctx.assume(sub(C(0x110000), S['m']))
        if h == 'P' and not ctx.gt(self.L, S['j']):
            # delta counts the smaller units behind the last n
            ctx.assume(add(sub(self.L, S['d']), C(1)))
        if self.use_first and 'first' in S:
            ctx.set(S['first'], 0, 0) if ctx.gt(S['h'], S['b']) else ctx.set(S['first'], 1, 1)
        if self.use_t and h == 'K':
            S['t'] = self.threshold(ctx, S['k'], S['bias'])
        if h == 'P' and ctx.gt(self.L, S['j']) and ctx.eq(var('rd', 'in', S['j']), S['n']):
            ctx.assume(sub(self.L, S['h']))

    def inv(self, h):
        left = lambda S: sub(self.L, S['j'])
        return {'A': [left], 'N': [left], 'P': [left], 'H': [lambda S: sub(self.L, S['h'])], 'K': [], 'D': [lambda S: sub(S['a'], C(455))]}[h]

    def digit(self, ctx, q):
        return add(q, C(97)) if ctx.gt(C(26), q) else add(q, C(22))

    def step(self, ctx, h, S):
        S = dict(S)
        if h is None:
            return 'A', dict(j=(), h=(), ol=S['ol']), []
        o = add(S['ol'], C(1))
        if h == 'A':
            if not ctx.gt(self.L, S['j']):
                T = dict(h=S['h'], b=S['h'], d=(), n=C(128), bias=C(72), first=C(1), ol=S['ol'])
                if ctx.gt0(S['h']):
                    T['ol'] = o
                    return 'H', T, [('push', C(45))]
                return 'H', T, []
            c = var('rd', 'in', S['j'])
            S['j'] = add(S['j'], C(1))
            if ctx.gt(c, C(0x10ffff)) or ctx.ge(c, C(0xd800)) and not ctx.gt(c, C(0xdfff)):
                return 'false', S, []
            if ctx.gt(C(128), c):
                S['h'] = add(S['h'], C(1))
                S['ol'] = o
                return 'A', S, [('push', c)]
            return 'A', S, []
        if h == 'H':
            if not ctx.gt(self.L, S['h']):
                return 'true', S, []
            S.update(j=(), m=self.m0)
            return 'N', S, []
        if h == 'N':
            if ctx.gt(self.L, S['j']):
                c = var('rd', 'in', S['j'])
                S['j'] = add(S['j'], C(1))
                if ctx.ge(c, S['n']) and ctx.gt(S['m'], c):
                    S['m'] = c
                return 'N', S, []
            d = add(S['d'], mul(sub(S['m'], S['n']), add(S['h'], C(1))))
            if ctx.gt(d, C(MAX)):
                return 'false', S, []
            S.update(d=d, n=S['m'], j=())
            del S['m']
            return 'P', S, []
        if h == 'P':
            if not ctx.gt(self.L, S['j']):
                S.update(d=add(S['d'], C(1)), n=add(S['n'], C(1)))
                del S['j']
                return 'H', S, []
            c = var('rd', 'in', S['j'])
            if ctx.gt(S['n'], c):
                if ctx.ge(S['d'], C(MAX)):
                    return 'false', S, []
                S['d'] = add(S['d'], C(1))
            elif ctx.eq(c, S['n']):
                S.update(q=S['d'], k=C(36))
                return 'K', self.with_t(ctx, S), []
            S['j'] = add(S['j'], C(1))
            return 'P', S, []
        if h == 'K':
            t = self.threshold(ctx, S['k'], S['bias'])
            if ctx.gt(t, S['q']):
                a = self.adapt(ctx, S['d'], add(S['h'], C(1)), ctx.eq(S['h'], S['b']))
                return 'D', dict(a=a, kk=(), d=S['d'], j=S['j'], h=S['h'], n=S['n'], b=S['b'], ol=o), [('push', self.digit(ctx, S['q']))]
            r, base = sub(S['q'], t), sub(C(36), t)
            x = ctx.div(r, base)
            dg = add(t, sub(r, mul(base, x)))
            S.update(q=x, k=add(S['k'], C(36)), ol=o)
            return 'K', self.with_t(ctx, S), [('push', self.digit(ctx, dg))]
        if h == 'D':
            if ctx.gt(S['a'], C(455)):
                S.update(a=ctx.div(S['a'], C(35)), kk=add(S['kk'], C(36)))
                return 'D', S, []
            bias = self.bias(ctx, dict(d=S['a'], kk=S['kk']))
            return 'P', dict(j=add(S['j'], C(1)), h=add(S['h'], C(1)), d=(), bias=bias, n=S['n'], b=S['b'], first=(), ol=S['ol']), []


class EncodeChecked(Encode):
    """6.3 with the test for scalar values as a pass of its own in front"""
    tree = [('V', None)] + Encode.tree
    names = dict(Encode.names, V="tests the code points")

    def stable(self, h):
        return set() if h == 'V' else super().stable(h)

    def state(self, ctx, h):
        if h != 'V':
            return super().state(ctx, h)
        S = {'ol': self.sy(ctx, 'ol', 0, N), 'j': self.sy(ctx, 'j', 0, N)}
        ctx.assume(add(sub(self.L, S['j']), C(1)))
        return S

    def inv(self, h):
        return [lambda S: sub(self.L, S['j'])] if h == 'V' else super().inv(h)

    def step(self, ctx, h, S):
        bad = lambda c: ctx.gt(c, C(0x10ffff)) or ctx.ge(c, C(0xd800)) and not ctx.gt(c, C(0xdfff))
        if h is None:
            return 'V', dict(j=(), ol=S['ol']), []
        if h == 'V':
            if not ctx.gt(self.L, S['j']):
                return 'A', dict(j=(), h=(), ol=S['ol']), []
            if bad(var('rd', 'in', S['j'])):
                return 'false', S, []
            return 'V', dict(S, j=add(S['j'], C(1))), []
        if h == 'A' and ctx.gt(self.L, S['j']):
            c = var('rd', 'in', S['j'])
            T = dict(S, j=add(S['j'], C(1)))
            if ctx.gt(C(128), c):
                T.update(h=add(S['h'], C(1)), ol=add(S['ol'], C(1)))
                return 'A', T, [('push', c)]
            return 'A', T, []
        return super().step(ctx, h, S)


class Puny(Code):
    """library function: %a0, %a1 the view, %a2 the result string (if any)"""

    def enter(self, ctx, spec, head, S):
        self.spec, self.outlen, self.S = spec, S.get('len', S.get('ol')), S
        self.env["%a0"], self.env["%a1"] = spec.L, Ptr("in", ())
        self.env["%a2"] = Ptr("string", ())
        for b in self.f.order:                       # allocas have the same identity everywhere
            for i in self.f.blocks[b].ins:
                if i.op == "alloca":
                    self.alloc[i.id] = i.x.get("asz")
                    self.env[i.id] = Ptr(i.id, ())
        self.dirty = False

    def ptr_unit(self, base):
        return self.esz if base == "in" else 1

    def ptr_scale(self, cd):
        return self.ptr_unit(cd.base) if cd.base is not None else 1

    def live_at(self, h):
        return {v for v in super().live_at(h) if self.f.defs.get(v) is None or self.f.defs[v].op != "alloca"}

    def put(self, idx, v, i):
        if self.spec.tree[1][0] == 'M':
            if self.ctx.gt(idx, self.outlen) or self.ctx.gt0(scale(idx, -1)):
                raise Stop("inserts outside the result", i)
            self.eff.append(('insert', idx, v))
        else:
            if not self.ctx.same(idx, self.outlen):
                raise Undec("inserts inside the result")
            self.eff.append(('push', v))
        self.outlen = add(self.outlen, C(1))

    def out_elem(self, idx, i):
        j = isconst(idx)
        if j is None or not 0 <= j < 4 or self.eff or 'o0' not in self.S:
            raise Undec("reads the result")
        if not self.ctx.gt(self.outlen, idx):
            raise Stop("reads outside the result", i)
        return self.S['o%d' % j]

    def char(self, v, bits):
        return self.uns(v, bits) if bits < 32 or self.ctx.bounds(v)[0] < 0 else v

    def isview(self, o):
        p = self.val(o)
        if not isinstance(p, Ptr) or p.base not in self.alloc:
            return False
        a, b = self.mem.get((p.base, 8), (None,))[0], self.mem.get((p.base, 0), (None,))[0]
        return isinstance(a, Ptr) and a.base == "in" and a.off == () and b == self.L

    def extern(self, i, n, a):
        c = self.ctx
        w = 8 if self.esz == 4 else 32
        st = "string" if self.esz == 4 else "u32string"
        if n.startswith("view::find_last_of(char") or n.startswith("view::rfind(char"):
            ch = isconst(self.num(a[1]))
            npos = isconst(self.num(a[2]))
            if self.esz == 1 and ch == 45 and npos is not None and npos >= N and self.isview(a[0]) and isinstance(self.spec, Decode):
                e = self.spec.delim(c)
                return C((1 << 64) - 1) if e is None else e
            raise Undec("search " + n)
        if n.startswith(st + "::"):
            p = self.val(a[0])
            if not isinstance(p, Ptr) or p.base != "string":
                raise Undec("another string")
            m = n[len(st) + 2:]
            if m.startswith(("size()", "length()")):
                return self.outlen
            if m.startswith("empty()"):
                return not c.gt0(self.outlen)
            if m.startswith(("reserve(", "capacity()", "shrink_to_fit")):
                return None if not m.startswith("capacity") else sym('capacity')
            if m.startswith("push_back("):
                return self.put(self.outlen, self.char(self.num(a[1]), w), i)
            if m.startswith(("operator+=(char)", "operator+=(char32_t)")):
                self.put(self.outlen, self.char(self.num(a[1]), w), i)
                return p
            if m.startswith(("append(unsigned long, char", "append(unsigned long, char32_t")) and isconst(self.num(a[1])) == 1:
                self.put(self.outlen, self.char(self.num(a[2]), w), i)
                return p
            if m.startswith("insert(unsigned long, unsigned long, char") and isconst(self.num(a[2])) == 1:
                self.put(self.uns(self.num(a[1]), 64), self.char(self.num(a[3]), w), i)
                return p
            if m.startswith("insert(__gnu_cxx::__normal_iterator") and m.rstrip().endswith(("char)", "char32_t)")) and len(a) == 3:
                q = self.val(a[1])
                if q.base != "out":
                    raise Undec("insertion point")
                self.put(self.quot(q.off, w // 8), self.char(self.num(a[2]), w), i)
                return Ptr("out", q.off)
            if m.startswith(("begin()", "cbegin()", "data()", "c_str()")):
                return Ptr("out", ())
            if m.startswith(("end()", "cend()")):
                return Ptr("out", scale(self.outlen, w // 8))
            if m.startswith(("operator[](", "at(")):
                return Ptr("out", scale(self.uns(self.num(a[1]), 64), w // 8))
            if m.startswith("front()"):
                return Ptr("out", ())
            if m.startswith("clear()"):
                self.eff.append(('clear',))
                self.outlen = ()
                return None
        raise Undec("call of " + n)


def pairings(f, tree):
    """code loops for the loops of the reference, keeping nesting and order"""
    L = f.loops()
    rpo = f.rpo()
    hs = sorted(L, key=rpo.index)
    names = [t[0] for t in tree]
    par = dict(tree)
    out = []
    for sel in itertools.combinations(hs, len(names)):
        m = dict(zip(sel, names))
        inv = {v: k for k, v in m.items()}

        def up(h):
            p = L[h].parent
            while p is not None and p.header not in m:
                p = p.parent
            return m[p.header] if p is not None else None
        if all(up(h) == par[m[h]] for h in sel):
            out.append(m)
    # an unrolled loop should not contain a paired one
    good = []
    for m in out:
        bad = 0
        for h in hs:
            if h not in m and any(x in L[h].body for x in m):
                bad += 1
        good.append((bad, m))
    good.sort(key=lambda t: t[0])
    return [m for b, m in good]
