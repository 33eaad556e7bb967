"""The one-time table initialisation: publication protocol, failure behaviour, guarded use, big-endian conversion,
and absence of other shared state.  Works on path summaries of ensure_tables() and on a small forward dataflow over
every function that reads a table pointer."""
import ir, tables

ACQ = {"acquire", "acq_rel", "seq_cst"}
REL = {"release", "acq_rel", "seq_cst"}


def gname(o):
    """global behind an operand"""
    if isinstance(o, str):
        if o.startswith('@'):
            return o[1:]
        if o.startswith('g:@'):
            return o[3:o.rindex('+')]
    return None


def k(o):
    if isinstance(o, str) and o.startswith('c:'):
        return int(o.split(':')[2])
    return None


class Path:
    def __init__(self):
        self.env, self.sets, self.facts, self.ev, self.visits, self.trail = {}, {}, {}, [], {}, []
        self.counter_exit = None

    def fork(self):
        p = Path()
        p.env, p.sets, p.facts, p.ev = dict(self.env), dict(self.sets), dict(self.facts), list(self.ev)
        p.visits, p.trail, p.counter_exit = dict(self.visits), list(self.trail), self.counter_exit
        return p


class Protocol:
    """all paths through ensure_tables (loops without events are summarised, others followed twice)"""

    def __init__(self, mod, fn):
        self.mod, self.fn, self.T = mod, fn, tables.load(mod)
        self.done = []
        self.undec = []
        self.loops = fn.loops()
        self.fresh = 0
        atom = {}
        for i in fn.instrs():
            if i.op in ('cmpxchg', 'atomicrmw') or (i.op in ('load', 'store') and i.x.get("ord")):
                g = gname(i.o[1 if i.op == 'store' else 0])
                if g:
                    atom[g] = atom.get(g, 0) + (10 if i.op == 'cmpxchg' else 1)
        self.state = max(atom, key=atom.get) if atom else None
        vals = {0}
        for f in mod.fns.values():
            for i in f.instrs():
                for o in ((i.o[0],) if i.op == 'store' and gname(i.o[1]) == self.state else (i.o[2],) if i.op == 'cmpxchg' and gname(i.o[0]) == self.state else ()):
                    vals.add(k(o))
        g = mod.ginit(self.state) if self.state else None
        self.values = frozenset(range(256)) if None in vals or not g or any(g[0]) else frozenset(vals)
        self.plain = {lp.header for lp in self.loops.values() if not self.eventful(lp)}
        self.walk()

    def eventful(self, lp):
        for b in lp.body:
            for i in self.fn.blocks[b].ins:
                if i.op in ('cmpxchg', 'atomicrmw', 'fence'):
                    return True
                if i.op in ('load', 'store') and gname(i.o[1 if i.op == 'store' else 0]) == self.state:
                    return True
                if i.op == 'store' and gname(i.o[1]):
                    return True
                if i.op == 'call' and not i.callee.startswith('llvm.'):
                    return True
        return False

    def new(self, kind, *a):
        self.fresh += 1
        return (kind, self.fresh) + a

    def val(self, p, o):
        c = k(o)
        if c is not None:
            return ('k', c)
        if o in p.env:
            return p.env[o]
        if o in ('null', 'zero'):
            return ('k', 0)
        g = gname(o)
        if g:
            return ('g', g)
        if o.startswith('s:'):
            return ('k', 0)
        return ('u', o)

    # ---- boolean reasoning
    def test(self, p, pred, a, b):
        """truth value term"""
        if a[0] == 'k' and b[0] != 'k':
            a, b = b, a
            pred = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
        if a[0] == 'k' and b[0] == 'k':
            x, y = a[1], b[1]
            r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y}.get(pred)
            return ('k', int(r)) if r is not None else ('u', 0)
        if a[0] in ('cmp', 'not', 'both', 'either', 'casok') and b == ('k', 0):
            return ('not', a) if pred == 'eq' else a
        return ('cmp', pred, a, b)

    def assume(self, p, t, want):
        """list of paths on which t has that truth value"""
        if t[0] == 'k':
            return [p] if bool(t[1] & 1) == want else []
        if t[0] == 'not':
            return self.assume(p, t[1], not want)
        if t[0] == 'both' and want or t[0] == 'either' and not want:
            out = []
            for q in self.assume(p, t[1], want):
                out += self.assume(q, t[2], want)
            return out
        if t[0] in ('both', 'either'):
            out = []
            for q in self.assume(p, t[1], want):
                out.append(q)
            for q in self.assume(p.fork(), t[1], not want):
                out += self.assume(q, t[2], want)
            return out
        if t in p.facts:
            return [p] if p.facts[t] == want else []
        p = p.fork()
        if t[0] == 'cmp':
            _, pred, a, b = t
            if a in p.sets and b[0] == 'k':
                f = {'eq': lambda x: x == b[1], 'ne': lambda x: x != b[1], 'ult': lambda x: x < b[1], 'ugt': lambda x: x > b[1],
                     'ule': lambda x: x <= b[1], 'uge': lambda x: x >= b[1]}.get(pred)
                if f:
                    s = frozenset(x for x in p.sets[a] if f(x) == want)
                    if not s:
                        return []
                    p.sets[a] = s
            if pred == 'ne':
                t, want = ('cmp', 'eq', a, b), not want
                if t in p.facts:
                    return [p] if p.facts[t] == want else []
        if t[0] == 'casok':
            n = t[1]
            if not want and n in p.sets:
                s = p.sets[n] - {self.cas[n][0]}
                if not s:
                    return []
                p.sets[n] = s
            elif want and n in p.sets:
                if self.cas[n][0] not in p.sets[n]:
                    return []
                p.sets[n] = frozenset([self.cas[n][0]])
            p.ev.append(('cas', want, self.cas[n]))
        p.facts[t] = want
        return [p]

    # ---- execution of one path step
    def walk(self):
        self.cas = {}
        todo = [(self.fn.entry, None, Path())]
        n = 0
        while todo:
            n += 1
            if n > 40000:
                self.undec.append((self.fn.short, "too many paths"))
                return
            b, frm, p = todo.pop()
            todo += self.block(b, frm, p)

    def block(self, b, frm, p):
        fn = self.fn
        blk = fn.blocks[b]
        p = p.fork()
        if b in self.plain and (frm is None or frm not in self.loops[b].body):
            lp = self.loops[b]
            wr = [i for x in lp.body for i in fn.blocks[x].ins if i.op == 'store']
            for i in wr:
                p.ev.append(('write', self.base(p, i.o[1]), i))
            for x in lp.body:
                for i in fn.blocks[x].ins:
                    p.env[i.id] = ('u', i.id)
            # the header is passed at least once, so values of its entry edge are not final
            return [(s, x, p.fork()) for x, s in lp.exits]
        if b in self.loops and frm in self.loops[b].body:
            p.visits[b] = p.visits.get(b, 0) + 1
            if p.visits[b] >= 2:
                # further rounds repeat the same states: force the counter on its way out
                p.env = dict(p.env)
        if p.visits.get(b, 0) > 2:
            return []
        inc = {}
        for i in blk.phis():
            for v, f in i.x["in"]:
                if f == frm:
                    inc[i.id] = self.val(p, v)
        if b in self.loops:
            ctr = self.counter(self.loops[b])
            for i in blk.phis():
                if ctr and i.id == ctr[0]:
                    inc[i.id] = ('ctr', b, p.visits.get(b, 0))
        p.env.update(inc)
        p.trail.append(b)
        for i in blk.ins:
            if i.op == 'phi':
                continue
            if i.op == 'br':
                if len(i.x["succ"]) == 1:
                    return [(i.x["succ"][0], b, p)]
                t = self.val(p, i.o[0])
                out = []
                for s, w in zip(i.x["succ"], (True, False)):
                    for q in self.assume(p.fork(), t, w):
                        lp = self.loop_with_counter(b)
                        if lp and s not in lp.body and self.on_counter(i, lp, p, q):
                            q.counter_exit = (lp, i)
                        out.append((s, b, q))
                return out
            if i.op == 'switch':
                t = self.val(p, i.o[0])
                out, rest = [], [p.fork()]
                for cv, s in i.x["cases"]:
                    c = self.test(p, 'eq', t, ('k', k(cv)))
                    for q in self.assume(p.fork(), c, True):
                        out.append((s, b, q))
                    nr = []
                    for q in rest:
                        nr += self.assume(q, c, False)
                    rest = nr
                for q in rest:
                    out.append((i.x["def"], b, q))
                return out
            if i.op == 'ret':
                self.done.append((self.val(p, i.o[0]) if i.o else None, p, i))
                return []
            if i.op == 'unreachable':
                return []
            self.step(p, i)
        return []

    def loop_with_counter(self, b):
        lp = self.fn.loop_of(b)
        while lp:
            if self.counter(lp):
                return lp
            lp = lp.parent
        return None

    def counter(self, lp):
        """(phi, bound, compare) of a loop counter that moves by a constant towards a constant bound"""
        fn = self.fn
        for ph in fn.blocks[lp.header].phis():
            ok = all(self.is_step(v, ph.id) for v, f in ph.x["in"] if f in lp.body)
            if not ok:
                continue
            start = [k(v) for v, f in ph.x["in"] if f not in lp.body]
            if len(start) != 1 or start[0] is None:
                continue
            for x, s in lp.exits:
                t = fn.blocks[x].term
                if t.op != 'br' or not t.o:
                    continue
                for c, w in self.forces(t.o[0], t.x["succ"][0] == s, lp):
                    for a, bnd in ((c.o[0], c.o[1]), (c.o[1], c.o[0])):
                        if (a == ph.id or self.is_step(a, ph.id)) and k(bnd) is not None:
                            return ph.id, abs(k(bnd) - start[0]), c, w
        return None

    def forces(self, o, want, lp):
        """comparisons in the loop that alone give the condition the truth value, with the outcome that does"""
        d = self.fn.defs.get(o)
        if d is None or d.blk.id not in lp.body:
            return []
        if d.op == 'icmp':
            return [(d, want)]
        cst = lambda v: k(v) & 1 if k(v) is not None else None
        if d.op == 'xor' and cst(d.o[1]) is not None:
            return self.forces(d.o[0], want ^ bool(cst(d.o[1])), lp)
        if d.op == ('or' if want else 'and'):
            return self.forces(d.o[0], want, lp) + self.forces(d.o[1], want, lp)
        if d.op == 'select':
            if cst(d.o[1 if want else 2]) == int(want):
                return self.forces(d.o[0], want, lp) + self.forces(d.o[2 if want else 1], want, lp)
            return []
        if d.op == 'phi' and d.blk.id != lp.header:
            vs = [v for v, f in d.x["in"]]
            r = [v for v in vs if cst(v) != int(want)]
            if len(set(r)) == 1:
                return self.forces(r[0], want, lp)
        return []

    def is_step(self, v, ph):
        i = self.fn.defs.get(v)
        return i is not None and i.op in ('add', 'sub') and i.o[0] == ph and k(i.o[1]) is not None

    def on_counter(self, br, lp, p, q):
        """is it the counter that ends the loop on this path?"""
        c = self.counter(lp)
        if c is None:
            return False
        if br.o[0] == c[2].id:
            return True
        t = self.val(p, c[2].id)
        n = t
        w = c[3]
        while n[0] == 'not':
            n, w = n[1], not w
        if n[0] == 'cmp' and n[1] == 'ne':
            n, w = ('cmp', 'eq') + n[2:], not w
        return q.facts.get(n) == w

    def base(self, p, o):
        v = self.val(p, o)
        if v[0] == 'u':
            i = self.fn.defs.get(o)
            if i is not None and i.op == 'getelementptr':
                return self.base(p, i.o[0])
            if i is not None and i.op == 'phi':
                s = {self.base(p, x) for x, _ in i.x["in"] if x != o and self.fn.defs.get(x) is not None and self.fn.defs[x].blk.id not in (self.fn.loop_of(i.blk.id).body if self.fn.loop_of(i.blk.id) else ())}
                if len(s) == 1:
                    return s.pop()
        return v[1] if v[0] == 'ptr' else v

    def step(self, p, i):
        v = lambda n: self.val(p, i.o[n])
        if i.op == 'load':
            g = gname(i.o[0])
            if g == self.state and g:
                t = self.new('ld')
                p.sets[t] = self.values
                p.ev.append(('load', t, i.x.get("ord"), i))
                p.env[i.id] = t
            elif g:
                p.env[i.id] = ('u', i.id)
                p.ev.append(('gload', g, i))
            elif v(0)[0] == 'loc' and ('mem', v(0)) in p.env:
                p.env[i.id] = p.env[('mem', v(0))]
            else:
                p.env[i.id] = ('u', i.id)
        elif i.op == 'alloca':
            p.env[i.id] = ('loc', i.id)
        elif i.op == 'store':
            g = gname(i.o[1])
            if g == self.state and g:
                p.ev.append(('store', v(0), i.x.get("ord"), i))
            elif g:
                p.ev.append(('gstore', g, v(0), i))
            elif v(1)[0] == 'loc':
                p.env[('mem', v(1))] = v(0)
            else:
                p.ev.append(('write', self.base(p, i.o[1]), i))
        elif i.op == 'cmpxchg':
            if gname(i.o[0]) == self.state:
                t = self.new('ld')
                p.sets[t] = self.values
                e, d = v(1), v(2)
                self.cas[t] = (e[1] if e[0] == 'k' else None, d[1] if d[0] == 'k' else None, i.x.get("ord"), i.x.get("ordf"), i.x.get("weak"), i)
                p.ev.append(('load', t, i.x.get("ordf"), i))
                p.env[i.id] = ('pair', t, ('casok', t))
            else:
                p.env[i.id] = ('u', i.id)
        elif i.op == 'atomicrmw':
            p.ev.append(('rmw', i))
            p.env[i.id] = ('u', i.id)
        elif i.op == 'fence':
            p.ev.append(('fence', i.x.get("ord"), i))
        elif i.op == 'extractvalue' and v(0)[0] == 'pair':
            p.env[i.id] = v(0)[1 + i.x["idx"][0]]
        elif i.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
            p.env[i.id] = v(0)
        elif i.op == 'icmp':
            pr = i.x["p"]
            if pr[0] == 's' and i.x.get("oty") != 'i8':
                pr = 'u' + pr[1:]      # zero-extended bytes against small constants
            p.env[i.id] = self.test(p, pr, v(0), v(1))
        elif i.op == 'xor' and v(1) == ('k', 1) or i.op == 'xor' and i.ty == 'i1':
            p.env[i.id] = ('not', v(0))
        elif i.op == 'and' and i.ty == 'i1':
            p.env[i.id] = ('both', v(0), v(1))
        elif i.op == 'or' and i.ty == 'i1':
            p.env[i.id] = ('either', v(0), v(1))
        elif i.op == 'and' and v(1)[0] == 'k' and v(1)[1] in (1, 255):
            p.env[i.id] = v(0)
        elif i.op == 'getelementptr':
            b = v(0)
            if not i.x.get("vars"):
                base, off = (b[1], b[2]) if b[0] == 'ptr' else (b, 0)
                o = off + i.x.get("coff", 0)
                p.env[i.id] = ('ptr', base, o) if o else base
            else:
                p.env[i.id] = ('ptr', b[1] if b[0] == 'ptr' else b, None)
        elif i.op in ('call', 'invoke'):
            n = i.callee
            args = [self.val(p, o) for o in i.o]
            if 'operator new' in n or n in ('malloc', 'calloc'):
                t = self.new('alloc')
                p.ev.append(('alloc', t, args, i))
                if 'nothrow' not in n and n not in ('malloc', 'calloc'):
                    p.facts[('cmp', 'eq', t, ('k', 0))] = False
            elif 'operator delete' in n or n == 'free':
                p.ev.append(('free', args[0] if args else None, i))
                t = ('u', i.id)
            elif n.startswith('idna::deflate::inflate_raw'):
                t = self.new('inf')
                p.ev.append(('inflate', t, args, i))
            elif n.startswith('idna::crc32_ieee'):
                t = self.new('crc')
                p.ev.append(('crc', t, args, i))
            elif n.startswith('idna::tables_are_ready'):
                t = self.ready_term(p, i)
            else:
                if not n.startswith('llvm.'):
                    p.ev.append(('call', n, i))
                t = ('u', i.id)
            p.env[i.id] = t
        else:
            p.env[i.id] = ('u', i.id)


def _ready_term(self, p, i):
    """the answer of tables_are_ready(), expressed by a load of the state"""
    f = self.mod.fns.get(i.x.get("f"))
    Q = Protocol(self.mod, f) if f is not None and f is not self.fn else None
    if Q is None or len(Q.done) != 1 or not Q.done[0][0]:
        return ('u', i.id)
    ret, q, _ = Q.done[0]
    lds = [e for e in q.ev if e[0] == 'load']
    if len(lds) != 1 or len(q.ev) != 1:
        return ('u', i.id)
    t = self.new('ld')
    p.sets[t] = self.values
    p.ev.append(('load', t, lds[0][2], lds[0][3]))
    sub = lambda x: t if x == lds[0][1] else tuple(sub(y) for y in x) if isinstance(x, tuple) else x
    return sub(ret)


Protocol.ready_term = _ready_term


def pointer_globals(mod):
    """mutable pointer globals of the library that its functions load: the published table pointers"""
    out = {}
    for f in mod.fns.values():
        if f.short.startswith('idna::ensure_tables('):
            continue
        for i in f.instrs():
            if i.op == 'load' and i.ty == 'ptr':
                g = gname(i.o[0])
                if g and g in mod.globals and not mod.globals[g]["const"] and mod.globals[g]["ty"] == 'ptr':
                    out.setdefault(g, []).append((f, i))
    return out


def complete(P, p, upto, need):
    """does the path publish everything before event number `upto`?  (ok, why)"""
    al = [e for e in p.ev[:upto] if e[0] == 'alloc']
    inf = [e for e in p.ev[:upto] if e[0] == 'inflate']
    crc = [e for e in p.ev[:upto] if e[0] == 'crc']
    if not al:
        return None, "no buffer allocation was recognised"
    buf = None
    for e in inf:
        if e[2][2] in [a[1] for a in al]:
            buf = e[2][2]
    if not inf:
        return None, "no decompression was recognised"
    if buf is None:
        return False, "the tables are not decompressed into the newly allocated buffer"
    if p.facts.get(('cmp', 'eq', buf, ('k', 0))) is not False:
        return False, "the allocation may have failed on this path"
    e = [x for x in inf if x[2][2] == buf][-1]
    size = P.T.const["uncompressed_size"]
    okn = p.facts.get(('cmp', 'eq', e[1], ('k', size))) is True
    if not okn:
        return False, "the number of decompressed bytes was not verified to be the full size"
    if e[2][3] != ('k', size):
        return False, "the decompression is given a wrong output capacity"
    a = [x for x in al if x[1] == buf][0]
    if a[2][0][0] == 'k' and a[2][0][1] < size:
        return False, "the buffer is smaller than the tables"
    good = [c for c in crc if c[2][0] == buf and c[2][1] in (e[1], ('k', size)) and p.facts.get(('cmp', 'eq', c[1], ('k', P.T.const["uncompressed_crc32"]))) is True]
    if not good:
        return False, "the checksum of the decompressed tables was not verified"
    for x in p.ev[:upto]:
        if x[0] == 'free' and (x[1] == buf or (x[1] and x[1][0] == 'ptr' and x[1][1] == buf)):
            return False, "the buffer was released"
    have = {}
    for n, x in enumerate(p.ev[:upto]):
        if x[0] == 'gstore':
            have[x[1]] = x
    for g in need:
        if g not in have:
            return False, "the table pointer %s is not set" % P.mod.globals[g]["short"]
        v = have[g][2]
        if not (v == buf or v[0] == 'ptr' and v[1] == buf and v[2] is not None):
            return False, "the table pointer %s does not point into the verified buffer" % P.mod.globals[g]["short"]
    return True, ""


def protocol(R, mod, part):
    """part: 'publish' (C09) or 'failure' (C10)"""
    fn = mod.fn("idna::ensure_tables(")
    R.functions.add(fn.short + " [" + mod.config + "]")
    P = Protocol(mod, fn)
    R.states += len(P.done)
    for w, m in P.undec:
        R.unsure(w, m)
    if P.state is None:
        other = [i for i in fn.calls(lambda n: any(s in n for s in ('call_once', 'mutex', '__cxa_guard', 'pthread')))]
        if other:
            R.unsure(fn.short, "initialisation is not synchronised with an atomic state")
        else:
            R.bad("%s:%s (ensure_tables)" % (fn.file, fn.line), "the initialisation state is not accessed with atomic operations")
        return
    ptrs = pointer_globals(mod)
    need = sorted(ptrs)
    R.count('table pointers', len(need))
    st = mod.globals[P.state]["short"]
    # 1. classify the state stores
    good, bad = {}, {}
    for ret, p, i in P.done:
        for n, e in enumerate(p.ev):
            if e[0] == 'store':
                v = e[1]
                if v[0] != 'k':
                    R.unsure(e[3].where(), "the state is set to a value the analysis does not know")
                    continue
                c, why = complete(P, p, n, need)
                late = [x for x in p.ev[n + 1:] if x[0] in ('gstore', 'write', 'free')]
                if c and late and late[0][0] in ('gstore', 'write', 'free'):
                    c, why = False, "the tables are still being written or released afterwards (%s)" % late[0][-1].where()
                (good if c else bad).setdefault(v[1], []).append((e, p, c, why))
    seen_true = set()
    for ret, p, i in P.done:
        lds = [e for e in p.ev if e[0] == 'load']
        if ret and ret[0] == 'k' and ret[1] == 1 and lds and not any(e[0] == 'store' for e in p.ev):
            s = p.sets[lds[-1][1]]
            if len(s) == 1:
                seen_true |= s
    publish = part == 'publish'
    if publish:
        for c in seen_true | set(good):
            for e, p, ok, why in bad.get(c, []):
                if ok is None:
                    R.unsure(e[3].where(), why)
                else:
                    R.bad(e[3].where(), "the state that tells other threads 'tables are ready' is set although %s" % why)
        for c in good:
            for e, p, ok, why in good[c]:
                R.count('publications of complete, verified tables')
                n = p.ev.index(e)
                fenced = any(x[0] == 'fence' and x[1] in REL for x in p.ev[:n])
                R.ob(True if e[2] in REL or fenced else False, e[3].where(),
                     "the ready state is stored with %s ordering: other threads may see it before the tables" % (e[2] or 'no atomic'))
        if not good and not any(x[2] is None for v in bad.values() for x in v):
            R.bad("%s:%s (ensure_tables)" % (fn.file, fn.line), "no path publishes complete, verified tables")
    win = lambda p: [e for e in p.ev if e[0] == 'cas' and e[1]]
    for ret, p, i in P.done:
        line = i.where()
        truth = None
        if ret and ret[0] == 'k':
            truth = bool(ret[1])
        elif ret:
            a, b = P.assume(p.fork(), ret, True), P.assume(p.fork(), ret, False)
            if a and not b:
                truth, p = True, a[0]
            elif b and not a:
                truth, p = False, b[0]
            else:
                for t, q in [(True, x) for x in a] + [(False, x) for x in b]:
                    one(R, P, mod, fn, q, t, line, good, publish, win)
                continue
        one(R, P, mod, fn, p, truth, line, good, publish, win)
    if publish:
        # nobody else touches the state or the table pointers
        for f in mod.fns.values():
            if f is fn:
                continue
            for i in f.instrs():
                g = gname(i.o[1]) if i.op == 'store' else gname(i.o[0]) if i.op in ('cmpxchg', 'atomicrmw') else None
                if g == P.state:
                    R.bad(i.where(), "the initialisation state is changed outside the initialisation")
                elif g in ptrs and i.op == 'store':
                    R.bad(i.where(), "a table pointer is changed outside the initialisation")
        f = mod.fn("idna::tables_are_ready(", False)
        if f:
            ready(R, P, f, set(good))
    else:
        for lp in P.loops.values():
            if lp.header in P.plain:
                continue
            c = P.counter(lp)
            poll = any(i.op == 'load' and gname(i.o[0]) == P.state for b in lp.body for i in fn.blocks[b].ins)
            if poll:
                w = fn.blocks[lp.header].term.where()
                R.count('polling loops')
                if c is None:
                    R.bad(w, "a thread that waits for the initialisation may wait forever")
                elif c[1] < 10 ** 7:
                    R.bad(w, "a thread that waits for the initialisation gives up after only %d polls, while it may still be in progress" % c[1])
                else:
                    R.obligations += 1
                    R.discharged += 1


def one(R, P, mod, fn, p, truth, line, good, publish, win):
    evs = p.ev
    w = win(p)
    work = [n for n, e in enumerate(evs) if e[0] in ('alloc', 'inflate', 'gstore', 'free') or e[0] == 'write' and e[1][0] == 'alloc' or e[0] == 'store']
    if publish:
        R.count('paths')
        # exclusive ownership
        if work:
            cas = [n for n, e in enumerate(evs) if e[0] == 'cas' and e[1]]
            if not cas or cas[0] > work[0]:
                if any(e[0] == 'rmw' for e in evs):
                    R.unsure(line, "ownership is taken by an operation the analysis does not model")
                else:
                    R.bad(evs[work[0]][-1].where(), "initialisation work is done without having won the race for it")
            else:
                e, d = w[0][2][0], w[0][2][1]
                if e is None or d is None:
                    R.unsure(line, "the exchanged state values are not constants")
                elif e == d:
                    R.bad(w[0][2][5].where(), "winning the race does not change the state: several threads can win it")
                else:
                    R.count('exclusive initialisations')
                    for x in evs:
                        if x[0] == 'store' and x[1] == ('k', e):
                            R.bad(x[3].where(), "the state is set back so that the initialisation can run again, possibly in parallel with users")
        if truth is None:
            R.unsure(line, "the result of the initialisation is not known on a path")
        elif truth:
            mine = [e for e in evs if e[0] == 'store']
            if mine:
                if not (mine[-1][1][0] == 'k' and mine[-1][1][1] in good):
                    R.bad(line, "success is reported although the tables were not published")
                else:
                    R.count('successful returns of the initialising thread')
            else:
                lds = [(n, e) for n, e in enumerate(evs) if e[0] == 'load']
                obs = [(n, e) for n, e in lds if p.sets[e[1]] <= set(good)]
                if not obs:
                    rd = [e for e in evs if e[0] == 'ready?']
                    if rd:
                        R.unsure(line, "readiness is taken from another function")
                    else:
                        R.bad(line, "success is reported without having seen the ready state%s" % (
                            "" if not lds else " (state may be %s)" % ", ".join(map(str, sorted(p.sets[lds[-1][1][1]])[:4]))))
                else:
                    sync = [e for n, e in obs if e[2] in ACQ or any(x[0] == 'fence' and x[1] in ACQ for x in evs[n:])]
                    cs = [e for e in evs if e[0] == 'cas' and not e[1]]
                    R.ob(True if sync else False, obs[-1][1][3].where(),
                         "the ready state is read with %s ordering: the tables may not be visible yet" % (obs[-1][1][2] or 'no atomic'))
                    R.count('successful returns of other threads')
    else:
        if truth is None:
            return
        stores = [e for e in evs if e[0] == 'store']
        if w:
            R.count('winner paths')
            fin = stores[-1][1] if stores else None
            if fin is None or fin[0] == 'k' and fin[1] in (w[0][2][1],):
                R.bad(line, "the initialising thread leaves the state 'in progress': all later callers wait in vain")
            elif fin[0] == 'k' and fin[1] == w[0][2][0]:
                R.bad(line, "after a failure the state is set back to 'not started'")
            elif fin[0] == 'k' and fin[1] not in good:
                R.count('failures recorded')
                n = evs.index(stores[-1])
                for e in evs:
                    if e[0] == 'alloc' and p.facts.get(('cmp', 'eq', e[1], ('k', 0))) is not True and not any(x[0] == 'free' and x[1] == e[1] for x in evs):
                        R.bad(line, "the buffer is leaked when the initialisation fails")
                fr = [x for x in evs if x[0] == 'free']
                for x in fr:
                    if sum(1 for y in fr if y[1] == x[1]) > 1:
                        R.bad(x[2].where(), "the buffer is released twice")
                if truth:
                    R.bad(line, "success is reported although the initialisation failed")
                for e in evs:
                    if e[0] == 'gstore' and any(x[0] == 'free' and x[1] in (e[2], e[2][1] if e[2][0] == 'ptr' else None) for x in evs):
                        R.bad(e[3].where(), "a table pointer is left pointing to the released buffer")
            elif not truth:
                R.bad(line, "failure is reported although the tables were published")
        elif not truth:
            lds = [e for e in evs if e[0] == 'load']
            s = p.sets[lds[-1][1]] if lds else None
            back = {e[1][1] for q in P.done for e in q[1].ev if e[0] == 'store' and e[1][0] == 'k'}
            lost = {e[2][0] for e in evs if e[0] == 'cas' and not e[1]} - back
            if s is not None and len(lds) > 1:
                s = s - lost            # nobody sets it back to what it no longer was
            fails = {e[1][1] for q in P.done for e in q[1].ev if e[0] == 'store' and e[1][0] == 'k'} - set(good)
            if p.counter_exit is not None:
                R.count('waiters that gave up')
                if lds and lds[-1][3].blk.id in p.counter_exit[0].body:
                    R.ob(not s & set(good), lds[-1][3].where(),
                         "a waiting thread that sees the ready state does not return, but waits on and reports failure")
            elif s is not None and s <= fails:
                R.count('waiters that saw the failure')
            elif s is None:
                R.bad(line, "failure is reported without looking at the state")
            else:
                R.bad(line, "failure is reported although the initialisation may have succeeded or still be in progress (state %s)" % ", ".join(map(str, sorted(s)[:4])))


def ready(R, P, f, good):
    """tables_are_ready() is: acquire load == ready"""
    Q = Protocol(P.mod, f)
    R.functions.add(f.short + " [" + P.mod.config + "]")
    for ret, p, i in Q.done:
        for t, q in [(True, x) for x in Q.assume(p.fork(), ret, True)] if ret else []:
            lds = [e for e in q.ev if e[0] == 'load']
            if not lds:
                R.unsure(i.where(), "readiness is not read from the state")
                continue
            if not q.sets[lds[-1][1]] <= good:
                R.bad(i.where(), "tables_are_ready is true for a state other than ready")
            elif lds[-1][2] not in ACQ:
                R.bad(lds[-1][3].where(), "the ready state is read with %s ordering: the tables may not be visible yet" % (lds[-1][2] or 'no atomic'))
            else:
                R.count('successful returns of other threads')


# ------------------------------------------------------------------ guarded use
class Guard:
    """forward dataflow: on which paths has ensure_tables()/tables_are_ready() answered true (or ensure_tables false)"""

    def __init__(self, fn, roots):
        self.fn, self.roots = fn, roots      # roots: predicate on callee names -> 'E' (ensure) or 'Q' (query)
        self.bools = self.slice()

    def slice(self):
        """i1/i8 values that may carry the answer"""
        s = {i.id for i in self.fn.calls(lambda n: self.roots(n))}
        ch = True
        while ch:
            ch = False
            for i in self.fn.instrs():
                if i.id in s or i.ty not in ('i1', 'i8', 'i32'):
                    continue
                ops = [v for v, _ in i.x["in"]] if i.op == 'phi' else i.o
                if i.op in ('phi', 'zext', 'trunc', 'xor', 'and', 'or', 'icmp', 'freeze', 'select', 'sext') and any(o in s for o in ops):
                    s.add(i.id)
                    ch = True
        todo = [i.o[0] for i in self.fn.instrs() if i.op in ('ret', 'br') and i.o]
        while todo:
            i = self.fn.defs.get(todo.pop())
            if i is not None and i.id not in s and i.op in ('phi', 'zext', 'trunc', 'freeze', 'xor', 'and', 'or') and i.ty in ('i1', 'i8'):
                s.add(i.id)
                todo += [v for v, _ in i.x["in"]] if i.op == 'phi' else i.o
        return s

    def liveness(self):
        fn, use, df = self.fn, {}, {}
        out = {b: set() for b in fn.blocks}
        inn = {b: set() for b in fn.blocks}
        for b in fn.blocks.values():
            d, u = set(), set()
            for i in b.ins:
                if i.op != 'phi':
                    u |= {o for o in i.o if o in self.bools and o not in d}
                d.add(i.id)
            use[b.id], df[b.id] = u, d
        ch = True
        while ch:
            ch = False
            for b in fn.blocks.values():
                o = set()
                for s in b.succ:
                    o |= inn[s] - {i.id for i in fn.blocks[s].phis()}
                    for i in fn.blocks[s].phis():
                        o |= {v for v, f in i.x["in"] if f == b.id and v in self.bools}
                n = use[b.id] | (o - df[b.id])
                # phis are defined at the block's start
                n |= {x for x in use[b.id]}
                if o != out[b.id] or n != inn[b.id]:
                    out[b.id], inn[b.id] = o, n
                    ch = True
        return out

    def run(self, entry_ready=False):
        """block -> set of (ready, failed, valuation)"""
        fn = self.fn
        self.at = {}
        out = self.liveness()
        todo = [(fn.entry, None, (entry_ready, False, ()))]
        self.hit = {}
        self.rets = []
        n = 0
        while todo:
            n += 1
            if n > 60000:
                raise ir.AnalysisError("guard analysis does not terminate in %s" % fn.short)
            b, frm, st = todo.pop()
            r, f, val = st
            val = dict(val)
            blk = fn.blocks[b]
            new = {}
            for i in blk.phis():
                for v, x in i.x["in"]:
                    if x == frm:
                        t = self.term(val, v)
                        if i.id in self.bools:
                            new[i.id] = t
            for x, t in new.items():
                if t is None:
                    val.pop(x, None)
                else:
                    val[x] = t
            key = (b, r, f, tuple(sorted(val.items())))
            if key in self.at:
                continue
            self.at[key] = True
            for i in blk.ins:
                if i.op == 'phi':
                    continue
                if i.op in ('call', 'invoke') and self.roots(i.callee):
                    val[i.id] = (self.roots(i.callee), i.id)
                elif i.op in ('load', 'call', 'store'):
                    self.hit.setdefault(i.id, set()).add((r, f))
                elif i.id in self.bools:
                    t = self.expr(val, i)
                    if t is not None:
                        val[i.id] = t
                    else:
                        val.pop(i.id, None)
                elif i.op == 'ret':
                    self.rets.append((i, self.term(val, i.o[0]) if i.o else None, r, f))
                elif i.op == 'br':
                    if len(i.x["succ"]) == 1:
                        todo.append((i.x["succ"][0], b, (r, f, tuple(sorted((x, y) for x, y in val.items() if x in out[b])))))
                    else:
                        t = self.term(val, i.o[0])
                        for s, w in zip(i.x["succ"], (True, False)):
                            x = self.assume(t, w, r, f, val)
                            if x is not None:
                                todo.append((s, b, (x[0], x[1], tuple(sorted((c, y) for c, y in x[2].items() if c in out[b])))))
                elif i.op == 'switch':
                    for s in blk.succ:
                        todo.append((s, b, (r, f, tuple(sorted((x, y) for x, y in val.items() if x in out[b])))))
        return self

    def term(self, val, o):
        c = k(o)
        if c is not None:
            return ('k', c)
        return val.get(o)

    def expr(self, val, i):
        t = lambda n: self.term(val, i.o[n])
        if i.op in ('zext', 'trunc', 'freeze', 'sext'):
            return t(0)
        if i.op == 'xor' and i.ty == 'i1' or i.op == 'xor' and k(i.o[1]) == 1:
            a = t(0)
            return ('not', a) if a else None
        if i.op == 'icmp' and k(i.o[1]) == 0 and t(0):
            return ('not', t(0)) if i.x["p"] == 'eq' else t(0) if i.x["p"] == 'ne' else None
        if i.op == 'and':
            a, b = t(0), t(1)
            if i.ty != 'i1' and k(i.o[1]) in (1, 255):
                return a
            return ('both', a, b) if a or b else None
        if i.op == 'or':
            a, b = t(0), t(1)
            return ('either', a, b) if a or b else None
        return None

    def assume(self, t, w, r, f, val):
        if t is None:
            return r, f, val
        if t[0] == 'k':
            return (r, f, val) if bool(t[1]) == w else None
        if t[0] == 'not':
            return self.assume(t[1], not w, r, f, val)
        if t[0] == 'both':
            if w:
                x = self.assume(t[1], True, r, f, val)
                return x and self.assume(t[2], True, *x)
            return r, f, val
        if t[0] == 'either':
            if not w:
                x = self.assume(t[1], False, r, f, val)
                return x and self.assume(t[2], False, *x)
            return r, f, val
        v = {a: (b if b != t else ('k', int(w))) for a, b in val.items()}
        if w:
            return True, f, v
        return r, (True if t[0] == 'E' else f), v


def roots(n):
    return 'E' if n.startswith('idna::ensure_tables(') else 'Q' if n.startswith('idna::tables_are_ready(') else None


def api(mod):
    import re, os
    pats = [re.compile(l.strip()) for l in open(os.path.join(ir.VERIF, "tools/irx/keep.txt")).read().splitlines()[:3] if l.strip() and l[0] != '#']
    return [f for f in mod.fns.values() if any(p.search(f.dem) for p in pats)]


def callers(mod):
    out = {}
    for f in mod.fns.values():
        for i in f.calls():
            n = i.x.get("f")
            if n in mod.fns:
                out.setdefault(n, []).append((f, i))
    return out


def guarded(R, mod):
    """every read of a table pointer happens where initialisation is known to have succeeded"""
    ptrs = pointer_globals(mod)
    public = {f.name for f in api(mod)}
    calls = callers(mod)
    need = {}
    for g, uses in ptrs.items():
        for f, i in uses:
            need.setdefault(f.name, []).append((g, i))
    done = {}
    work = list(need)
    asked = set()
    while work:
        n = work.pop()
        if n in asked:
            continue
        asked.add(n)
        f = mod.fns[n]
        if n not in public and n not in calls:
            continue        # never called: its body was inlined into the callers
        R.functions.add(f.short + " [" + mod.config + "]")
        G = Guard(f, roots).run(False)
        missing = False
        sites = [(i, "the table pointer %s is read" % mod.globals[g]["short"]) for g, i in need.get(n, [])]
        sites += [(i, "%s, which reads the tables, is called" % c) for i, c in done.get(n, [])]
        for i, what in sites:
            st = G.hit.get(i.id)
            if st is None:
                continue
            if all(r for r, _ in st):
                R.count('guarded table accesses')
            elif n in public:
                bad = any(not r for r, _ in st)
                R.bad(i.where(), "%s on a path on which initialisation is not known to have succeeded" % what)
            else:
                missing = True
        if missing:
            for c, i in calls.get(n, []):
                done.setdefault(c.name, []).append((i, f.short))
                asked.discard(c.name)
                work.append(c.name)


def failing(R, mod):
    """after ensure_tables() answered false a function that returns bool returns false"""
    for f in api(mod):
        if f.short.startswith(('idna::ensure_tables', 'idna::tables_are_ready')) or f.rty != 'i1':
            continue
        if not any(True for _ in f.calls(lambda n: roots(n) == 'E')):
            continue
        R.functions.add(f.short + " [" + mod.config + "]")
        G = Guard(f, roots).run(False)
        for i, t, r, fl in G.rets:
            if not fl:
                continue
            if t is None:
                R.unsure(i.where(), "the result after a failed initialisation is not known")
            elif t[0] == 'k' and t[1] == 0:
                R.count('failures reported to the caller')
            else:
                R.bad(where_ret(f, i), "the function answers true although the tables could not be initialised")


def where_ret(f, i):
    return i.where()


# ------------------------------------------------------------------ big-endian conversion
def conversions(mod, fn, buf):
    """list of (offset, count, width, kind, instr) of in-place loops over the buffer; kind 'swap' or 'other'"""
    out, odd = [], []

    def lin(o, ph):
        """o as buf + c + s*ph: (c, s)"""
        i = fn.defs.get(o)
        if o == buf:
            return 0, 0
        if o == ph:
            return None
        if i is not None and i.op == 'getelementptr':
            b = lin(i.o[0], ph)
            if b is None:
                return None
            c, s = b[0] + i.x.get("coff", 0), b[1]
            for v, m in i.x.get("vars") or []:
                if v == ph:
                    s += m
                else:
                    return None
            return c, s
        return None
    for lp in fn.loops().values():
        stores = [i for b in lp.body for i in fn.blocks[b].ins if i.op == 'store' and not gname(i.o[1])]
        if not stores or len(stores) != 1:
            odd += stores
            continue
        s = stores[0]
        got = None
        for ph in fn.blocks[lp.header].phis():
            back = [v for v, f in ph.x["in"] if f in lp.body]
            start = [v for v, f in ph.x["in"] if f not in lp.body]
            if len(back) != 1 or len(start) != 1:
                continue
            # index form
            st = fn.defs.get(back[0])
            if st is None:
                continue
            if ph.ty != 'ptr' and st.op in ('add', 'sub') and st.o[0] == ph.id and k(st.o[1]) is not None:
                step = k(st.o[1]) if st.op == 'add' else -k(st.o[1])
                w = int(ph.ty[1:])
                if step >= 1 << (w - 1):
                    step -= 1 << w
                a = lin(s.o[1], ph.id)
                post = False
                if a is None:
                    a = lin2(fn, s.o[1], ph.id, st.id, step, buf)
                c = bound(fn, lp, ph.id, st.id, k(start[0]), step)
                if a is not None and c is not None and a[1]:
                    first, cnt = c
                    got = (a[0] + a[1] * first, cnt, a[1] * step, s)
            elif ph.ty == 'ptr' and st.op == 'getelementptr' and st.o[0] == ph.id and not st.x.get("vars"):
                b0 = lin(start[0], None)
                step = st.x.get("coff", 0)
                cnt = None
                for x, e in lp.exits:
                    t = fn.blocks[x].term
                    ci = fn.defs.get(t.o[0]) if t.o else None
                    if ci is not None and ci.op == 'icmp':
                        for p_, q_ in ((0, 1), (1, 0)):
                            if ci.o[p_] in (ph.id, st.id):
                                e0 = lin(ci.o[q_], None)
                                if e0 is not None and b0 is not None and step:
                                    cnt = (e0[0] - b0[0]) // step
                if b0 is not None and cnt is not None and s.o[1] == ph.id:
                    got = (b0[0], cnt, step, s)
        if got is None:
            odd.append(s)
            continue
        off, cnt, stride, s = got
        w = int(s.x.get("sty", "i8")[1:]) // 8
        if stride < 0:
            off, stride = off + stride * (cnt - 1), -stride
        out.append((off, cnt, w, stride, 'swap' if swapped(fn, s, w) else 'other', s))
    return out, odd


def lin2(fn, o, ph, nxt, step, buf):
    i = fn.defs.get(o)
    if i is None or i.op != 'getelementptr':
        return None
    c, s = i.x.get("coff", 0), 0
    if i.o[0] != buf:
        b = lin2(fn, i.o[0], ph, nxt, step, buf)
        if b is None:
            return None
        c, s = c + b[0], b[1]
    for v, m in i.x.get("vars") or []:
        if v == ph:
            s += m
        elif v == nxt:
            s += m
            c += m * step
        else:
            return None
    return c, s


def bound(fn, lp, ph, nxt, start, step):
    """(first index, number of rounds) of a counting loop with constant bounds"""
    if start is None:
        return None
    for x, e in lp.exits:
        t = fn.blocks[x].term
        ci = fn.defs.get(t.o[0]) if t.op == 'br' and t.o else None
        if ci is None or ci.op != 'icmp':
            continue
        for a, b, flip in ((0, 1, False), (1, 0, True)):
            kb = k(ci.o[b])
            if ci.o[a] not in (ph, nxt) or kb is None:
                continue
            stay = t.x["succ"][0] in lp.body
            pred = ci.x["p"]
            if flip:
                pred = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
            f = {'ult': lambda v: v < kb, 'slt': lambda v: v < kb, 'ne': lambda v: v != kb, 'ugt': lambda v: v > kb, 'sgt': lambda v: v > kb,
                 'ule': lambda v: v <= kb, 'uge': lambda v: v >= kb, 'eq': lambda v: v == kb, 'sle': lambda v: v <= kb, 'sge': lambda v: v >= kb}.get(pred)
            if f is None:
                continue
            top = x == lp.header and ci.o[a] == ph
            v, n = start, 0
            lim = 1 << 21
            while n < lim:
                cur = v if ci.o[a] == ph else v + step
                if top:
                    if f(cur) != stay:
                        return start, n
                    n += 1
                else:
                    n += 1
                    if f(cur) != stay:
                        return start, n
                v += step
    return None


def swapped(fn, s, w):
    """is the stored value the byte-reversed value loaded from the same address?"""
    if w == 1:
        return True

    def by(o, n=0):
        """list of byte sources, least significant first"""
        if n > 60:
            return None
        c = k(o)
        if c is not None:
            ww = int(o.split(':')[1])
            return [('k', (c >> (8 * j)) & 255) for j in range(max(ww // 8, 1))]
        i = fn.defs.get(o)
        if i is None:
            return None
        if i.op == 'load':
            ww = int(i.ty[1:]) // 8
            return [('m', i.o[0], ww, j) for j in range(ww)]
        if i.op == 'call' and 'bswap' in i.callee:
            a = by(i.o[0], n + 1)
            return a and a[::-1]
        if i.op in ('zext', 'trunc', 'sext'):
            a = by(i.o[0], n + 1)
            ww = int(i.ty[1:]) // 8
            return a and (a + [('k', 0)] * ww)[:ww]
        if i.op in ('shl', 'lshr', 'ashr') and k(i.o[1]) is not None and k(i.o[1]) % 8 == 0:
            a = by(i.o[0], n + 1)
            m = k(i.o[1]) // 8
            if a is None:
                return None
            return ([('k', 0)] * m + a)[:len(a)] if i.op == 'shl' else a[m:] + [('k', 0)] * m
        if i.op in ('and', 'or', 'xor', 'add'):
            a, b = by(i.o[0], n + 1), by(i.o[1], n + 1)
            if a is None or b is None:
                return None
            r = []
            for x, y in zip(a, b):
                if i.op == 'and':
                    r.append(('k', 0) if ('k', 0) in (x, y) else x if y == ('k', 255) else y if x == ('k', 255) else None)
                else:
                    r.append(x if y == ('k', 0) else y if x == ('k', 0) else None)
            return None if None in r else r
        return None
    b = by(s.o[0])
    return b == [('m', s.o[1], w, w - 1 - j) for j in range(w)]


def endian(R, mod):
    fn = mod.fn("idna::ensure_tables(")
    T = tables.load(mod)
    R.functions.add(fn.short + " [" + mod.config + "]")
    allocs = [i for i in fn.calls(lambda n: 'operator new' in n)]
    infl = [i for i in fn.calls(lambda n: n.startswith('idna::deflate::inflate_raw'))]
    if not infl:
        R.unsure(fn.short, "no decompression was recognised")
        return
    buf = infl[0].o[2]
    conv, odd = conversions(mod, fn, buf)
    P = Protocol(mod, fn)
    w0 = "%s:%s (ensure_tables)" % (fn.file, fn.line)
    used = set()
    # how the code reads each section
    reads = {}
    for g, uses in pointer_globals(mod).items():
        off = T.ptr.get(g)
        ext = T.extent(off) if off is not None else None
        if ext is None:
            R.bad(w0, "the table pointer %s does not point at the start of a table" % mod.globals[g]["short"])
            continue
        reads[off] = (g, ext)
    for name, (off, cnt, w) in sorted(T.sections.items()):
        c = [x for x in conv if off <= x[0] < off + cnt * w]
        if not mod.big or w == 1:
            for x in c:
                used.add(x[5].id)
                R.bad(x[5].where(), "the %s table is rewritten although it needs no conversion" % name)
            if not c:
                R.count('tables used as they are')
            continue
        if not c:
            if odd:
                R.unsure(odd[0].where(), "the conversion of the %s table was not recognised" % name)
            else:
                R.bad(w0, "the %s table is not converted to the byte order of a big-endian host" % name)
            continue
        if len(c) > 1:
            R.bad(c[1][5].where(), "the %s table is converted twice" % name)
            continue
        o, n, ww, stride, kind, s = c[0]
        if kind != 'swap':
            R.unsure(s.where(), "the %s table is rewritten in a way that was not recognised" % name)
        elif (o, n, ww, stride) != (off, cnt, w, w):
            R.bad(s.where(), "the %s table is at offset %d with %d entries of %d bytes, but the conversion covers offset %d, %d entries of %d bytes" % (name, off, cnt, w, o, n, ww))
        elif any(e[0] == 'write' and e[2] is s and any(x[0] == 'crc' for x in p.ev[n:]) for _, p, _ in P.done for n, e in enumerate(p.ev)):
            R.bad(s.where(), "the %s table is converted before its checksum is verified" % name)
        elif any(x[0] == 'gstore' and not any(e[0] == 'write' and e[2] is s for e in p.ev[:n]) for _, p, _ in P.done for n, x in enumerate(p.ev)):
            R.bad(s.where(), "the %s table is not converted on every path that publishes it" % name)
        else:
            R.count('tables converted')
    for x in conv:
        o = x[0]
        if not any(off <= o < off + c * w for off, c, w in T.sections.values()):
            R.bad(x[5].where(), "bytes outside the tables are rewritten (offset %d)" % o)
    for s in odd:
        R.unsure(s.where(), "a write to the tables was not recognised")
    # loads use the width the table was packed with
    for off, (g, ext) in sorted(reads.items()):
        for f, i in pointer_globals(mod)[g]:
            for l in uses_of(f, i.id):
                R.count('table loads')
                ww = int(l.ty[1:]) // 8 if l.ty.startswith('i') else 0
                if ww != ext[2]:
                    R.bad(l.where(), "the table %s has entries of %d bytes but is read %d bytes at a time" % (mod.globals[g]["short"], ext[2], ww))


def uses_of(f, v):
    """loads whose address is computed from v"""
    out, seen, todo = [], set(), [v]
    idx = getattr(f, '_users', None)
    if idx is None:
        idx = {}
        for i in f.instrs():
            ops = [x for x, _ in i.x["in"]] if i.op == 'phi' else i.o
            for o in ops:
                idx.setdefault(o, []).append(i)
        f._users = idx
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for i in idx.get(x, []):
            if i.op == 'load' and i.o[0] == x:
                out.append(i)
            elif i.op in ('getelementptr', 'phi', 'select') and i.ty == 'ptr':
                todo.append(i.id)
    return out


def blob(R, mod):
    """the shipped data is what the sources say it is (checked with an independent decoder)"""
    T = tables.load(mod)
    w = "src/table_blob.inc:1 (table_blob)"
    R.ob(T.error is None and T.eof and T.left == 0, w, "the compressed tables are not one complete DEFLATE stream")
    R.ob(len(T.raw) == T.const["uncompressed_size"], w, "the tables decompress to %d bytes, not %d" % (len(T.raw), T.const["uncompressed_size"]))
    R.ob(T.crc == T.const["uncompressed_crc32"], w, "the checksum of the tables is %08X, not %08X" % (T.crc, T.const["uncompressed_crc32"]))
    R.ob(T.const.get("compressed_size") == len(T.blob), w, "the declared compressed size is wrong")
    for n, (off, c, ww) in sorted(T.sections.items()):
        R.ob(off + c * ww <= T.const["uncompressed_size"] and off % ww == 0, w, "the %s table is misplaced" % n)


# ------------------------------------------------------------------ no other state
PURE = ('llvm.', 'memcpy', 'memmove', 'memset', 'memcmp', 'memchr', 'strlen', 'operator new', 'operator delete', 'std::', 'string::', 'u32string::',
        'view::', 'u32view::', '__cxa_', '__gxx', 'bool std::', 'simdutf::', '_ZN', '__clang_call_terminate', 'abort')
AMBIENT = ('rand', 'srand', 'random', 'time', 'clock', 'gettimeofday', 'getenv', 'setlocale', 'localeconv', 'tolower', 'toupper', 'isalpha', 'isalnum', 'isdigit',
           'isspace', 'isupper', 'islower', 'iswalpha', 'towlower', 'towupper', 'isprint', 'ispunct', 'iscntrl', 'isxdigit', 'strtok', 'pthread_self', 'getpid',
           'std::chrono::', 'std::locale', 'std::this_thread', '__errno_location', 'std::random_device', 'mbrtowc', 'mbstowcs', 'wcsrtombs', 'std::rand', 'rand_r', 'drand48')


def no_state(R, mod):
    import re
    init = re.compile(r"_GLOBAL__sub_I|__cxx_global_var_init")
    ptrs = pointer_globals(mod)
    st = None
    for f in mod.fns.values():
        for i in f.instrs():
            if i.op == 'cmpxchg' and gname(i.o[0]):
                st = gname(i.o[0])
    T = tables.load(mod)
    allowed = set(T.ptr) | ({st} if st else set()) | set(ptrs)
    written = {}
    for g in mod.globals.values():
        if g["tls"] and not g["decl"]:
            R.bad("%s:%s" % (rel(g), g.get("line", "?")), "thread-local variable %s keeps state between calls" % g["short"])
    for f in mod.fns.values():
        start = bool(init.search(f.name) or init.search(f.dem))
        ens = f.short.startswith('idna::ensure_tables(')
        R.functions.add(f.short + " [" + mod.config + "]") if f.short.startswith('idna::') else None
        for i in f.instrs():
            gs = []
            if i.op == 'store':
                gs = roots_of(f, i.o[1])
            elif i.op in ('cmpxchg', 'atomicrmw'):
                gs = roots_of(f, i.o[0])
            elif i.op in ('call', 'invoke'):
                n = i.callee
                if n.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                    gs = roots_of(f, i.o[0])
                elif n in AMBIENT or n.startswith(tuple(a for a in AMBIENT if a.startswith('std::'))) or n.split('(')[0] in AMBIENT:
                    R.bad(i.where(), "the result may depend on ambient state: %s is called" % n)
                elif n.startswith('__cxa_guard_acquire') and not start:
                    R.bad(i.where(), "a function-local static is initialised here: state kept between calls")
                elif n.startswith('idna::') or i.x.get("f") in mod.fns:
                    pass
                elif not n.startswith(PURE) and not re.match(r"^(\S+ )?std::", n):
                    R.unsure(i.where(), "call of %s, whose effects are not known" % n)
                else:
                    R.count('calls of state-free functions')
            for g in gs:
                kind, nm = g
                if kind == 'g':
                    gi = mod.globals.get(nm)
                    sh = gi["short"] if gi else nm
                    if start:
                        R.count('writes by start-up code')
                        continue
                    if ens and (nm == st or nm in allowed or nm in T.ptr):
                        R.count('writes by the table initialisation')
                        continue
                    R.bad(i.where(), "the variable %s is written: calls are not independent of each other" % sh)
                elif kind == 'tab':
                    R.bad(i.where(), "the shared tables are written (through %s)" % mod.globals[nm]["short"])
                else:
                    R.count('writes to arguments, results and locals')
            if i.op == 'load':
                for kind, nm in roots_of(f, i.o[0]):
                    if kind == 'g' and nm in mod.globals:
                        gi = mod.globals[nm]
                        if gi["const"] or nm in allowed or start:
                            continue
                        written.setdefault(nm, []).append((f, i))
    # mutable variables that are read: fine when only start-up code writes them and they are const objects of the library
    R.count('variables initialised at start-up and only read', len(written))


def rel(g):
    import os
    p = g.get("file") or "?"
    return os.path.relpath(p, ir.REPO) if p.startswith(ir.REPO) else p


def roots_of(f, o, seen=None):
    """what a pointer points into: ('g', global), ('tab', table pointer global), ('o', other)"""
    seen = set() if seen is None else seen
    if o in seen:
        return set()
    seen.add(o)
    g = gname(o)
    if g:
        return {('g', g)}
    i = f.defs.get(o)
    if i is None:
        return {('o', o)}
    if i.op in ('getelementptr', 'bitcast', 'freeze', 'addrspacecast'):
        return roots_of(f, i.o[0], seen)
    if i.op == 'phi':
        r = set()
        for v, _ in i.x["in"]:
            r |= roots_of(f, v, seen)
        return r
    if i.op == 'select':
        return roots_of(f, i.o[1], seen) | roots_of(f, i.o[2], seen)
    if i.op == 'load':
        g = gname(i.o[0])
        if g and g in f.mod.globals and f.mod.globals[g]["ty"] == 'ptr' and not f.mod.globals[g]["const"]:
            return {('tab', g)}
    return {('o', o)}
