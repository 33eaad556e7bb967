"""Freshness of pointers into buffers.

Every pointer value carries where it may point: into an object (a local, an argument, a heap block) or into the character
buffer of a string object, the latter with a flag that says whether an operation that can replace, shrink or free that
buffer happened after the pointer was obtained.  A forward data-flow over the SSA form (locals that stay in memory are
tracked cell by cell); a dereference, a copy or a call argument whose pointer may be outdated is an outdated access."""
import re
import ir

KEEPS = re.compile(r"^u?(32)?string::(data|c_str|begin|end|cbegin|cend|rbegin|rend|operator\[\]|at|front|back|size|length|empty|capacity|max_size|"
                   r"find\w*|rfind|compare|starts_with|ends_with|contains|substr|copy|get_allocator|operator \w+)\(.*")
POINTER = re.compile(r"^u?(32)?string::(data|c_str|begin|end|cbegin|cend|operator\[\]|at|front|back|operator \w+)\(")
METHOD = re.compile(r"^(u32string|string)::~?\w+")
CTOR = re.compile(r"^(u32string|string)::basic_string")
ALLOC = re.compile(r"^(malloc|calloc|realloc|operator new(\[\])?\()")
FREE = re.compile(r"^(free|operator delete(\[\])?\()")
MAX = 40


class Fresh:
    """one function; init: argument id -> elements it starts with"""

    def __init__(self, fn, mod, summaries, init=None):
        self.fn, self.mod, self.sum = fn, mod, summaries
        self.out = []                       # (instr, what)
        self.grows = set()                  # arguments (strings) whose buffer this function may replace
        self.nuses = self.ninval = self.norig = 0
        self.init = init or {}
        self.ok = True

    # state: dict value/cell -> frozenset of elements; ("o", base, off) | ("b", string base key, stale site or None)
    def val(self, s, v):
        if isinstance(v, str):
            if v.startswith("g:@"):
                v = v[2:].split("+")[0]
            if v.startswith("@"):
                return frozenset([("o", v, 0)])
        r = s.get(v)
        if r is None and isinstance(v, str) and v.startswith("%a"):
            return self.init.get(v) or frozenset([("o", v, 0)])
        return r or frozenset()

    def objs(self, s, v):
        return [e for e in self.val(s, v) if e[0] == "o"]

    def shift(self, es, off):
        out = set()
        for e in es:
            if e[0] == "o":
                out.add(("o", e[1], None if off is None or e[2] is None or off and not self.local(e[1]) else e[2] + off))
            else:
                out.add(e)
        return frozenset(out)

    def local(self, o):
        return o in self.fn.defs and self.fn.defs[o].op == "alloca"

    @staticmethod
    def widen(v):
        seen = {}
        for e in v:
            if e[0] == "o":
                seen.setdefault(e[1], set()).add(e[2])
        for b, offs in seen.items():
            if len(offs) > 4 or None in offs and len(offs) > 1:
                v = frozenset(e for e in v if e[0] != "o" or e[1] != b) | {("o", b, None)}
        return v

    @staticmethod
    def join(a, b):
        if a is None:
            return dict(b), True
        ch = False
        for k, v in b.items():
            w = a.get(k)
            if w is None:
                a[k] = v
                ch = True
            elif not v <= w:
                v = Fresh.widen(w | v)
                if v != w:
                    a[k] = v
                    ch = True
        return a, ch

    def invalidate(self, s, roots, site):
        for k, v in list(s.items()):
            if any(e[0] == "b" and e[1] in roots and e[2] is None for e in v):
                s[k] = frozenset(("b", e[1], site) if e[0] == "b" and e[1] in roots and e[2] is None else e for e in v)
        for a, es in self.init.items():          # arguments declared to alias a string
            if a not in s and any(e[0] == "b" and e[1] in roots for e in es):
                s[a] = frozenset(("b", e[1], site) if e[0] == "b" and e[1] in roots else e for e in es)
        for r in roots:
            if isinstance(r[0], str) and r[0].startswith("%a"):
                self.grows.add(r[0])

    def use(self, s, v, i, what, rec):
        if not rec:
            return
        es = self.val(s, v)
        for e in es:
            if e[0] == "b":
                self.nuses += 1
                if e[2] is not None:
                    self.out.append((i, what, e[1], e[2]))
            elif ("freed", e[1]) in s:
                self.out.append((i, what, (e[1], 0), next(iter(s[("freed", e[1])]))[2]))

    def keys(self, s, v):
        """string objects the pointer v may designate"""
        return {(e[1], e[2]) for e in self.objs(s, v)}

    def cells(self, s, es, ln=None):
        """cells inside [off, off+ln) of the objects es"""
        out = []
        for e in es:
            if e[0] != "o":
                continue
            for k in list(s):
                if isinstance(k, tuple) and k[0] == "cell" and k[1] == e[1]:
                    if e[2] is None or k[2] is None or (e[2] <= k[2] and (ln is None or k[2] < e[2] + ln)):
                        out.append((k, None if e[2] is None or k[2] is None else k[2] - e[2]))
        return out

    def step(self, s, i, rec):
        op = i.op
        d = i.id
        if op == "alloca":
            s[d] = frozenset([("o", d, 0)])
        elif op == "getelementptr":
            var = i.x.get("vars")
            off = i.x.get("coff") if "coff" in i.x and not var else None
            s[d] = self.shift(self.val(s, i.o[0]), off)
        elif op in ("bitcast", "addrspacecast", "freeze", "inttoptr", "ptrtoint", "extractvalue"):
            s[d] = self.val(s, i.o[0])
        elif op in ("add", "sub") and i.ty == "i64" and any(self.val(s, o) for o in i.o):
            # pointer arithmetic on integers: a difference of two pointers is no pointer any more
            es = [self.val(s, o) for o in i.o]
            s[d] = frozenset() if all(es) else self.shift(es[0] | es[1], None)
        elif op == "insertvalue":
            s[d] = self.val(s, i.o[0]) | self.val(s, i.o[1])
        elif op == "select":
            s[d] = self.val(s, i.o[1]) | self.val(s, i.o[2])
        elif op == "load":
            self.use(s, i.o[0], i, "reads", rec)
            r = frozenset()
            if i.ty in ("ptr", "i64") or i.ty.startswith("{"):
                for k, _ in self.cells(s, self.objs(s, i.o[0]), 16 if i.ty.startswith("{") else 8):
                    r |= s[k]
            s[d] = r
        elif op == "store":
            self.use(s, i.o[1], i, "writes", rec)
            ts = self.objs(s, i.o[1])
            v = self.val(s, i.o[0])
            if len(ts) == 1 and ts[0][2] is not None:
                s[("cell", ts[0][1], ts[0][2])] = v
            elif v:
                for t in ts:
                    k = ("cell", t[1], t[2])
                    s[k] = s.get(k, frozenset()) | v
        elif op in ("call", "invoke"):
            self.call(s, i, rec)
        elif op == "ret" and i.o and rec:
            for e in self.val(s, i.o[0]):
                if e[0] == "b" and (e[2] is not None or self.local(e[1][0])) or e[0] == "o" and self.local(e[1]):
                    self.out.append((i, "returns", e[1] if e[0] == "b" else (e[1], e[2]), e[2] if e[0] == "b" else None))

    def call(self, s, i, rec):
        c = i.callee
        d = i.id
        s.pop(d, None)
        if c.startswith("llvm.mem"):
            self.use(s, i.o[0], i, "writes", rec)
            if not c.startswith("llvm.memset"):
                self.use(s, i.o[1], i, "reads", rec)
                t = self.objs(s, i.o[0])
                m = re.match(r"c:\d+:(\d+)$", str(i.o[2]))
                n = int(m.group(1)) if m else None
                for k, rel in self.cells(s, self.objs(s, i.o[1]), n):
                    for e in t:
                        kk = ("cell", e[1], None if rel is None or e[2] is None else e[2] + rel)
                        s[kk] = s[k] if len(t) == 1 and kk[2] is not None else s.get(kk, frozenset()) | s[k]
            return
        if c.startswith("llvm."):
            return
        if ALLOC.match(c):
            if c.startswith("realloc"):
                for e in self.objs(s, i.o[0]):
                    s[("freed", e[1])] = frozenset([("f", e[1], i.id)])
            s.pop(("freed", d), None)
            s[d] = frozenset([("o", d, 0)])
            return
        if FREE.match(c):
            es = [e for e in self.objs(s, i.o[0]) if not e[1].startswith("@")]
            for e in es:
                if rec and ("freed", e[1]) in s and len(es) == 1:
                    self.out.append((i, "frees again", (e[1], 0), next(iter(s[("freed", e[1])]))[2]))
            for e in es:
                if e[1] in self.fn.defs and self.fn.defs[e[1]].op in ("call", "invoke"):
                    s[("freed", e[1])] = frozenset([("f", e[1], i.id)])
                    self.ninval += rec
            return
        # arguments are used before the call changes anything
        for n, a in enumerate(i.o):
            if n == 0 and METHOD.match(c):
                continue
            self.use(s, a, i, "is passed to %s" % c.split("(")[0], rec)
            if rec and re.match(r"^(u32)?view::", c) and n == 0:
                for k, _ in self.cells(s, self.objs(s, a), 16):
                    for e in s[k]:
                        if e[0] == "b":
                            self.nuses += 1
                            if e[2] is not None:
                                self.out.append((i, "is passed to %s" % c.split("(")[0], e[1], e[2]))
        if METHOD.match(c):
            ks = self.keys(s, i.o[0]) if i.o else set()
            if POINTER.match(c):
                self.norig += rec
                s[d] = frozenset(("b", k, None) for k in ks)
                return
            if KEEPS.match(c):
                return
            if CTOR.match(c):
                if "&&" in c and len(i.o) > 1:
                    self.inval(s, self.keys(s, i.o[1]), i, rec)
                # a fresh object: nothing can point into it yet, pointers into an earlier incarnation are outdated
                self.inval(s, ks, i, rec, quiet=True)
                return
            self.inval(s, ks, i, rec)
            if re.search(r"::(swap|operator=)\((u32)?string&", c) and len(i.o) > 1 and "const&" not in c:
                self.inval(s, self.keys(s, i.o[1]), i, rec)
            if re.search(r"::insert\(|::erase\(|::replace\(|::append|::assign|::operator[+=]", c):
                s[d] = frozenset(("b", k, None) for k in ks) if re.search(r"::(insert|erase)\(__gnu", c) else self.val(s, i.o[0])
            return
        g = self.mod.by_short.get(c)
        if c.startswith("idna::") and g is not None:
            sg = self.sum(g)
            for n, a in enumerate(i.o):
                if "%%a%d" % n in sg:
                    ks = self.keys(s, a)
                    if ks:
                        if rec:
                            self.alias(s, i, g, n, ks)
                        self.inval(s, ks, i, rec)
                    for e in self.objs(s, a):
                        for k, _ in self.cells(s, [("o", e[1], None)]):
                            pass
            return
        # library algorithms: strings passed by non-const reference may change; results point where the arguments do
        ps = params(c)
        r = frozenset()
        for n, a in enumerate(i.o):
            v = self.val(s, a)
            p = ps[n] if n < len(ps) else ""
            if re.match(r"^(u32)?string&+$", p):
                self.inval(s, self.keys(s, a), i, rec)
            r |= frozenset(e for e in v if e[0] == "b")
            if re.search(r"(view|span|subrange)", p) or "ranges" in c:
                for k, _ in self.cells(s, self.objs(s, a), 16):
                    r |= frozenset(e for e in s[k] if e[0] == "b")
                    if rec:
                        for e in s[k]:
                            if e[0] == "b":
                                self.nuses += 1
                                if e[2] is not None:
                                    self.out.append((i, "is passed to %s" % c.split("(")[0][-60:], e[1], e[2]))
        if i.ty == "ptr" or i.ty.startswith("{"):
            s[d] = r

    def alias(self, s, i, g, n, ks):
        """a view of the string object that is passed by reference as argument n: allowed only if the callee is done with the view before"""
        for j, a in enumerate(i.o):
            if j == n:
                continue
            if any(e[0] == "b" and e[1] in ks for e in self.val(s, a)):
                r = analyse(g, self.mod, self.sum, {"%%a%d" % j: frozenset([("b", ("%%a%d" % n, 0), None)])})
                if r.out:
                    x = r.out[0]
                    self.out.append((i, "a view of it is passed together with the string itself to %s, which %s the view at %s after changing the string at" %
                                     (g.short.split("(")[0], "reads" if "pass" not in x[1] else "passes on", x[0].where()), next(iter(ks)), x[3]))

    def inval(self, s, ks, i, rec, quiet=False):
        if ks:
            self.ninval += rec and not quiet
            self.invalidate(s, ks, i.id if i.fn is self.fn else None)

    def run(self):
        fn = self.fn
        ins = {fn.entry: {}}
        work = [fn.entry]
        rounds = {}
        order = {b: n for n, b in enumerate(fn.rpo())}
        while work:
            work.sort(key=lambda b: order.get(b, 0), reverse=True)
            b = work.pop()
            rounds[b] = rounds.get(b, 0) + 1
            if rounds[b] > MAX * 10:
                self.ok = False
                break
            s = dict(ins[b])
            for i in fn.blocks[b].ins:
                if i.op != "phi":
                    self.step(s, i, False)
            for t in fn.blocks[b].succ:
                e = dict(s)
                ph = {}
                for i in fn.blocks[t].phis():
                    for v, src in i.x["in"]:
                        if src == b:
                            ph[i.id] = self.val(s, v)
                e.update(ph)
                new, ch = self.join(ins.get(t), e)
                if ch or t not in ins:
                    ins[t] = new
                    if t not in work:
                        work.append(t)
        for b in fn.rpo():
            if b in ins:
                s = dict(ins[b])
                for i in fn.blocks[b].ins:
                    if i.op != "phi":
                        self.step(s, i, True)
        return self


def params(c):
    """parameter types of a demangled name (top level commas)"""
    m = c.rfind("(")
    depth, start = 0, None
    for n in range(len(c) - 1, -1, -1):
        if c[n] == ")":
            depth += 1
        elif c[n] == "(":
            depth -= 1
            if depth == 0:
                start = n
                break
    if start is None:
        return []
    body = c[start + 1:c.rfind(")")]
    out, dep, cur = [], 0, ""
    for ch in body:
        if ch in "<([":
            dep += 1
        elif ch in ">)]":
            dep -= 1
        if ch == "," and not dep:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


_memo = {}


def analyse(fn, mod, summaries, init=None):
    k = (fn.name, id(mod), tuple(sorted((init or {}).items())))
    if k not in _memo:
        _memo[k] = Fresh(fn, mod, summaries, init)
        _memo[k].run()
    return _memo[k]


def summaries(mod):
    memo = {}

    def get(g):
        if g.name not in memo:
            memo[g.name] = set()            # recursion: none until computed
            memo[g.name] = analyse(g, mod, get).grows
        return memo[g.name]
    return get
