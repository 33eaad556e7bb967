"""Bounds of memory accesses, proved over the SSA form of a function with everything inlined.

Every integer is a linear form over leaves (arguments, loads, masked values, loop phis; a phi that grows by a constant in
each iteration is init + step * t with t the iteration count).  A goal `form >= 0` at a program point is proved from the
branch conditions that dominate the point, from what the leaves are by definition, and from invariants of the enclosing
loops; at a join whose phis matter the proof splits over the incoming edges.  Candidates for the invariants come from
templates and are kept only if, assuming all of them, each holds on entry and is preserved by every iteration (Houdini).
The same iteration settles the assumptions `this addition does not wrap`, `this value is not negative` and `the elements
of this array lie between lo and hi`.  Linear entailment is Fourier-Motzkin elimination with integer tightening."""
import time
from math import gcd
import ir

BIG = 1 << 62


class Lin:
    __slots__ = ("c", "m", "_k")

    def __init__(self, c=0, m=None):
        self.c, self.m, self._k = c, m or {}, None

    def __add__(self, o):
        return self.addk(o, 1)

    def __sub__(self, o):
        return self.addk(o, -1)

    def addk(self, o, k):
        if isinstance(o, int):
            return Lin(self.c + k * o, self.m)
        m = dict(self.m)
        for l, v in o.m.items():
            w = m.get(l, 0) + k * v
            if w:
                m[l] = w
            else:
                m.pop(l, None)
        return Lin(self.c + k * o.c, m)

    def scale(self, k):
        return Lin(self.c * k, {l: v * k for l, v in self.m.items()}) if k else Lin()

    def key(self):
        if self._k is None:
            self._k = (self.c, frozenset(self.m.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def const(self):
        return not self.m

    def __repr__(self):
        return " ".join(["%d" % self.c] + ["%+d*%s" % (v, leafname(l)) for l, v in self.m.items()])


def leafname(l):
    return "/".join(str(x) if not isinstance(x, tuple) else "(" + leafname(x) + ")" for x in l)


def L(leaf):
    return Lin(0, {leaf: 1})


def norm(e):
    """integer tightening of e >= 0"""
    g = 0
    for v in e.m.values():
        g = gcd(g, v)
    if g > 1:
        return Lin(e.c // g, {l: v // g for l, v in e.m.items()})
    return e


def infeasible(cs, cap=500):
    """no integer point satisfies all e >= 0 (sound: True only if so)"""
    cur = {}

    def put(store, e):
        e = norm(e)
        if not e.m:
            return e.c < 0
        k = frozenset(e.m.items())
        if k not in store or store[k].c > e.c:
            store[k] = e
        o = store.get(frozenset((l, -v) for l, v in e.m.items()))
        return o is not None and store[k].c + o.c < 0
    for e in cs:
        if put(cur, e):
            return True
    while cur:
        # an equality first: substitute a leaf with coefficient 1
        done = False
        for k, e in cur.items():
            o = cur.get(frozenset((l, -v) for l, v in e.m.items()))
            if o is not None and o.c == -e.c:
                ls = [l for l, v in e.m.items() if abs(v) == 1]
                if ls:
                    x = ls[0]
                    s = e.m[x]
                    new = {}
                    for f in cur.values():
                        cx = f.m.get(x, 0)
                        if f is e or f is o:
                            continue
                        if cx:
                            f = f.addk(e, -cx * s)
                        if put(new, f):
                            return True
                    cur = new
                    done = True
                    break
        if done:
            continue
        pos, neg = {}, {}
        for e in cur.values():
            for l, v in e.m.items():
                (pos if v > 0 else neg).setdefault(l, []).append(e)
        best = None
        for l in set(pos) | set(neg):
            a, b = len(pos.get(l, ())), len(neg.get(l, ()))
            c = (a * b - a - b, a * b, str(l))
            if best is None or c < best[0]:
                best = (c, l)
        x = best[1]
        new = {}
        for e in cur.values():
            if x not in e.m:
                if put(new, e):
                    return True
        for p in pos.get(x, ()):
            for n in neg.get(x, ()):
                a, b = p.m[x], -n.m[x]
                g = gcd(a, b)
                if put(new, p.scale(b // g).addk(n, a // g)):
                    return True
        if len(new) > cap:
            return False
        cur = new
    return False


def sconst(s):
    if s.startswith("c:"):
        _, w, v = s.split(":")
        w, v = int(w), int(v)
        return v - (1 << w) if w > 1 and v >> (w - 1) else v
    return None


def uconst(s):
    if s.startswith("c:"):
        return int(s.split(":")[2])
    return None


def width(ty):
    return int(ty[1:]) if ty.startswith("i") and ty[1:].isdigit() else (64 if ty == "ptr" else None)


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
FALSE = Lin(-1)


def facts_key(f):
    return f if isinstance(f, Lin) else (f[0], f[1], f[2:])


class Obl:
    def __init__(self, ins, what, goals):
        self.ins, self.what, self.goals, self.ok = ins, what, goals, None


class Bounds:
    def __init__(self, fn, objs, shared=None, deadline=None):
        """objs: pointer argument -> (object name, size Lin); shared: facts about the elements of global arrays"""
        self.fn, self.mod = fn, fn.mod
        self.argobj = objs
        self.spec_off = set()          # speculations found false
        self.spec = {}                 # speculation key -> (block, [goals])
        self.dead = set()              # dropped candidates
        self.shared = shared if shared is not None else {}
        self.deadline = deadline or (time.time() + 600)
        self.opaque = set()
        self.reset()
        self.find_regions()
        self.inv = {}
        self.R = self.relevant()
        self.used = set()

    def reset(self):
        self._lin, self._linu, self._ptr, self._cond = {}, {}, {}, {}
        self._ef, self._lf, self._ent = {}, {}, {}

    # ---------------------------------------------------------------- values
    def d(self, v):
        return self.fn.defs.get(v)

    def ty(self, v):
        if v.startswith("c:"):
            return "i" + v.split(":")[1]
        i = self.d(v)
        if i is not None:
            return i.ty
        for a in self.fn.args:
            if a["id"] == v:
                return a["ty"]
        return "ptr"

    def want(self, key, blk, goals):
        """speculate on key; the goals are proved at blk"""
        if key in self.spec_off:
            return False
        if key not in self.spec:
            self.spec[key] = (blk, goals)
        return True

    def lin(self, v):
        """signed value of an integer"""
        r = self._lin.get(v)
        if r is None:
            r = self._lin[v] = self.lin0(v)
        return r

    def linu(self, v):
        """unsigned value"""
        r = self._linu.get(v)
        if r is None:
            c = uconst(v)
            if c is not None:
                r = Lin(c)
            else:
                s = self.lin(v)
                i = self.d(v)
                if i is None:
                    r = s
                elif self.want(("nn", v), i.blk.id, [s]):
                    r = s
                else:
                    r = L(("u", v))
            self._linu[v] = r
        return r

    def lin0(self, v):
        c = sconst(v)
        if c is not None:
            return Lin(c)
        i = self.d(v)
        leaf = L(("v", v))
        if i is None:
            return leaf
        w = width(i.ty)
        op = i.op
        if i.ty == "ptr":
            return self.ptr(v)[2]
        if w is None:
            return leaf
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1

        def fits(e, *k):
            if i.x.get("nsw"):
                return True
            return self.want(("nw", v), i.blk.id, [e - lo, Lin(hi) - e])
        if op in ("add", "sub"):
            a, b = i.o
            if op == "sub" and self.isptrint(a) and self.isptrint(b):
                p, q = self.ptr(self.d(a).o[0]), self.ptr(self.d(b).o[0])
                if p[0] is not None and p[0] == q[0]:
                    return p[2] - q[2]
                return leaf
            e = self.lin(a).addk(self.lin(b), 1 if op == "add" else -1)
            return e if fits(e) else leaf
        if op == "mul":
            a, b = self.lin(i.o[0]), self.lin(i.o[1])
            if a.const() or b.const():
                e = b.scale(a.c) if a.const() else a.scale(b.c)
                return e if fits(e) else leaf
            return leaf
        if op == "shl":
            k = uconst(i.o[1])
            if k is not None and k < w - 1:
                e = self.lin(i.o[0]).scale(1 << k)
                return e if fits(e) else leaf
            return leaf
        if op == "or":
            for a, b in (i.o, i.o[::-1]):
                da = self.d(a)
                if da is not None and da.op == "shl" and uconst(da.o[1]) is not None and uconst(da.o[1]) < w - 1:
                    k = uconst(da.o[1])
                    e, f = self.lin(a), self.lin(b)
                    if self.d(b) is None or self.d(b).op != "shl":
                        if ("v", a) not in e.m and self.want(("or", v), i.blk.id, [f, Lin((1 << k) - 1) - f]):
                            return e + f
            return leaf
        if op == "xor":
            for a, b in (i.o, i.o[::-1]):
                if sconst(b) == -1:
                    return Lin(-1) - self.lin(a)
            return leaf
        if op == "sext":
            if i.x["sty"] == "i1":
                return leaf
            return self.lin(i.o[0])
        if op == "zext":
            if i.x["sty"] == "i1":
                return leaf
            return self.linu(i.o[0])
        if op == "trunc":
            if w == 1:
                return leaf
            e = self.lin(i.o[0])
            return e if self.want(("fit", v), i.blk.id, [e - lo, Lin(hi) - e]) else leaf
        if op == "phi":
            ind = self.induction(i)
            if ind is not None:
                return ind
        if op == "freeze":
            return self.lin(i.o[0])
        return leaf

    def isptrint(self, v):
        i = self.d(v)
        return i is not None and i.op == "ptrtoint"

    def induction(self, i):
        """init + step * t for a loop-header phi that grows by the same constant on every way round"""
        lp = self.fn.loops().get(i.blk.id)
        if lp is None or ("ind", i.id) in self.spec_off:
            return None
        init, step = None, None
        self.nsw = True
        for v, b in i.x["in"]:
            if b in lp.body:
                s = self.step(v, i.id, set())
                if s is None or (step is not None and s != step):
                    return None
                step = s
            else:
                if init is not None and init != v:
                    return None
                init = v
        if not step or init is None:
            return None
        t = L(("t", i.blk.id))
        if i.ty == "ptr":
            p = self.ptr(init)
            return p[2] + t.scale(step)
        e = self.lin(init) + t.scale(step)
        w = width(i.ty)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        # the increment must not wrap: speculate on the phi itself (proved with the other invariants)
        if not self.nsw and not self.want(("ind", i.id), i.blk.id, [e - lo, Lin(hi) - e]):
            return None
        return e

    def step(self, v, phi, seen):
        """constant c with v = phi + c (in every case), else None"""
        if v == phi:
            return 0
        if v in seen:
            return None
        i = self.d(v)
        if i is None:
            return None
        if i.op in ("add", "sub"):
            k = sconst(i.o[1])
            if k is None:
                k, o = (sconst(i.o[0]), i.o[1]) if i.op == "add" else (None, None)
            else:
                o = i.o[0]
            if k is None:
                return None
            s = self.step(o, phi, seen | {v})
            self.nsw = self.nsw and bool(i.x.get("nsw"))
            return None if s is None else s + (k if i.op == "add" else -k)
        if i.op == "getelementptr":
            if i.x.get("vars") or i.x.get("coff") is None:
                return None
            s = self.step(i.o[0], phi, seen | {v})
            return None if s is None else s + i.x["coff"]
        if i.op == "phi" and i.blk.id not in self.fn.loops():
            r = None
            for w, b in i.x["in"]:
                s = self.step(w, phi, seen | {v})
                if s is None or (r is not None and r != s):
                    return None
                r = s
            return r
        return None

    # ---------------------------------------------------------------- pointers
    def obj_size(self, o):
        if o[0] == "alloca":
            return Lin(self.d(o[1]).x["asz"])
        if o[0] == "global":
            return Lin(self.mod.globals[o[1]]["sz"])
        return self.argobj[o[1]]

    def members(self, o):
        if o[0] == "alloca":
            x = self.d(o[1]).x
            return [tuple(m) for m in x["mem"]] if x.get("mem") else [(0, x["asz"])]
        if o[0] == "global":
            g = self.mod.globals[o[1]]
            return [tuple(m) for m in g["mem"]] if g.get("mem") else [(0, g["sz"])]
        return None

    def member_at(self, o, off):
        ms = self.members(o)
        if ms is None:
            return None
        for m in ms:
            if m[0] <= off < m[0] + m[1]:
                return m
        return "outside"

    def ptr(self, v):
        """(object, member or None if the offset is constant so far, offset)"""
        r = self._ptr.get(v)
        if r is None:
            self._ptr[v] = (None, None, L(("v", v)))      # cycles
            r = self._ptr[v] = self.ptr0(v)
        return r

    def ptr0(self, v):
        none = (None, None, L(("v", v)))
        if v.startswith("g:"):
            b, off = v[2:].rsplit("+", 1)
            p = self.ptr(b)
            return (p[0], p[1], p[2] + int(off))
        if v.startswith("@"):
            return (("global", v[1:]), None, Lin()) if v[1:] in self.mod.globals else none
        if v.startswith("%a"):
            return (("arg", v), None, Lin()) if v in self.argobj else none
        i = self.d(v)
        if i is None:
            return none
        if i.op == "alloca":
            return (("alloca", v), None, Lin())
        if i.op == "getelementptr" and i.x.get("coff") is not None:
            o, mem, off = self.ptr(i.o[0])
            if o is None:
                return none
            e = off + i.x["coff"]
            vs = i.x.get("vars") or []
            if vs and mem is None and e.const():
                mem = self.member_at(o, e.c)
            for x, k in vs:
                e = e.addk(self.lin(x), k)
            return (o, mem, e)
        if i.op == "phi":
            roots = set()
            mem = set()
            seen, st = {v}, [v]
            while st:
                x = self.d(st.pop())
                if x.op == "phi":
                    ins = [a for a, _ in x.x["in"]]
                else:
                    ins = [x.o[0]]
                for a in ins:
                    if a in seen:
                        continue
                    seen.add(a)
                    y = self.d(a)
                    if y is not None and (y.op == "phi" or (y.op == "getelementptr" and self.d(y.o[0]) is not None and
                                                            self.d(y.o[0]).op in ("phi", "getelementptr") and y.id not in self._ptr)):
                        st.append(a)
                    else:
                        p = self.ptr(a)
                        roots.add(p[0])
                        if p[0] is not None:
                            mem.add(p[1] if p[1] is not None else (self.member_at(p[0], p[2].c) if p[2].const() else "?"))
            if len(roots) != 1 or None in roots:
                return none
            o = roots.pop()
            m = mem.pop() if len(mem) == 1 else None
            self._ptr[v] = (o, m, L(("v", v)))
            ind = self.induction(i)
            return (o, m, ind if ind is not None else L(("v", v)))
        return none

    # ---------------------------------------------------------------- array contents
    def find_regions(self):
        self.accesses = []
        for i in self.fn.instrs():
            if i.op == "load":
                self.accesses.append((i, i.o[0], i.x["sz"], "load"))
            elif i.op == "store":
                w = i.x.get("sty", "")
                n = 8 if w == "ptr" else (width(w) or 0) // 8
                self.accesses.append((i, i.o[1], n or None, "store"))
            elif i.op == "call" and i.callee.startswith("llvm.mem"):
                self.accesses.append((i, i.o[0], ("len", i.o[2]), "memset" if "memset" in i.callee else "memcpy-to"))
                if "memset" not in i.callee:
                    self.accesses.append((i, i.o[1], ("len", i.o[2]), "memcpy-from"))

    def region(self, p):
        """key of the array a pointer reaches into"""
        o, mem, off = p
        if o is None:
            return None
        if mem is None and off.const():
            mem = self.member_at(o, off.c)
        if mem == "outside":
            return None
        return (o, mem)

    def table(self, o):
        """(values, size) of a constant table"""
        if o[0] == "global" and self.mod.globals[o[1]]["const"]:
            return self.mod.ginit(o[1])
        return None

    # ---------------------------------------------------------------- conditions
    def rel(self, p, a, b):
        """facts of a p b"""
        if p in ("eq", "ne") or p[0] == "s":
            x, y = self.lin(a), self.lin(b)
        else:
            x, y = self.linu(a), self.linu(b)
        d = y - x
        p = p[1:] if p not in ("eq", "ne") else p
        if p == "eq":
            return [d, d.scale(-1)]
        if p == "ne":
            return [("ne", d)]
        return {"lt": [d - 1], "le": [d], "gt": [d.scale(-1) - 1], "ge": [d.scale(-1)]}[p]

    def cond(self, v, pol):
        k = (v, pol)
        r = self._cond.get(k)
        if r is None:
            r = self._cond[k] = self.cond0(v, pol)
        return r

    def cond0(self, v, pol):
        c = uconst(v)
        if c is not None:
            return [] if bool(c) == pol else [FALSE]
        i = self.d(v)
        if i is None:
            return []
        if i.op == "icmp":
            a, b = i.o
            if "null" in (a, b) or (i.x.get("oty") not in ("ptr",) and width(i.x.get("oty", "")) is None):
                return []
            if i.x.get("oty") == "ptr":
                p, q = self.ptr(a), self.ptr(b)
                if p[0] is None or p[0] != q[0]:
                    return []
                pr = i.x["p"] if pol else NEG[i.x["p"]]
                d = q[2] - p[2]
                pr = pr if pr in ("eq", "ne") else pr[1:]
                if pr == "eq":
                    return [d, d.scale(-1)]
                if pr == "ne":
                    return [("ne", d)]
                return {"lt": [d - 1], "le": [d], "gt": [d.scale(-1) - 1], "ge": [d.scale(-1)]}[pr]
            return self.rel(i.x["p"] if pol else NEG[i.x["p"]], a, b)
        if i.op == "xor" and "c:1:1" in i.o:
            o = i.o[0] if i.o[1] == "c:1:1" else i.o[1]
            return self.cond(o, not pol)
        if i.op == "and" and pol or i.op == "or" and not pol:
            return self.cond(i.o[0], pol) + self.cond(i.o[1], pol)
        if i.op == "trunc":
            s = self.d(i.o[0])
            if s is not None and s.op == "zext" and s.x["sty"] == "i1":
                return self.cond(s.o[0], pol)
        if i.op == "phi" and i.ty == "i1":
            return [("bool", v, pol)]
        return []

    def edge(self, a, b):
        """facts of the edge a -> b"""
        k = (a, b)
        if k in self._ef:
            return self._ef[k]
        t = self.fn.blocks[a].term
        r = []
        if t.op == "br" and len(t.x["succ"]) == 2 and t.x["succ"][0] != t.x["succ"][1]:
            r = self.cond(t.o[0], t.x["succ"][0] == b)
        elif t.op == "switch":
            vs = [c[0] for c in t.x["cases"] if c[1] == b]
            if b == t.x["def"]:
                if not vs:
                    r = [("ne", Lin(sconst(c[0])) - self.lin(t.o[0])) for c in t.x["cases"]]
            elif len(vs) == 1:
                e = self.lin(t.o[0]) - sconst(vs[0])
                r = [e, e.scale(-1)]
            elif vs:
                e = self.lin(t.o[0])
                cs = sorted(sconst(x) for x in vs)
                r = [e - cs[0], Lin(cs[-1]) - e]
        self._ef[k] = r
        return r

    # ---------------------------------------------------------------- what a leaf is
    def rng(self, v, seen=frozenset()):
        """constant bounds of the signed value of v, from definitions alone"""
        c = sconst(v)
        if c is not None:
            return c, c
        i = self.d(v)
        w = width(self.ty(v)) or 64
        full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if i is None or v in seen:
            return full
        s = seen | {v}
        if i.op == "zext":
            if i.x["sty"] == "i1":
                return 0, 1
            a = self.rng(i.o[0], s)
            return a if a[0] >= 0 else (0, (1 << width(i.x["sty"])) - 1)
        if i.op == "sext":
            return self.rng(i.o[0], s)
        if i.op == "load":
            b = self.content_bounds(v)
            return (max(full[0], b[0]), min(full[1], b[1])) if b else full
        if i.op == "and":
            for x in i.o:
                k = sconst(x)
                if k is not None and k >= 0:
                    return 0, k
            return full
        if i.op == "select":
            rs = [self.rng(x, s) for x in i.o[1:]]
            return min(r[0] for r in rs), max(r[1] for r in rs)
        if i.op == "trunc":
            r = self.rng(i.o[0], s)
            return r if full[0] <= r[0] and r[1] <= full[1] else full
        if i.op == "freeze":
            return self.rng(i.o[0], s)
        if i.op == "phi" and i.blk.id not in self.fn.loops():
            rs = [self.rng(x, s) for x, _ in i.x["in"]]
            return min(r[0] for r in rs), max(r[1] for r in rs)
        return full

    def content_bounds(self, v):
        i = self.d(v)
        p = self.ptr(i.o[0])
        if p[0] is None:
            return None
        t = self.table(p[0])
        if t is not None:
            data, esz = t
            if esz == i.x["sz"] and len(data) % esz == 0:
                vs = [int.from_bytes(data[k:k + esz], "little", signed=True) for k in range(0, len(data), esz)]
                return min(vs), max(vs)
            return None
        r = self.region(p)
        if r is None:
            return None
        b = self.content.get(r)
        if b is None:
            b = self.shared.get(r) if r[0][0] == "global" else None
        return b[:2] if b and b[2] == i.x["sz"] else None

    content = {}
    axioms = ()

    def leaf_facts(self, l):
        r = self._lf.get(l)
        if r is None:
            r = self._lf[l] = self.leaf_facts0(l)
        return r

    def leaf_facts0(self, l):
        k = l[0]
        x = L(l)
        if k == "t":
            out = [x]
            for e in self.inv.get(l[1], ()):
                pass
            return out
        if k == "p2":
            out = [x - 1]
            hi = self.tmax.get(l[1])
            if hi is not None and 0 <= hi < 40:
                out.append(Lin(1 << hi) - x)
            return out
        if k == "u":
            w = width(self.ty(l[1]))
            return [x, Lin((1 << w) - 1) - x]
        if k != "v":
            return list(self.extra_leaf(l))
        v = l[1]
        if v.startswith("%a"):
            if v in self.sizes:
                return [x, Lin(BIG) - x]
            w = width(self.ty(v))
            return [x + (1 << (w - 1)), Lin((1 << (w - 1)) - 1) - x] if w else []
        i = self.d(v)
        out = []
        if i is None:
            return out
        w = width(i.ty)
        if i.ty == "ptr":
            return out
        if w:
            lo, hi = self.rng(v)
            out += [x - lo, Lin(hi) - x]
        if i.op == "and":
            for a, b in (i.o, i.o[::-1]):
                if sconst(a) is None and sconst(b) is None and self.d(a) is not None and self.d(a).op in ("sub", "add", "xor"):
                    e = self.lin(a)
                    if ("v", v) not in e.m and self.want(("nn", a), i.blk.id, [e]):
                        out += [x, e - x]
        elif i.op in ("lshr", "ashr"):
            kk = uconst(i.o[1])
            if i.op == "lshr" and kk:
                out += [x, Lin((1 << (w - kk)) - 1) - x]
            e = self.lin(i.o[0]) if v in self.R else None
            if e is not None and self.want(("nn", i.o[0]), i.blk.id, [e]):
                out += [x]
                if kk is not None:
                    out += [e - x.scale(1 << kk), x.scale(1 << kk) + ((1 << kk) - 1) - e]
                else:
                    out += [e - x]
        elif i.op == "shl":
            a, b = self.rng(i.o[1])
            if sconst(i.o[0]) == 1 and 0 <= a and b < w - 1:
                out += [x - (1 << a), Lin(1 << b) - x]
            elif sconst(i.o[0]) == -1 and 0 <= a and b < w:
                out += [x + (1 << b), Lin(-(1 << a)) - x]
        elif i.op == "or":
            a, b = self.rng(i.o[0]), self.rng(i.o[1])
            if a[0] >= 0 and b[0] >= 0:
                out += [x]
        elif i.op == "urem":
            kk = uconst(i.o[1])
            if kk:
                out += [x, Lin(kk - 1) - x]
        elif i.op == "udiv":
            kk = uconst(i.o[1])
            e = self.lin(i.o[0])
            if kk and self.want(("nn", i.o[0]), i.blk.id, [e]):
                out += [x, e - x.scale(kk), x.scale(kk) + (kk - 1) - e]
        elif i.op == "load":
            out += self.load_facts(i, x)
        return out

    def load_facts(self, i, x):
        return []

    def extra_leaf(self, l):
        return []

    # ---------------------------------------------------------------- entailment
    def entails(self, facts, goal, depth=2):
        """facts: [Lin | ('ne', Lin) | ('bool', ..)]"""
        if goal.const() and goal.c >= 0:
            return True
        k = (frozenset(f.key() if isinstance(f, Lin) else (f[0], f[1].key() if isinstance(f[1], Lin) else f[1], f[2:]) for f in facts), goal.key(), depth)
        r = self._ent.get(k)
        if r is not None:
            return r
        r = self._ent[k] = self.entails0(facts, goal, depth)
        return r

    def entails0(self, facts, goal, depth):
        lins = [f for f in facts if isinstance(f, Lin)]
        nes = [f[1] for f in facts if not isinstance(f, Lin) and f[0] == "ne"]
        if any(f.const() and f.c < 0 for f in lins) or any(e.const() and e.c == 0 for e in nes):
            return True
        # connected part
        leaves = set(goal.m)
        use, useN = [], []
        todo = list(leaves)
        rest = lins
        rn = nes
        n = 0
        if not leaves:
            # contradiction among the facts: start from the newest facts
            for f in lins[-3:]:
                leaves |= set(f.m)
            todo = list(leaves)
        while True:
            grew = False
            while todo:
                l = todo.pop()
                for f in self.leaf_facts(l):
                    use.append(f)
                    for q in f.m:
                        if q not in leaves:
                            leaves.add(q)
                            todo.append(q)
                            grew = True
            keep = []
            for f in rest:
                if any(l in leaves for l in f.m):
                    use.append(f)
                    for q in f.m:
                        if q not in leaves:
                            leaves.add(q)
                            todo.append(q)
                    grew = True
                else:
                    keep.append(f)
            rest = keep
            keep = []
            for f in rn:
                if any(l in leaves for l in f.m):
                    useN.append(f)
                    for q in f.m:
                        if q not in leaves:
                            leaves.add(q)
                            todo.append(q)
                    grew = True
                else:
                    keep.append(f)
            rn = keep
            if not grew and not todo:
                break
        sys0 = use + ([goal.scale(-1) - 1] if not (goal.const() and goal.c < 0) else [])
        return self.refute(sys0, useN, depth)

    def refute(self, cs, nes, depth):
        if infeasible(cs):
            return True
        todo = []
        for e in nes:
            g = 0
            for v in e.m.values():
                g = gcd(g, v)
            if g > 1 and e.c % g:
                continue                  # true anyway
            if infeasible(cs + [e]):      # e < 0 ... e >= 0 impossible: no information beyond e <= -1
                cs = cs + [e.scale(-1) - 1]
                continue
            lo = infeasible(cs + [e - 1])       # then e <= 0, so e <= -1
            if lo:
                cs = cs + [e.scale(-1) - 1]
                if infeasible(cs):
                    return True
                continue
            hi = infeasible(cs + [e.scale(-1) - 1])
            if hi:
                cs = cs + [e - 1]
                if infeasible(cs):
                    return True
                continue
            todo.append(e)
        if infeasible(cs):
            return True
        if depth > 0:
            for e in todo[:3]:
                if self.refute(cs + [e - 1], [n for n in todo if n is not e], depth - 1) and \
                        self.refute(cs + [e.scale(-1) - 1], [n for n in todo if n is not e], depth - 1):
                    return True
        return False

    # ---------------------------------------------------------------- what matters
    def roots(self):
        for i, pv, n, k in self.accesses:
            yield pv
            if isinstance(n, tuple):
                yield n[1]
        for i in self.fn.instrs():
            if i.op == "ret":
                yield from i.o

    def relevant(self):
        """values that indexes, lengths and stored elements are computed from, and what they are compared with"""
        R, todo = set(), [v for v in self.roots()]
        icmps = [i for i in self.fn.instrs() if i.op == "icmp"]
        phis = {i.id for h in self.fn.loops() for i in self.fn.blocks[h].phis()}

        def flow(v, out):
            st, seen = [v], set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                out.add(x)
                i = self.d(x)
                if i is None:
                    continue
                if i.op == "phi":
                    st += [a for a, _ in i.x["in"]]
                elif i.op == "getelementptr":
                    st += [i.o[0]] + [a for a, _ in (i.x.get("vars") or [])]
                elif i.op in ("add", "sub", "mul", "shl", "zext", "sext", "trunc", "or", "ptrtoint", "freeze", "select"):
                    st += i.o
            return out

        def local(v, st):
            """header phis a compared value is made of"""
            out, seen, st = set(), set(), [v]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in phis:
                    out.add(x)
                    continue
                i = self.d(x)
                if i is not None and i.op in ("add", "sub", "zext", "sext", "trunc", "shl", "ptrtoint", "freeze"):
                    st += i.o
                elif i is not None and i.op == "getelementptr":
                    st += [i.o[0]] + [a for a, _ in (i.x.get("vars") or [])]
            return out
        side = {i.id: (local(i.o[0], 0), local(i.o[1], 0)) for i in icmps}
        while True:
            for v in todo:
                flow(v, R)
            todo = []
            for i in icmps:
                for k in (0, 1):
                    if side[i.id][k] & R and i.o[1 - k] not in R:
                        todo.append(i.o[1 - k])
            if not todo:
                return R

    # ---------------------------------------------------------------- proofs
    def subst(self, f, m):
        """replace phi leaves by forms"""
        if isinstance(f, Lin):
            if not any(l in f.m for l in m):
                return f
            r = Lin(f.c, {l: v for l, v in f.m.items() if l not in m})
            for l, e in m.items():
                k = f.m.get(l)
                if k:
                    r = r.addk(e, k)
            return r
        if f[0] == "ne":
            return ("ne", self.subst(f[1], m))
        return f

    def mentions(self, fs, ids):
        for f in fs:
            if isinstance(f, Lin):
                if any(l[0] in ("v", "u") and l[1] in ids for l in f.m):
                    return True
            elif f[0] == "ne":
                if any(l[0] in ("v", "u") and l[1] in ids for l in f[1].m):
                    return True
            elif f[1] in ids:
                return True
        return False

    def closure(self, fs):
        """leaves of the facts, and those their definitions reach"""
        out = set()
        todo = []
        for f in fs:
            e = f if isinstance(f, Lin) else (f[1] if f[0] == "ne" else None)
            if e is None:
                out.add(("b", f[1]))
            else:
                todo += list(e.m)
        while todo:
            l = todo.pop()
            if l in out:
                continue
            out.add(l)
            for f in self.leaf_facts(l):
                todo += [q for q in f.m if q not in out]
        return out

    def prove(self, blk, goal, facts=(), budget=None):
        if budget is None:
            budget = [400]
        return self.walk(blk, list(facts), goal, budget)

    def grow_conn(self, conn, pend):
        """move the pending facts that touch conn into it; True if any did"""
        hit = False
        again = True
        while again and pend:
            again = False
            keep = []
            for ls in pend:
                if ls & conn:
                    for l in ls:
                        if l not in conn:
                            self.add_leaf(conn, l)
                    again = hit = True
                else:
                    keep.append(ls)
            pend[:] = keep
        return hit

    def add_leaf(self, conn, l):
        todo = [l]
        while todo:
            l = todo.pop()
            if l in conn:
                continue
            conn.add(l)
            for f in self.leaf_facts(l):
                todo += [q for q in f.m if q not in conn]

    @staticmethod
    def leaves(f):
        if isinstance(f, Lin):
            return frozenset(f.m)
        if f[0] == "ne":
            return frozenset(f[1].m)
        return frozenset([("b", f[1])])

    def walk(self, cur, facts, goal, budget):
        loops = self.fn.loops()
        if time.time() > self.deadline:
            raise TimeoutError
        budget[0] -= 1
        if budget[0] < 0:
            return False
        if self.entails(facts, goal):
            return True
        idom = self.fn.dom()
        conn = set()
        for l in goal.m:
            self.add_leaf(conn, l)
        if not goal.m:
            for f in facts:
                for l in self.leaves(f):
                    self.add_leaf(conn, l)
        pend = [self.leaves(f) for f in facts]
        self.grow_conn(conn, pend)
        known = set(facts_key(f) for f in facts)

        def add(new, hdr=None):
            nonlocal facts
            new = [f for f in new if facts_key(f) not in known]
            if not new:
                return False
            facts = facts + new
            known.update(facts_key(f) for f in new)
            pend.extend(self.leaves(f) for f in new)
            if any(isinstance(f, Lin) and f.const() and f.c < 0 for f in new):
                return True
            if self.grow_conn(conn, pend):
                if hdr is not None:
                    self.used.add(hdr)
                return self.entails(facts, goal)
            return False
        while True:
            b = self.fn.blocks[cur]
            if cur == self.fn.entry:
                return False
            pr = [p for p in b.pred if p in self.fn._num]
            lp = loops.get(cur)
            if lp is not None:
                if add(self.inv.get(cur, ()), cur):
                    return True
                ent = [p for p in pr if p not in lp.body]
                if len(ent) == 1:
                    if add(self.edge(ent[0], cur)):
                        return True
                    cur = ent[0]
                else:
                    cur = idom[cur]
                continue
            if len(pr) == 1:
                new = self.edge(pr[0], cur)
                if new and add(new):
                    return True
                cur = pr[0]
                continue
            # a join
            phis = {i.id for i in b.phis()}
            rel = any(l[1] in phis for l in conn if l[0] in ("v", "u", "b")) or \
                any(not isinstance(f, Lin) and f[0] == "bool" and f[1] in phis for f in facts)
            if not rel:
                # do the conditions of the incoming edges talk about what matters?
                for p in pr:
                    a, c = p, cur
                    while not rel:
                        if any(self.leaves(f) & conn for f in self.edge(a, c) if isinstance(f, Lin) or f[0] == "ne"):
                            rel = True
                        # an empty block on the way hides the condition
                        q = self.fn.blocks[a].pred
                        if a == idom[cur] or len(q) != 1 or len(self.fn.blocks[a].ins) > 1:
                            break
                        a, c = q[0], a
                if not rel:
                    cur = idom[cur]
                    continue
            return self.split(cur, pr, phis, facts, goal, budget)

    def split(self, cur, pr, phis, facts, goal, budget):
        b = self.fn.blocks[cur]
        for p in pr:
            m, bools = {}, {}
            for i in b.phis():
                v = next(x for x, q in i.x["in"] if q == p)
                if i.ty == "i1":
                    bools[i.id] = v
                elif i.ty == "ptr":
                    if self.ptr(i.id)[0] is not None and self.ptr(v)[0] is not None:
                        m[("v", i.id)] = self.ptr(v)[2]
                elif width(i.ty):
                    if ("v", i.id) in self.lin(i.id).m:
                        m[("v", i.id)] = self.lin(v)
                    m[("u", i.id)] = self.linu(v) if ("nn", i.id) in self.spec_off else self.lin(v)
            fs = []
            dead = False
            # facts known about the phi stay facts about the value that flows in
            for f in facts:
                if not isinstance(f, Lin) and f[0] == "bool":
                    if f[1] in bools:
                        for g in self.cond(bools[f[1]], f[2]):
                            if isinstance(g, Lin) and g.const() and g.c < 0:
                                dead = True
                            fs.append(g)
                    else:
                        fs.append(f)
                else:
                    g = self.subst(f, m)
                    if isinstance(g, Lin) and g.const():
                        if g.c < 0:
                            dead = True
                        continue
                    if not isinstance(g, Lin) and g[1].const():
                        if g[1].c == 0:
                            dead = True
                        continue
                    fs.append(g)
            if dead:
                continue
            fs = fs + list(self.edge(p, cur))
            # bounds of the phis themselves hold for what flows in
            if not self.walk(p, fs, self.subst(goal, m), budget):
                return False
        return True

    # ---------------------------------------------------------------- loop invariants
    def header_leaves(self, h):
        """header phi -> leaf, for phis that are leaves"""
        out = {}
        for i in self.fn.blocks[h].phis():
            if i.id not in self.R:
                continue
            if i.ty == "ptr":
                p = self.ptr(i.id)
                if p[0] is not None and ("v", i.id) in p[2].m:
                    out[i.id] = ("v", i.id)
            elif width(i.ty) and width(i.ty) > 1:
                if ("v", i.id) in self.lin(i.id).m:
                    out[i.id] = ("v", i.id)
        return out

    def dominates_out(self, h, l):
        """the leaf is defined before the loop h"""
        if l[0] == "t":
            return l[1] != h and self.fn.dominates(l[1], h) and l[1] not in self.fn.loops()[h].body
        if l[0] == "p2":
            return False
        if l[0] not in ("v", "u"):
            return False
        i = self.d(l[1])
        if i is None:
            return True
        return i.blk.id != h and self.fn.dominates(i.blk.id, h) and i.blk.id not in self.fn.loops()[h].body

    consts = (0, 1)

    def candidates(self, h):
        lp = self.fn.loops()[h]
        hl = self.header_leaves(h)
        t = ("t", h)
        own = set(hl.values()) | {t}
        out = []
        val = (lambda v: self.ptr(v)[2] if self.ty(v) == "ptr" else self.lin(v))
        for v, l in hl.items():
            i = self.d(v)
            x = L(l)
            if i.ty != "ptr":
                out += [x, x + 1]
            else:
                out += [x]
            for a, p in i.x["in"]:
                if p not in lp.body:
                    e = val(a)
                    if all(self.dominates_out(h, q) for q in e.m):
                        out += [x - e, e - x]
        ds = []
        ks = set()
        for bid in lp.body:
            for i in self.fn.blocks[bid].ins:
                if i.op != "icmp":
                    continue
                for f in self.cond(i.id, True):
                    e = f if isinstance(f, Lin) else (f[1] if f[0] == "ne" else None)
                    if e is not None:
                        ds.append(e)
                for a in i.o:
                    c = sconst(a)
                    if c is not None and -2 <= c <= 70000:
                        ks.add(c)
        for e in ds:
            if any(l in own for l in e.m) and all(l in own or self.dominates_out(h, l) for l in e.m):
                out += [norm(e), norm(e + 1), norm(e.scale(-1)), norm(e.scale(-1) - 1)]
        for l in hl.values():
            for k in ks:
                out += [Lin(k) - L(l)]
        outer = []
        for bid in lp.body:
            for i in self.fn.blocks[bid].ins:
                if i.op == "icmp":
                    for a in i.o:
                        if sconst(a) is None and a != "null" and self.ty(a) != "i1" and not a.startswith(("@", "g:")):
                            e = self.ptr(a)[2] if self.ty(a) == "ptr" else self.lin(a)
                            if e.m and all(self.dominates_out(h, l) for l in e.m):
                                if e not in outer:
                                    outer.append(e)
        for v, l in hl.items():
            for e in outer[:12]:
                out += [e - L(l)]
        for e in list(out):
            # the same with what a leaf is at most
            if e.m.get(t) == -1 and len(e.m) == 2:
                q = next(l for l in e.m if l != t)
                if q[0] in ("v", "u") and self.d(q[1]) is not None and e.m[q] == 1:
                    hi = self.rng(q[1])[1]
                    if hi < 1 << 20:
                        out.append(Lin(e.c + hi) - L(t))
        for bid in lp.body:
            for i in self.fn.blocks[bid].ins:
                if i.op == "icmp":
                    for k in (0, 1):
                        j = self.d(i.o[k])
                        if j is not None and j.op == "load" and j.blk.id in lp.body and t in self.lin(i.o[1 - k]).m:
                            hi = self.rng(j.id)[1]
                            if hi < 1 << 20:
                                out += [Lin(hi) - L(t), Lin(hi + 1) - L(t)]
        for v in hl:
            i = self.d(v)
            if i.ty == "ptr":
                o = self.ptr(v)[0]
                s = self.obj_size(o) if o is not None else None
                if s is not None:
                    out.append(s - L(("v", v)))
        out += self.more_candidates(h, hl)
        seen, res = set(), []
        for e in out:
            if e.const() or e.key() in seen or (h, e.key()) in self.dead:
                continue
            seen.add(e.key())
            res.append(e)
        return res

    def more_candidates(self, h, hl):
        return []

    def at_edge(self, h, p, e):
        """the form e over the header's phis on the edge p -> h"""
        lp = self.fn.loops()[h]
        m = {}
        for i in self.fn.blocks[h].phis():
            v = next(x for x, q in i.x["in"] if q == p)
            if ("v", i.id) in e.m:
                m[("v", i.id)] = self.ptr(v)[2] if i.ty == "ptr" else self.lin(v)
            if ("u", i.id) in e.m:
                m[("u", i.id)] = self.linu(v)
        back = p in lp.body
        m[("t", h)] = L(("t", h)) + 1 if back else Lin()
        m[("p2", h)] = L(("p2", h)).scale(2) if back else Lin(1)
        e = self.special(e, h, p, m)
        return self.subst(e, m)

    def special(self, e, h, p, m):
        return e

    def check_inv(self, h, e):
        lp = self.fn.loops()[h]
        for p in self.fn.blocks[h].pred:
            if p not in self.fn._num:
                continue
            g = self.at_edge(h, p, e)
            if not self.walk(p, list(self.edge(p, h)), g, [400]):
                return False
        return True

    trace = False
    tmax = {}
    sizes = ()

    def solve(self):
        """the greatest set of candidates that justifies itself"""
        self.content = {}
        self.init_content()
        rounds = 0
        while True:
            rounds += 1
            self.reset()
            self.inv = {}
            for h in self.fn.loops():
                self.inv[h] = self.candidates(h)
            self.set_tmax()
            if self.check_specs():
                self.spec = {}
                continue
            if self.check_content():
                self.spec = {}
                continue
            deps = {}
            dirty = set(self.inv)
            while dirty:
                gone = set()
                for h in self.fn.rpo():
                    if h not in self.inv:
                        continue
                    keep = []
                    for e in self.inv[h]:
                        k = (h, e.key())
                        if k in deps and not deps[k] & dirty:
                            keep.append(e)
                            continue
                        self.used = set()
                        if self.check_inv(h, e):
                            keep.append(e)
                            deps[k] = self.used
                        else:
                            self.dead.add(k)
                            if self.trace:
                                print("   dead", h, e, "round", rounds)
                            gone.add(h)
                    self.inv[h] = keep
                dirty = gone
                if gone:
                    self._ent = {}
                    self._lf = {}
                    self.set_tmax()
            bad = self.check_specs()
            if not bad:
                bad = self.check_content()
            if not bad:
                break
            self.spec = {}
            # forms change with the speculations: candidates are made anew
        self.rounds = rounds

    def set_tmax(self):
        self.tmax = {}
        for h in self.inv:
            for e in self.inv[h]:
                if set(e.m) == {("t", h)} and e.m[("t", h)] < 0:
                    k = e.c // -e.m[("t", h)]
                    self.tmax[h] = min(k, self.tmax.get(h, k))

    def check_specs(self):
        bad = False
        done = set()
        while True:
            todo = [k for k in self.spec if k not in done]
            if not todo:
                return bad
            for k in todo:
                done.add(k)
                blk, goals = self.spec[k]
                if not all(self.spec_ok(k, blk, g) for g in goals):
                    self.spec_off.add(k)
                    bad = True
                    if self.trace:
                        print("   spec off", k, [str(g) for g in goals])

    def spec_ok(self, k, blk, g):
        # an induction variable is known not to wrap at the header: proved from the invariants there
        return self.walk(blk, [], g, [400])

    def init_content(self):
        pass

    def check_content(self):
        return False
