"""Correspondence of a function with a reference procedure, loop header by loop header.

The reference is a transition system over integer state variables (its headers are the heads of its loops).  Every
cut header of the function is paired with one of the reference's; every value that is live at the header is related to
the reference state (an affine expression of one state variable, guessed from the edges that enter the header).  From
each header all paths to the next header or return are followed over poly.Ctx; the reference makes the same step under
the same inequalities, and has to arrive at the paired header with the related values, the same output and the same
answer.  All pairs together are an induction over the run of the function, so the result covers all inputs."""
import itertools
import time
from poly import *

M32 = 1 << 32


class Stop(Exception):
    """definite misbehaviour on the current path"""


class Ptr:
    __slots__ = ("base", "off")

    def __init__(self, base, off):
        self.base, self.off = base, off

    def __repr__(self):
        return "%s+%s" % (self.base, show(self.off))


def width(ty):
    return int(ty[1:]) if ty[:1] == "i" and ty[1:].isdigit() else 64


class Code:
    """The function under analysis, executed abstractly over polynomials."""

    def __init__(self, mod, fn, esz, cuts, seqname, lim=400):
        self.mod, self.f, self.esz, self.cuts, self.seq, self.lim = mod, fn, esz, cuts, seqname, lim
        self.live = self.liveness()

    def liveness(self):
        use, out = {}, {}
        f = self.f
        for b in f.order:
            bl = f.blocks[b]
            d, u = set(), set()
            for i in bl.ins:
                if i.op == "phi":
                    d.add(i.id)
                    continue
                for o in i.o:
                    if isinstance(o, str) and o.startswith("%") and o not in d:
                        u.add(o)
                if i.op == "getelementptr":
                    for v, _ in i.x.get("vars") or ():
                        if isinstance(v, str) and v.startswith("%") and v not in d:
                            u.add(v)
                d.add(i.id)
            use[b] = (u, d)
        live = {b: set() for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                u, d = use[b]
                o = set()
                for s in f.blocks[b].succ:
                    o |= live[s]
                    for p in f.blocks[s].phis():
                        o.discard(p.id)
                        for v, q in p.x["in"]:
                            if q == b and isinstance(v, str) and v.startswith("%"):
                                o.add(v)
                n = u | (o - d)
                if n != live[b]:
                    live[b] = n
                    ch = True
        return live

    def live_at(self, h):
        """values that matter at header h: phis used, and values from outside"""
        f = self.f
        ph = [p.id for p in f.blocks[h].phis()]
        s = {x for x in self.live[h] if not x.startswith("%a")}
        return s | set(ph)

    # -- running
    def start(self, ctx):
        self.ctx = ctx
        self.env, self.mem, self.eff = {}, {}, []
        self.alloc = {}
        self.last = None

    def val(self, o):
        if isinstance(o, str):
            if o.startswith("c:"):
                _, w, v = o.split(":")[:3]
                return const(int(v))
            if o in self.env:
                return self.env[o]
            if o.startswith("@"):
                return Ptr(o, ())
            if o in ("undef", "poison"):
                raise Undec("undefined value")
            if o == "null":
                return Ptr("null", ())
        raise Undec("value %s" % (o,))

    def num(self, o):
        v = self.val(o)
        if isinstance(v, Ptr):
            raise Undec("pointer used as a number")
        return v

    def uns(self, p, w):
        """as an unsigned number"""
        c, m = self.ctx, 1 << w
        for _ in range(3):
            lo, hi = c.bounds(p)
            if lo >= 0 and hi < m:
                return p
            if lo >= -m and (hi < 0 or lo < 0 and c.gt0(scale(p, -1))):
                p = add(p, const(m))
                continue
            if hi < 2 * m and (lo >= m or hi >= m and c.gt0(sub(p, const(m - 1)))):
                p = sub(p, const(m))
                continue
            if lo < -m or hi >= 2 * m:
                lo, hi = c.bounds(p)
                if lo >= 0 and hi < m:
                    return p
                raise Undec("wide value " + show(p))
        return p

    def sgn(self, p, w):
        c, m = self.ctx, 1 << w
        for _ in range(3):
            lo, hi = c.bounds(p)
            if lo >= -(m >> 1) and hi < m >> 1:
                return p
            if hi < m + (m >> 1) and (lo >= m >> 1 or hi >= m >> 1 and c.gt0(sub(p, const((m >> 1) - 1)))):
                p = sub(p, const(m))
                continue
            if lo >= -m and lo < -(m >> 1) and (hi < -(m >> 1) or c.gt0(sub(const(-(m >> 1)), p))):
                p = add(p, const(m))
                continue
            lo, hi = c.bounds(p)
            if lo >= -(m >> 1) and hi < m >> 1:
                return p
            raise Undec("wide value " + show(p))
        return p

    def fit(self, p, w, nsw, where):
        c, m = self.ctx, 1 << w
        lo, hi = c.bounds(p)
        if nsw:
            if hi >= m >> 1 and c.gt0(sub(p, const((m >> 1) - 1))):
                raise Stop("signed overflow", where)
            if lo < -(m >> 1) and c.gt0(sub(const(-(m >> 1)), p)):
                raise Stop("signed overflow", where)
            return p
        if lo >= -(m >> 1) and hi < m:
            return p
        return self.uns(p, w)

    def truth(self, v):
        if v is True or v is False:
            return v
        if isinstance(v, Ptr):
            raise Undec("pointer condition")
        return self.ctx.gt0(v)

    def as_poly(self, v):
        return const(1) if v is True else const(0) if v is False else v

    def run(self, blk, prev=None):
        """until a cut header or the end: ('head', h) or ('ret', value)"""
        f = self.f
        steps = 0
        while True:
            bl = f.blocks[blk]
            steps += 1
            if steps > self.lim:
                raise Undec("a loop without correspondence at " + bl.ins[0].where())
            if prev is not None:
                ph = bl.phis()
                vals = []
                for p in ph:
                    v = next((v for v, q in p.x["in"] if q == prev), None)
                    vals.append(None if v in ("undef", "poison") else self.val(v) if v is not None else None)
                for p, v in zip(ph, vals):
                    self.env[p.id] = v
                if blk in self.cuts:
                    return ('head', blk)
            for i in bl.ins:
                if i.op == "phi":
                    continue
                self.last = i
                if i.op == "br":
                    nxt = i.x["succ"][0] if not i.o else i.x["succ"][0 if self.truth(self.val(i.o[0])) else 1]
                    break
                if i.op == "switch":
                    x = self.uns(self.num(i.o[0]), width(i.x.get("oty") or "i32"))
                    nxt = i.x["def"]
                    for cv, t in i.x["cases"]:
                        if self.ctx.eq(x, const(int(cv.split(":")[2]))):
                            nxt = t
                            break
                    break
                if i.op == "ret":
                    return ('ret', self.as_poly(self.val(i.o[0])) if i.o else None)
                if i.op == "unreachable":
                    raise Stop("reaches an impossible point", i)
                self.env[i.id] = self.ins(i)
            prev, blk = blk, nxt

    def ins(self, i):
        op, c = i.op, self.ctx
        w = width(i.ty)
        if op in ("add", "sub", "mul"):
            if i.ty == "i1":
                a, b = self.val(i.o[0]), self.val(i.o[1])
                raise Undec("arithmetic on truth values")
            a, b = self.num(i.o[0]), self.num(i.o[1])
            a, b = self.as_poly(a), self.as_poly(b)
            if i.x.get("nsw"):
                a, b = self.sgn(a, w), self.sgn(b, w)
            elif op == "mul":
                a, b = self.uns(a, w), self.uns(b, w)
            r = add(a, b) if op == "add" else sub(a, b) if op == "sub" else mul(a, b)
            if not i.x.get("nsw") and op in ("add", "sub"):
                # modular: prefer the representation closest to zero
                k = isconst(b)
                if k is not None and k >= 1 << (w - 1):
                    r = add(a, const(k - (1 << w))) if op == "add" else sub(a, const(k - (1 << w)))
            return self.fit(r, w, i.x.get("nsw"), i)
        if op in ("sdiv", "udiv", "srem", "urem"):
            g = self.sgn if op[0] == "s" else self.uns
            a, b = g(self.num(i.o[0]), w), g(self.num(i.o[1]), w)
            if c.bounds(b)[0] <= 0 and not c.gt0(b):
                if op[0] == "s" and c.gt0(scale(b, -1)):
                    raise Undec("division by a negative value")
                raise Stop("divides by zero", i)
            if op[0] == "s" and c.bounds(a)[0] < 0 and c.gt0(scale(a, -1)):
                q = scale(c.div(scale(a, -1), b), -1)
            else:
                q = c.div(a, b)
            return q if op[1:] == "div" else sub(a, mul(b, q))
        if op in ("and", "or", "xor", "shl", "lshr", "ashr"):
            a, b = self.val(i.o[0]), self.val(i.o[1])
            if i.ty == "i1":
                a, b = self.truth(a), self.truth(b)
                return (a and b) if op == "and" else (a or b) if op == "or" else a != b
            k = isconst(b)
            if k is None and op == "and":
                a, b, k = b, a, isconst(a)
            if k is None and op == "or":
                a, b, k = b, a, isconst(a)
            if k is None:
                raise Undec("bit operation")
            if op == "and" and k & (k + 1) == 0:
                a = self.uns(a, w)
                return a if c.bounds(a)[1] <= k else c.mod(a, const(k + 1))
            if op == "and":
                a = self.uns(a, w)
                if c.bounds(a)[1] == 0:
                    return ()
                k &= (1 << w) - 1
                low = k & -k
                if k & (k + low) in (0, 1 << w):                     # one run of ones
                    q = c.div(a, const(low))
                    if c.bounds(q)[1] * low > k:
                        q = c.mod(q, const(k // low + 1))
                    return scale(q, low)
            if op == "shl":
                return self.fit(mul(self.sgn(a, w) if i.x.get("nsw") else self.uns(a, w), const(1 << k)), w, i.x.get("nsw"), i)
            if op == "lshr":
                return c.div(self.uns(a, w), const(1 << k))
            if op == "ashr" and c.bounds(self.sgn(a, w))[0] >= 0:
                return c.div(self.sgn(a, w), const(1 << k))
            if op == "or" and k == 0:
                return a
            if op == "xor" and k == (1 << w) - 1:
                return sub(const(-1), self.sgn(a, w))
            if op == "or" and k == 0x20:
                # sets one bit: split on it
                a = self.uns(a, w)
                bit = sub(c.div(a, const(32)), scale(c.div(a, const(64)), 2))
                return a if c.gt0(bit) else add(a, const(32))
            raise Undec("bit operation " + op)
        if op in ("zext", "sext", "trunc", "freeze"):
            v = self.val(i.o[0])
            if isinstance(v, Ptr):
                return v
            sw = width(i.x.get("sty") or i.ty)
            if v is True or v is False:
                v = const(1 if v else 0)
                return scale(v, -1) if op == "sext" else v if i.ty != "i1" else bool(isconst(v))
            if op == "zext":
                return self.uns(v, sw)
            if op == "sext":
                return self.sgn(v, sw)
            if op == "trunc":
                if i.ty == "i1":
                    return self.ctx.gt0(c.mod(self.uns(v, sw), const(2)))
                m = 1 << w
                lo, hi = c.bounds(v)
                if lo >= -(m >> 1) and hi < m:
                    return v
                if hi - lo < m * 2:
                    return self.uns(v, w)
                v = self.uns(v, sw)
                lo, hi = c.bounds(v)
                if lo >= 0 and hi < m:
                    return v
                return c.mod(v, const(m))
            return v
        if op == "icmp":
            a, b, p = self.val(i.o[0]), self.val(i.o[1]), i.x["p"]
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                    raise Undec("pointer compared with a number")
                if a.base != b.base:
                    if "null" in (a.base, b.base) and p in ("eq", "ne"):
                        return p == "ne"
                    raise Undec("pointers into different objects compared")
                a, b = a.off, b.off
            else:
                a, b = self.as_poly(a), self.as_poly(b)
                cw = width(i.x.get("oty") or "i64")
                if p in ("eq", "ne"):
                    la, lb = c.bounds(a), c.bounds(b)
                    if la[0] < 0 or lb[0] < 0 or la[1] >= 1 << (cw - 1) or lb[1] >= 1 << (cw - 1):
                        a, b = self.uns(a, cw), self.uns(b, cw)
                else:
                    g = self.sgn if p[0] == "s" else self.uns
                    a, b = g(a, cw), g(b, cw)
            q = p if len(p) == 2 else p[1:]
            return {"eq": lambda: c.eq(a, b), "ne": lambda: not c.eq(a, b), "gt": lambda: c.gt(a, b), "lt": lambda: c.gt(b, a),
                    "ge": lambda: c.ge(a, b), "le": lambda: c.ge(b, a)}[q]()
        if op == "select":
            return self.val(i.o[1] if self.truth(self.val(i.o[0])) else i.o[2])
        if op == "alloca":
            self.alloc[i.id] = i.x.get("asz")
            return Ptr(i.id, ())
        if op == "getelementptr":
            p = self.val(i.o[0])
            if not isinstance(p, Ptr):
                raise Undec("address")
            off = add(p.off, const(i.x.get("coff") or 0))
            for v, k in i.x.get("vars") or ():
                x = self.num(v)
                lo, hi = c.bounds(x)
                if hi >= 1 << 62:
                    x = self.sgn(x, 64)
                off = add(off, scale(x, k))
            return Ptr(p.base, off)
        if op == "ptrtoint":
            raise Undec("pointer arithmetic by numbers")
        if op == "load":
            return self.load(self.val(i.o[0]), i)
        if op == "store":
            p = self.val(i.o[1])
            self.store(p, self.val(i.o[0]), i)
            return None
        if op == "call":
            return self.call(i)
        if op == "extractvalue" or op == "insertvalue":
            raise Undec("aggregate value")
        raise Undec("instruction " + op)

    def offset(self, off):
        """a constant offset, split over the few it can have"""
        k = isconst(off)
        if k is not None:
            return k
        g = 0
        k0 = dict(off).get((), 0)
        for m, x in off:
            if m:
                g = gcd(g, abs(x))
        q = tuple((m, x // g) for m, x in off if m)
        lo, hi = self.ctx.bounds(q)
        if hi - lo > 64:
            raise Undec("address not known")
        for x in range(lo, hi):
            if self.ctx.eq(q, const(x)):
                return x * g + k0
        return hi * g + k0

    def load(self, p, i):
        if not isinstance(p, Ptr):
            raise Undec("load address")
        c = self.ctx
        if p.base == "in":
            k = self.esz
            if i.sz != k:
                raise Undec("input read with another width")
            idx = p.off if k == 1 else self.quot(p.off, k)
            if not c.gt0(sub(self.L, idx)) or c.gt0(scale(idx, -1)):
                raise Stop("reads outside the input", i)
            return c_rd(self.ctx, self.seq, idx)
        if p.base == "out":
            return self.out_elem(self.quot(p.off, i.sz), i)
        if p.base.startswith("@"):
            return self.table(p, i)
        off = self.offset(p.off)
        k = (p.base, off)
        if k not in self.mem:
            raise Undec("memory read")
        v, sz = self.mem[k]
        if sz != i.sz:
            raise Undec("memory read with another width")
        return v

    def quot(self, off, k):
        if any(x % k for _, x in off):
            raise Undec("unaligned offset")
        return tuple((m, x // k) for m, x in off)

    def store(self, p, v, i):
        if not isinstance(p, Ptr) or p.base in ("in",) or p.base.startswith("@"):
            raise Undec("store address")
        if p.base == "out":
            raise Undec("direct write to the result")
        off = self.offset(p.off)
        asz = self.alloc.get(p.base)
        sz = i.x.get("sz") or {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8}.get(i.x.get("sty"), 8)
        sz = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8}.get(i.x.get("sty"), sz)
        if asz is not None and (off < 0 or off + sz > asz):
            raise Stop("writes outside a local array", i)
        for k in list(self.mem):
            if k[0] == p.base and k[1] < off + sz and off < k[1] + self.mem[k][1]:
                del self.mem[k]
        self.mem[(p.base, off)] = (v, sz)

    def table(self, p, i):
        g = self.mod.ginit(p.base[1:]) if self.mod.globals.get(p.base[1:], {}).get("const") else None
        if g is None:
            raise Undec("global memory read")
        data, esz = g
        if i.sz != esz:
            raise Undec("table read with another width")
        idx = self.quot(p.off, esz) if esz > 1 else p.off
        n = len(data) // esz
        c = self.ctx
        lo, hi = c.bounds(idx)
        if lo < 0 and c.gt0(scale(idx, -1)) or hi >= n and c.gt0(sub(idx, const(n - 1))):
            raise Stop("reads outside a table", i)
        lo, hi = c.bounds(idx)
        lo, hi = max(lo, 0), min(hi, n - 1)
        if hi - lo > 300:
            raise Undec("table index not bounded")
        val = [int.from_bytes(data[k * esz:(k + 1) * esz], "little") for k in range(n)]
        # runs on which the entry is an affine function (slope 0 or 1) of the index
        k = lo
        while k <= hi:
            s = 0
            e = k
            if e + 1 <= hi and val[e + 1] - val[e] in (0, 1):
                s = val[e + 1] - val[e]
                while e + 1 <= hi and val[e + 1] - val[e] == s:
                    e += 1
            if e == hi or c.gt0(sub(const(e + 1), idx)):
                return add(scale(idx, s), const(val[k] - s * k))
            k = e + 1
        raise Undec("table")

    # -- calls
    def out_elem(self, idx, i):
        raise Undec("result read")

    def call(self, i):
        n = i.callee
        a = i.o
        c = self.ctx
        if n.startswith("llvm.memset"):
            p, v, k = self.val(a[0]), isconst(self.num(a[1])), isconst(self.num(a[2]))
            if p.base not in self.alloc or v != 0 or k is None:
                raise Undec("memset")
            off = self.offset(p.off)
            esz = self.cell_size(p.base)
            for x in range(off, off + k, esz):
                self.mem[(p.base, x)] = ((), esz)
            return None
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            d, s, k = self.val(a[0]), self.val(a[1]), isconst(self.num(a[2]))
            if k is None:
                k = self.offset(self.num(a[2]))
            if s.base.startswith("@"):
                g = self.mod.ginit(s.base[1:]) if self.mod.globals.get(s.base[1:], {}).get("const") else None
                if not g or d.base not in self.alloc:
                    raise Undec("copy")
                data, esz = g
                so, do = self.offset(s.off), self.offset(d.off)
                for x in range(0, k, esz):
                    self.mem[(d.base, do + x)] = (const(int.from_bytes(data[so + x:so + x + esz], "little")), esz)
                return None
            if d.base not in self.alloc or s.base not in self.alloc:
                raise Undec("copy")
            so, do = self.offset(s.off), self.offset(d.off)
            if do < 0 or do + k > (self.alloc[d.base] or 0):
                raise Stop("writes outside a local array", i)
            cells = [(o - so, v) for (b, o), v in self.mem.items() if b == s.base and so <= o < so + k]
            for key in [q for q in self.mem if q[0] == d.base and do <= q[1] < do + k]:
                del self.mem[key]
            for o, v in cells:
                self.mem[(d.base, do + o)] = v
            return None
        if n.startswith(("llvm.assume", "llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias")):
            return None
        for nm, sg, mx in (("smax", 1, 1), ("smin", 1, 0), ("umax", 0, 1), ("umin", 0, 0)):
            if n.startswith("llvm." + nm):
                w = width(i.ty)
                g = self.sgn if sg else self.uns
                x, y = g(self.num(a[0]), w), g(self.num(a[1]), w)
                return (x if c.gt(x, y) else y) if mx else (y if c.gt(x, y) else x)
        if n.startswith("llvm.expect"):
            return self.val(a[0])
        return self.extern(i, n, a)

    def cell_size(self, base):
        t = self.f.defs[base].x.get("aty", "")
        for k, s in (("i64", 8), ("i32", 4), ("i16", 2), ("i8", 1)):
            if t.endswith("x %s]" % k) or t == k:
                return s
        raise Undec("memory layout")

    def extern(self, i, n, a):
        raise Undec("call of " + n)


def c_rd(ctx, seq, idx):
    return var('rd', seq, idx)


# ---------------------------------------------------------------- candidates for the relation at a header
class Cand:
    """sign * (state variable) + c, for pointers with a base; or a constant"""
    __slots__ = ("v", "sg", "c", "base")

    def __init__(self, v, sg, c, base=None):
        self.v, self.sg, self.c, self.base = v, sg, c, base

    def value(self, S, scale_=1):
        p = self.c if self.v is None else add(scale(S[self.v], self.sg * scale_), self.c)
        return Ptr(self.base, p) if self.base is not None else p

    def __eq__(self, o):
        return (self.v, self.sg, self.c, self.base) == (o.v, o.sg, o.c, o.base)

    def __hash__(self):
        return hash((self.v, self.sg, self.c, self.base))

    def __repr__(self):
        b = (self.base + "+") if self.base else ""
        if self.v is None:
            return b + show(self.c)
        return "%s%s%s%s" % (b, "" if self.sg > 0 else "-", self.v if not self.c or True else "", "" if not self.c else "+" + show(self.c))


class Fail:
    soft = False                                # depends on a value taken as unknown

    def __init__(self, kind, where, msg, head, val=None):
        self.kind, self.where, self.msg, self.head, self.val = kind, where, msg, head, val

    def key(self):
        return (self.kind, self.head, self.val, self.msg if self.kind == "path" else None)


class Bisim:
    """spec: object with entry(ctx), step(ctx, head, S), state(ctx, head), vars(head), stable(head), doomed(ctx, head, S),
    inv(head) and derived(head, S); code: subclass of Code"""

    def __init__(self, code, spec, pairing):
        self.code, self.spec, self.pair = code, spec, pairing          # pairing: code header -> spec header
        self.rel = {}                                                   # (code header, value) -> Cand
        self.cands = {}
        self.inv = {h: set() for h in pairing}
        self.order = sorted(pairing, key=lambda h: code.f.rpo().index(h))
        self.npaths = 0
        self.tuned = set()
        self.free = set()                                               # values taken as unknown
        self.weak = {}                                                  # relations without support on the way in; False: supported around the loop

    # -- one exploration
    def from_head(self, h):
        """paths from h (None: the entry): list of (ctx, edge) with edge = (kind, ...)"""
        code, spec = self.code, self.spec

        def run(ctx):
            code.start(ctx)
            spec.begin(ctx)
            code.L = spec.L
            if h is None:
                S0 = spec.entry_state(ctx)
                code.enter(ctx, spec, None, S0)
                blk, prev = code.f.entry, None
            else:
                s = self.pair[h]
                spec.use_first = any(c.v == 'first' for c in self.rel.values())
                S0 = spec.state(ctx, s)
                for n in self.inv[h]:
                    ctx.assume(spec.inv(s)[n](S0))
                spec.pre(ctx, s, S0)
                D = dict(S0)
                D.update(spec.derived(ctx, s, S0))
                code.enter(ctx, spec, s, S0)
                for hh, v in self.free:
                    if hh == h:
                        w = 8 * v[2] if isinstance(v, tuple) else width(code.f.defs[v].ty)
                        x = sym("?%s" % (v,))
                        ctx.set(x, 0, (1 << min(w, 64)) - 1)
                        if isinstance(v, tuple):
                            code.mem[v[:2]] = (x, v[2])
                        else:
                            code.env[v] = x
                for (hh, v), cd in self.rel.items():
                    if hh != h or (hh, v) in self.free:
                        continue
                    x = cd.value(D, code.ptr_scale(cd))
                    if isinstance(v, tuple):
                        self.code.mem[v[:2]] = (x, v[2])
                    else:
                        d = code.f.defs.get(v)
                        code.env[v] = (ctx_bool(ctx, x) if d is not None and d.ty == "i1" else x)
                blk, prev = h, None
            try:
                k = code.run(blk, prev) if h is None else self.run_from(h)
            except Stop as e:
                k = ('stop', e.args[0], e.args[1])
            except Undec as e:
                where = code.last.where() if code.last is not None else "?"
                raise Undec("%s: %s" % (where, e.args[0]))
            eff = list(code.eff)
            env, mem, last = dict(code.env), dict(code.mem), code.last
            # the reference, under the same conditions
            head = None if h is None else self.pair[h]
            S = S0
            seff = []
            path = [head]
            while True:
                try:
                    head, S, e = spec.step(ctx, head, S)
                except Undec:
                    if len(path) < 2:
                        raise
                    break
                seff += e
                if head in ('true', 'false'):
                    break
                if k[0] == 'head' and self.pair[k[1]] == head:
                    break
                if (k[0] == 'head' or k[0] == 'ret' and isconst(k[1]) == 0) and spec.doomed(ctx, head, S):
                    head = 'false'
                    break
                if len(path) > self.ahead:
                    break
                if head in path[1:]:
                    break
                path.append(head)
            return k, head, S, eff, seff, env, mem, last, (D if h is not None else S0)
        return explore(run)

    def run_from(self, h):
        """run from a header: its phis are set already"""
        code = self.code
        cuts = code.cuts
        f = code.f
        # the header block itself, then on
        blk = h
        bl = f.blocks[blk]
        return code_run_body(code, blk)

    def all_edges(self):
        """explore everything reachable; fills candidates for headers on first contact; returns failures"""
        fails = []
        done = set()
        todo = [None]
        good = 0
        edges = {}
        results = []
        while todo:
            h = todo.pop(0)
            if h in done:
                continue
            done.add(h)
            if h is not None and (h, None) not in self.cands:
                self.guess(h, edges[h], h)
            for _ in range(4):
                res = self.from_head(h)
                self.npaths += len(res)
                if h is None or h in self.tuned or not self.tune(h, res):
                    break
            self.tuned.add(h)
            results.append((h, res))
            for ctx, r in res:
                if r[0][0] == 'head' and self.pair[r[0][1]] == r[1]:
                    edges.setdefault(r[0][1], []).append((ctx, r))
            todo = sorted((g for g in edges if g not in done), key=self.order.index)
        for h, res in results:
            for ctx, r in res:
                fl = self.check(h, ctx, r)
                good += not fl
                if self.free:
                    soft = any(self.has_free(p) for p, _ in ctx.trail)
                    for x in fl:
                        x.soft = soft or "?" in x.msg
                fails += fl
        self.seen = done
        self.good = good
        return fails

    def isint(self, v):
        return isinstance(v, tuple) or self.code.f.defs[v].ty != "ptr"

    def has_free(self, p):
        for k in atoms(p):
            a = info(k)
            if a[0] == 's' and a[1][:1] == '?' or a[0] == 'rd' and self.has_free(a[2]) or a[0] == 'div' and (self.has_free(a[1]) or self.has_free(a[2])):
                return True
        return False

    # -- relation guessing
    def values(self, h, mem):
        out = sorted(self.code.live_at(h), key=lambda x: int(x[1:]))
        return out + sorted((b, o, sz) for (b, o), (v, sz) in mem.items())

    def guess(self, g, rs, src):
        self.cands[(g, None)] = True
        s = self.pair[g]
        spec, code = self.spec, self.code
        phis = {p.id for p in code.f.blocks[g].phis()}
        body = code.f.loops()[g].body if g in code.f.loops() else set()
        stored = self.stored(body)
        mem = rs[0][1][6]
        used, lost = set(), []
        for v in self.values(g, mem):
            per = []
            for ctx, r in rs:
                x = r[6].get(v[:2], (None,))[0] if isinstance(v, tuple) else r[5].get(v)
                if x is None:
                    continue
                if x is True or x is False:
                    x = const(int(x))
                per.append((ctx, x, r[2]))
            if not per:
                continue
            varying = v in phis if not isinstance(v, tuple) else v[0] in stored
            arr = isinstance(v, tuple) and v[2] <= 4 and (code.f.defs[v[0]].x.get("asz") or 0) >= 4 * v[2]
            lst = self.candidates(s, per, varying, arr)
            if arr:
                lst.sort(key=lambda c: c.v in used)
                if lst:
                    used.add(lst[0].v)
            self.cands[(g, v)] = lst
            if lst:
                self.rel[(g, v)] = lst[0]
                if self.disagree:
                    self.weak[(g, v)] = True
            elif not any(isinstance(x, Ptr) for _, x, _ in per):
                lost.append((v, varying, per[0][2]))
        # values that correspond to nothing on the way in: state variables that no value stands for
        have = {c.v for (h, _), c in self.rel.items() if h == g}
        for v, varying, S in lost:
            lst = [Cand(n, 1, ()) for n in S if n not in have and n not in spec.cells and (n in spec.stable(s)) != varying]
            self.cands[(g, v)] = lst
            if lst:
                self.rel[(g, v)] = lst[0]
                self.weak[(g, v)] = True

    def tune(self, h, res):
        """choose candidates by how values change around the loop; True if a choice changed"""
        spec, code, s = self.spec, self.code, self.pair[h]
        back = [(c, r) for c, r in res if r[0] == ('head', h) and r[1] == s]
        changed = False
        for (g, v), lst in self.cands.items():
            if g != h or v is None or (len(lst) < 2 and (h, v) not in self.weak) or not lst:
                continue
            score, moved = {}, set()
            for c, r in back:
                D = dict(r[2])
                D.update(spec.derived(c, s, r[2]))
                x = r[6].get(v[:2], (None,))[0] if isinstance(v, tuple) else r[5].get(v)
                D0 = r[8]
                x0 = self.rel[(h, v)].value(D0, code.ptr_scale(self.rel[(h, v)]))
                if x is True or x is False:
                    x = const(int(x))
                if x is None or isinstance(x, Ptr) != isinstance(x0, Ptr):
                    continue
                for k, cd in enumerate(lst):
                    if cd.v is not None and spec.dontcare(c, cd.v, D):
                        score[k] = score.get(k, 0) + 1
                        continue
                    a, b = cd.value(D, code.ptr_scale(cd)), cd.value(D0, code.ptr_scale(cd))
                    if isinstance(x, Ptr):
                        if not (isinstance(a, Ptr) and x.base == a.base == x0.base):
                            continue
                        ok = c.same(sub(x.off, x0.off), sub(a.off, b.off))
                    else:
                        ok = not isinstance(a, Ptr) and c.same(sub(x, x0), sub(a, b))
                    score[k] = score.get(k, 0) + ok
                    if ok and not c.same(a.off if isinstance(a, Ptr) else a, b.off if isinstance(b, Ptr) else b):
                        moved.add(k)
            if score:
                best = max(score.values())
                cur = lst.index(self.rel[(h, v)]) if self.rel[(h, v)] in lst else -1
                if score.get(cur, 0) < best:
                    self.rel[(h, v)] = lst[min(k for k in score if score[k] == best)]
                    changed = True
                if (h, v) in self.weak and best == len(back) and lst.index(self.rel[(h, v)]) in moved:
                    self.weak[(h, v)] = False
        return changed

    def stored(self, body):
        out = set()
        f = self.code.f
        for b in body:
            for i in f.blocks[b].ins:
                if i.op in ("store", "call"):
                    for o in i.o:
                        d = f.defs.get(o) if isinstance(o, str) else None
                        while d is not None and d.op == "getelementptr":
                            d = f.defs.get(d.o[0])
                        if d is not None and d.op == "alloca" and (i.op == "store" and o == i.o[1] or i.op == "call"):
                            out.add(d.id)
        return out

    def candidates(self, s, per, varying, arr=False):
        spec = self.spec
        ok = []
        inv = spec.fixed_atoms()
        states = []
        for ctx, x, S in per:
            D = dict(S)
            D.update(spec.derived(ctx, s, S))
            states.append(D)
        isptr = isinstance(per[0][1], Ptr)
        base = per[0][1].base if isptr else None
        if any(isinstance(x, Ptr) != isptr or isptr and x.base != base for _, x, _ in per):
            return []
        xs = [x.off if isptr else x for _, x, _ in per]
        sc = self.code.ptr_unit(base) if isptr else 1
        names = [n for n in states[0]]
        res = []
        for n in names:
            for sg in (1, -1):
                cs = [sub(x, scale(D[n], sg * sc)) for x, D in zip(xs, states)]
                c, ex = self.vote(per, cs, inv, [spec.dontcare(ctx, n, D) for (ctx, _, _), D in zip(per, states)] if n in spec.cells else None)
                if c is not None:
                    stable = n in spec.stable(s)
                    cost = (0 if not c else 1 if not [a for a in atoms(c)] and sg == 1 and abs(isconst(c)) <= 1 else 2 if sg == -1 and atoms(c) else 3)
                    res.append((ex, (stable == varying) + 2 * ((n in spec.cells) != arr), cost, sg == -1, names.index(n), Cand(n, sg, c, base)))
        c, ex = self.vote(per, xs, inv)
        if c is not None:
            res.append((ex, varying + 2 * arr, 0 if not varying else 2, False, 99, Cand(None, 1, c, base)))
        # a loop variable with the wrong start: same variable, ignoring the start
        if not res:
            return []
        least = self.disagree = min(t[0] for t in res)                # edges that disagree
        res = [t for t in res if t[0] == least]
        res.sort(key=lambda t: t[1:5])
        return [t[5] for t in res]

    def vote(self, per, cs, inv, skip=None):
        """the value most edges agree on, and how many do not"""
        best = None
        if skip and any(skip):
            per, cs = [x for x, k in zip(per, skip) if not k], [x for x, k in zip(cs, skip) if not k]
            if not cs:
                return (), 0
        for i, c in enumerate(cs):
            if any(a not in inv for a in atoms(c)) or any(not sub(c, d) for d in cs[:i]):
                continue
            n = sum(not ctx.same(c, k) for (ctx, _, _), k in zip(per, cs))
            if best is None or n < best[1]:
                best = (c, n)
        if best is None or best[1] and 2 * best[1] > len(cs):
            return None, 0
        return best

    # -- checking one path
    def check(self, h, ctx, r):
        k, head, S, eff, seff, env, mem, last, _ = r
        spec, code = self.spec, self.code
        where = last.where() if last is not None else "?"
        cond = ctx.cond()
        tag = "" if not cond else " [when %s]" % cond
        src = "entry" if h is None else self.pair[h]
        if k[0] == 'stop':
            if ctx_dead(ctx):
                return []
            return [Fail("path", k[2].where() if k[2] is not None else where, "%s where the reference %s%s" % (k[1], spec.say(head), tag), src)]
        if k[0] == 'ret':
            v = k[1]
            iv = isconst(v)
            if head not in ('true', 'false'):
                if iv == 0:
                    return [Fail("path", where, "fails where the reference continues (%s)%s" % (spec.say(head), tag), src)]
                return [Fail("path", where, "returns where the reference continues (%s)%s" % (spec.say(head), tag), src)]
            want = 1 if head == 'true' else 0
            if iv is None:
                lo, hi = ctx.bounds(v)
                iv = lo if lo == hi else None
            if iv is None:
                return [Fail("undec", where, "answer not known", src)]
            if iv != want:
                return [Fail("path", where, "answers %s where the reference %s%s" % ("true" if iv else "false", spec.say(head), tag), src)]
            if want and not self.same_eff(ctx, eff, seff):
                return [Fail("path", where, "output differs: %s instead of %s%s" % (self.show_eff(eff), self.show_eff(seff), tag), src)]
            return []
        g = k[1]
        if self.pair[g] != head:
            if head == 'false':
                if spec.late_failure(ctx, self.pair[g]):
                    return []
                return [Fail("path", where, "continues (%s) where the reference fails%s" % (spec.say(self.pair[g]), tag), src)]
            return [Fail("path", where, "continues (%s) where the reference %s%s" % (spec.say(self.pair[g]), spec.say(head), tag), src)]
        out = []
        if not self.same_eff(ctx, eff, seff):
            out.append(Fail("path", where, "output differs: %s instead of %s%s" % (self.show_eff(eff), self.show_eff(seff), tag), src))
        D = dict(S)
        D.update(spec.derived(ctx, head, S))
        for n in list(self.inv[g]):
            if ctx.value(spec.inv(head)[n](S)) is not True:
                out.append(Fail("inv", where, "", g, n))
        for v in self.values(g, mem):
            x = mem.get(v[:2], (None,))[0] if isinstance(v, tuple) else env.get(v)
            if x is None:
                if (g, v) in self.rel:
                    out.append(Fail("rel", where, "undefined value", g, v))
                continue
            if (g, v) in self.free:
                continue
            cd = self.rel.get((g, v))
            if cd is None:
                out.append(Fail("norel", where, "no correspondence for a value (%s)" % self.name(v), g, v))
                continue
            if x is True or x is False:
                x = const(int(x))
            y = cd.value(D, code.ptr_scale(cd))
            ok = cd.v is not None and spec.dontcare(ctx, cd.v, D)
            if ok:
                pass
            elif isinstance(x, Ptr) == isinstance(y, Ptr):
                if isinstance(x, Ptr):
                    ok = x.base == y.base and ctx.same(x.off, y.off)
                else:
                    d = sub(x, y)
                    ok = ctx.same(x, y)
                    if not ok:
                        kk = isconst(d)
                        w = 8 * v[2] if isinstance(v, tuple) else width(code.f.defs[v].ty)
                        ok = kk is not None and kk % (1 << w) == 0
            if not ok:
                out.append(Fail("rel", self.defsite(v, g, where), "%s becomes %s where the reference has %s%s" % (
                    spec.varname(cd), self.sh(x), self.sh(y), tag), g, v))
        return out

    def defsite(self, v, g, where):
        return where

    def name(self, v):
        if isinstance(v, tuple):
            return "memory"
        d = self.code.f.defs.get(v)
        return d.where() if d is not None else v

    def sh(self, x):
        return repr(x) if isinstance(x, Ptr) else show(x)

    def same_eff(self, ctx, a, b):
        if self.spec.silent:
            return not a
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x[0] != y[0] or len(x) != len(y):
                return False
            for p, q in zip(x[1:], y[1:]):
                if not ctx.same(p, q):
                    return False
        return True

    def show_eff(self, e):
        return "; ".join("%s %s" % (x[0], " ".join(show(p) for p in x[1:])) for x in e) or "nothing"

    # -- solving
    def solve(self, tries=40):
        """first without the optional facts (tests made before the header), then with those that are inductive"""
        best, err = None, None
        self.rounds = 0
        for full in (False, True):
            none = {h: set() for h in self.pair}
            every = {h: set(range(len(self.spec.inv(s)))) for h, s in self.pair.items()}
            self.inv = every if full else none
            fresh = best is None
            if not fresh:
                self.rel = dict(best[2])
            tried = set()
            n = tries if self.ahead == 0 else 8
            try:
                while n > 0:
                    n -= 1
                    self.rounds += 1
                    if fresh and full:
                        self.rel, self.cands, self.tuned, self.weak = {}, {}, set(), {}
                    fails = self.all_edges()
                    iv = {(f.head, f.val) for f in fails if f.kind == "inv"}
                    if iv:
                        for h, x in iv:
                            self.inv[h].discard(x)
                        n += 1
                        continue
                    fresh = False
                    tried.add(tuple(sorted((str(k), repr(c)) for k, c in self.rel.items())))
                    score = len({f.key() for f in fails})
                    if best is None or score < best[0]:
                        best = (score, fails, dict(self.rel), {h: set(s) for h, s in self.inv.items()}, self.good, set(self.seen))
                    if not fails or self.spent():
                        break
                    nxt = self.alternative(fails, self.rel, tried)
                    if nxt is None:
                        break
                    self.rel = nxt
                    if full:
                        self.inv = {h: set(s) for h, s in every.items()}
            except Undec as e:
                err = err or e
            if best is not None and not best[1] or self.spent():
                break
        if best is not None and best[1]:
            # what has no convincing correspondence is taken as unknown
            free = {k for k in best[2] if self.weak.get(k)}
            free |= {k for k in self.cands if k[1] is not None and k not in best[2] and self.isint(k[1])}
            if free:
                self.free, self.rel, self.inv = free, dict(best[2]), {h: set(s) for h, s in best[3].items()}
                try:
                    while True:
                        fails = self.all_edges()
                        iv = {(f.head, f.val) for f in fails if f.kind == "inv"}
                        if not iv:
                            break
                        for h, x in iv:
                            self.inv[h].discard(x)
                    score = len({f.key() for f in fails})
                    if not fails or not all(f.soft for f in fails):
                        best = (score, fails, dict(self.rel), {h: set(s) for h, s in self.inv.items()}, self.good, set(self.seen))
                    else:
                        self.free = set()
                except Undec:
                    self.free = set()
        if best is None:
            raise err or Undec("time is up")
        self.rel, self.inv, self.good, self.seen = best[2], best[3], best[4], best[5]
        self.best = best
        return best[1]

    deadline = None
    ahead = 0                                   # further steps of the reference within one path of the function

    def spent(self):
        return self.deadline is not None and time.time() > self.deadline

    def cands_keep(self):
        pass

    def alternative(self, fails, rel, tried):
        keys = []
        for f in fails:
            if f.kind in ("rel", "norel") and (f.head, f.val) in self.cands and (f.head, f.val) not in keys:
                keys.append((f.head, f.val))
        for k in list(keys):
            for k2 in self.cands:
                if k2[1] is not None and k2[0] == k[0] and k2 not in keys:
                    keys.append(k2)
        for k in keys:
            for c in self.cands.get(k, ())[:6]:
                r = dict(rel)
                if r.get(k) == c:
                    continue
                r[k] = c
                sig = tuple(sorted((str(a), repr(b)) for a, b in r.items()))
                if sig not in tried:
                    return r
        return None


def ctx_bool(ctx, x):
    k = isconst(x)
    return bool(k) if k is not None else x


def ctx_dead(ctx):
    return False


def code_run_body(code, h):
    """run the body of header block h (phis set), then continue"""
    f = code.f
    bl = f.blocks[h]
    for i in bl.ins:
        if i.op == "phi":
            continue
        code.last = i
        if i.op == "br":
            nxt = i.x["succ"][0] if not i.o else i.x["succ"][0 if code.truth(code.val(i.o[0])) else 1]
            return code.run(nxt, h)
        if i.op == "switch":
            x = code.uns(code.num(i.o[0]), width(i.x.get("oty") or "i32"))
            nxt = i.x["def"]
            for cv, t in i.x["cases"]:
                if code.ctx.eq(x, const(int(cv.split(":")[2]))):
                    nxt = t
                    break
            return code.run(nxt, h)
        if i.op == "ret":
            return ('ret', code.as_poly(code.val(i.o[0])) if i.o else None)
        if i.op == "unreachable":
            raise Stop("reaches an impossible point", i)
        code.env[i.id] = code.ins(i)
