"""Integer polynomials over atoms, and abstract states that bound them.

Atoms are symbols, elements of the input sequence and floor quotients; everything else the analysed programs compute
is a polynomial over them (a remainder is  P - Q*(P div Q)).  Comparisons become inequalities  P > 0  in a canonical
form (quotients eliminated:  R > A div Q  iff  R*Q > A), so that code which states a test in another way gives the same
inequality.  A state has an interval per atom and a set of inequalities; a test that neither decides splits the state."""
import time
from math import gcd

_ids, _atoms = {}, []


def atom(*a):
    k = _ids.get(a)
    if k is None:
        k = _ids[a] = len(_atoms)
        _atoms.append(a)
    return k


def info(k):
    return _atoms[k]


class Undec(Exception):
    pass


class Dead(Exception):
    """the assumptions of a path contradict each other"""


# a polynomial is a sorted tuple of (monomial, coefficient); a monomial is a sorted tuple of atom ids
def mk(d):
    return tuple(sorted((m, c) for m, c in d.items() if c))


def const(c):
    return (((), c),) if c else ()


def var(*a):
    return (((atom(*a),), 1),)


def sym(n):
    return var('s', n)


def add(*ps):
    d = {}
    for p in ps:
        for m, c in p:
            d[m] = d.get(m, 0) + c
    return mk(d)


def scale(p, k):
    return tuple((m, c * k) for m, c in p) if k else ()


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            k = tuple(sorted(m + n))
            d[k] = d.get(k, 0) + c * e
    return mk(d)


def isconst(p):
    if not p:
        return 0
    if len(p) == 1 and p[0][0] == ():
        return p[0][1]
    return None


def atoms(p):
    return {a for m, _ in p for a in m}


def show(p):
    def at(k):
        a = info(k)
        if a[0] == 's':
            return a[1]
        if a[0] == 'rd':
            return "%s[%s]" % (a[1], show(a[2]))
        return "(%s)/(%s)" % (show(a[1]), show(a[2]))
    out = []
    for m, c in sorted(p, key=lambda x: (len(x[0]) == 0, x)):
        s = "*".join(at(k) for k in m)
        t = s if c == 1 and s else ("-" + s if c == -1 and s else ("%d*%s" % (c, s) if s else str(c)))
        out.append(t if not out or t[0] == '-' else "+" + t)
    return "".join(out) or "0"


class Ctx:
    """one path: intervals, inequalities F <= 0, and the decisions taken (replayed from a prefix)"""

    def __init__(self, prefix=()):
        self.box, self.facts, self.prefix, self.taken, self.alts = {}, [], prefix, [], []
        self.fset = set()
        self.known = {}
        self._c = {}
        self.trail = []

    # -- decisions
    def choose(self):
        n = len(self.taken)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            v = True
            self.alts.append(tuple(self.taken) + (False,))
        self.taken.append(v)
        return v

    # -- bounds
    def set(self, p, lo, hi):
        (m, c), = p
        self.box[m[0]] = (lo, hi)
        self._c = {}

    def rng(self, k):
        if k in self.box:
            return self.box[k]
        a = info(k)
        if a[0] == 'rd':
            return (0, 255) if a[1] == 'in' else (0, 0xffffffff)
        if a[0] == 'div':
            (l, h), (ql, qh) = self.ivl(a[1]), self.ivl(a[2])
            ql, l = max(ql, 1), max(l, 0)
            return (l // qh if qh and qh > 0 else 0, max(h, 0) // ql)
        return (-1 << 70, 1 << 70)

    def ivl(self, p):
        """exact over the box if multilinear (corners), intervals otherwise"""
        if not p:
            return (0, 0)
        r = self._c.get(p)
        if r:
            return r
        ks = sorted(atoms(p))
        lin = all(len(set(m)) == len(m) for m, _ in p)
        if lin and len(ks) <= 7 and any(len(m) > 1 for m, _ in p):
            lo = hi = None
            b = [self.rng(k) for k in ks]
            ix = {k: i for i, k in enumerate(ks)}
            for bits in range(1 << len(ks)):
                s = 0
                for m, c in p:
                    for k in m:
                        c *= b[ix[k]][bits >> ix[k] & 1]
                    s += c
                lo = s if lo is None or s < lo else lo
                hi = s if hi is None or s > hi else hi
        else:
            lo = hi = 0
            for m, c in p:
                l = h = c
                for k in m:
                    x, y = self.rng(k)
                    q = (l * x, l * y, h * x, h * y)
                    l, h = min(q), max(q)
                lo, hi = lo + l, hi + h
        self._c[p] = (lo, hi)
        return (lo, hi)

    def bounds(self, p):
        lo, hi = self.ivl(p)
        ks = atoms(p)
        for f in self.facts:
            if ks & atoms(f):
                hi = min(hi, self.ivl(sub(p, f))[1])
                lo = max(lo, self.ivl(add(p, f))[0])
        return lo, hi

    # -- inequalities
    def canon(self, p):
        """p > 0, quotients eliminated, coefficients reduced"""
        for _ in range(4):
            for k in sorted(atoms(p)):
                a = info(k)
                if a[0] != 'div':
                    continue
                c = [(m, x) for m, x in p if k in m]
                if len(c) != 1 or c[0][0] != (k,) or abs(c[0][1]) != 1 or self.ivl(a[2])[0] <= 0:
                    continue
                r = sub(p, (c[0],))
                if c[0][1] == -1:
                    p = sub(mul(r, a[2]), a[1])
                else:
                    p = add(a[1], mul(sub(r, const(1)), a[2]), const(1))
                break
            else:
                break
        g = 0
        k0 = 0
        for m, c in p:
            if m:
                g = gcd(g, abs(c))
            else:
                k0 = c
        if g > 1:
            q = tuple((m, c // g) for m, c in p if m)
            p = add(q, const(-((1 - k0 + g - 1) // g) + 1))
        return p

    def value(self, p):
        """True / False / None for p > 0"""
        for q in (p, self.canon(p)):
            lo, hi = self.ivl(q)
            if lo > 0:
                return True
            if hi <= 0:
                return False
        ks = atoms(q)
        pr = [q] if q == p else [p, q]
        for x in pr:
            for f in self.facts:
                if atoms(x) & atoms(f):
                    if self.ivl(sub(x, f))[1] <= 0:
                        return False
                    if self.ivl(add(x, f))[0] > 0:
                        return True
        rel = [f for f in self.facts if ks & atoms(f)]
        for i, f in enumerate(rel):
            for g in self.facts:
                if g is f:
                    continue
                fg = add(f, g)
                if self.ivl(sub(q, fg))[1] <= 0:
                    return False
                if self.ivl(add(q, fg))[0] > 0:
                    return True
        return None

    def assume(self, p):
        """p > 0 holds"""
        if self.value(p) is False:
            raise Dead()
        self.learn(p)

    def learn(self, p):
        q = self.canon(p)
        ks = atoms(q)
        if len(ks) == 1 and all(len(m) <= 1 for m, _ in q):
            k, = ks
            c = dict(q)[(k,)]
            d = dict(q).get((), 0)
            lo, hi = self.rng(k)
            if c > 0:                                   # c*x + d >= 1
                lo = max(lo, -((d - 1) // c))
            else:
                hi = min(hi, (d - 1) // -c)
            self.box[k] = (lo, hi)
            self._c = {}
            return
        f = sub(const(1), q)
        if f not in self.fset:
            self.fset.add(f)
            self.facts.append(f)

    def gt0(self, p, tag=None):
        v = self.value(p)
        if v is None:
            v = self.choose()
            self.trail.append((p, v))
            self.learn(p if v else sub(const(1), p))
        return v

    def ge(self, a, b):
        return self.gt0(add(sub(a, b), const(1)))

    def gt(self, a, b):
        return self.gt0(sub(a, b))

    def eq(self, a, b):
        d = sub(a, b)
        lo, hi = self.ivl(d)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        if lo < 0 and self.gt0(scale(d, -1)):
            return False
        return not (hi > 0 and self.gt0(d))

    def same(self, a, b):
        """known to be equal, without splitting"""
        d = sub(a, b)
        return not d or self.bounds(d) == (0, 0)

    def div(self, a, q):
        ca, cq = isconst(a), isconst(q)
        if cq == 1 or ca == 0:
            return a
        if ca is not None and cq is not None and cq > 0 and ca >= 0:
            return const(ca // cq)
        if self.bounds(a)[0] < 0 and self.value(add(a, const(1))) is not True:
            raise Undec("quotient of a value that may be negative: " + show(a))
        if self.bounds(q)[0] <= 0:
            raise Undec("quotient by a value that may not be positive: " + show(q))
        if self.value(sub(q, a)) is True:
            return ()
        p = var('div', a, q)
        k = p[0][0][0]
        if k not in self.box:
            (l, h), (ql, qh) = self.bounds(a), self.bounds(q)
            self.box[k] = (max(l, 0) // qh, max(h, 0) // max(ql, 1))
            self._c = {}
        for f in (sub(mul(q, p), a), add(a, scale(mul(q, p), -1), scale(q, -1), const(1))):
            if f not in self.fset:
                self.fset.add(f)
                self.facts.append(f)
        return p

    def mod(self, a, q):
        return sub(a, mul(q, self.div(a, q)))

    def cond(self):
        """readable path condition"""
        return ", ".join("%s > 0" % show(p if v else sub(const(1), p)) for p, v in self.trail[-4:])


DEADLINE = [None]


def explore(run, limit=6000):
    """all paths of run(ctx)"""
    work, out = [()], []
    while work:
        if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
            raise Undec("out of time")
        c = Ctx(work.pop())
        try:
            out.append((c, run(c)))
        except Dead:
            pass
        work += c.alts
        if len(out) > limit:
            raise Undec("too many paths")
    return out
