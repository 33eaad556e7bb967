"""Symbolic-constant / linear-form value domain with interval-set evaluation.

A term is a hashable tuple.  Integers are modulo 2^w; pointers are 64-bit terms whose
object base is one of the atoms of a linear form.
  ('k', w, v)                 constant
  ('s', w, kind, ...)         symbol (input, loop counter, call result, ...)
  ('+', w, c, ((atom,k),..))  linear form
  ('o', w, op, a, b)          other binary operation
  ('z'|'x'|'t', w, a)         zext / sext / trunc
  ('c', 1, pred, a, b)        comparison, pred in eq ult ule slt sle
  ('!', 1, a)                 boolean negation
  ('ld', w, addr, ver)        memory read
"""


def K(w, v):
    return ('k', w, v & ((1 << w) - 1))


TRUE, FALSE = K(1, 1), K(1, 0)


def is_k(t):
    return t[0] == 'k'


def sgn(w, v):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def parts(t):
    """term -> (const, {atom: coef})"""
    if t[0] == 'k':
        return t[2], {}
    if t[0] == '+':
        return t[2], dict(t[3])
    return 0, {t: 1}


def mklin(w, c, d):
    m = (1 << w) - 1
    c &= m
    it = [(a, k & m) for a, k in d.items() if k & m]
    if not it:
        return ('k', w, c)
    if len(it) == 1 and it[0][1] == 1 and c == 0:
        return it[0][0]
    it.sort(key=repr)
    return ('+', w, c, tuple(it))


def add(w, a, b):
    if a[0] == 'k' and a[2] == 0:
        return b
    if b[0] == 'k' and b[2] == 0:
        return a
    ca, da = parts(a)
    cb, db = parts(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0) + k
    return mklin(w, ca + cb, d)


def scale(w, a, k):
    c, d = parts(a)
    return mklin(w, c * k, {x: v * k for x, v in d.items()})


def sub(w, a, b):
    return add(w, a, scale(w, b, -1))


def popmask(v):
    return v != 0 and (v & (v + 1)) == 0


def binop(op, w, a, b):
    m = (1 << w) - 1
    if is_k(a) and is_k(b):
        x, y = a[2], b[2]
        try:
            if op == 'add': return K(w, x + y)
            if op == 'sub': return K(w, x - y)
            if op == 'mul': return K(w, x * y)
            if op == 'and': return K(w, x & y)
            if op == 'or': return K(w, x | y)
            if op == 'xor': return K(w, x ^ y)
            if op == 'shl' and y < w: return K(w, x << y)
            if op == 'lshr' and y < w: return K(w, x >> y)
            if op == 'ashr' and y < w: return K(w, sgn(w, x) >> y)
            if op == 'udiv' and y: return K(w, x // y)
            if op == 'urem' and y: return K(w, x % y)
            if op in ('sdiv', 'srem') and y:
                p, q = sgn(w, x), sgn(w, y)
                d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                return K(w, d if op == 'sdiv' else p - d * q)
        except Exception:
            pass
        return ('o', w, op, a, b)
    if op == 'add': return add(w, a, b)
    if op == 'sub': return sub(w, a, b)
    if op == 'mul':
        if is_k(b): return scale(w, a, b[2])
        if is_k(a): return scale(w, b, a[2])
    if op == 'shl' and is_k(b) and b[2] < w: return scale(w, a, 1 << b[2])
    if op in ('and', 'or', 'xor', 'mul') and (is_k(a) or (not is_k(b) and repr(a) > repr(b))):
        a, b = b, a  # constants to the right
    if op == 'and':
        if is_k(b):
            if b[2] == 0: return K(w, 0)
            if b[2] == m: return a
            if a[0] == 'o' and a[2] == 'and' and is_k(a[4]): return binop('and', w, a[3], K(w, a[4][2] & b[2]))
            if a[0] == 'z' and w > 1:
                iw = a[2][1]
                if b[2] & ((1 << iw) - 1) == (1 << iw) - 1: return a
                if b[2] >> iw: return binop('and', w, a, K(w, b[2] & ((1 << iw) - 1)))
        if a == b: return a
    if op == 'or':
        if is_k(b) and b[2] == 0: return a
        if a == b: return a
    if op == 'xor':
        if is_k(b) and b[2] == 0: return a
        if a == b: return K(w, 0)
        if w == 1 and is_k(b): return neg(a)
    if w == 1 and op == 'and':
        if is_k(b): return a if b[2] else FALSE
    if w == 1 and op == 'or':
        if is_k(b): return TRUE if b[2] else a
    if op in ('sdiv', 'udiv') and is_k(b) and b[2]:
        if b[2] == 1: return a
        c, d = parts(a)
        q = b[2]
        if not is_k(a) and all(sgn(w, k) % q == 0 for k in d.values()) and sgn(w, c) % q == 0 and a[0] == '+':
            # exact division of a pointer/size difference (no wrap: object sizes)
            return mklin(w, sgn(w, c) // q, {x: sgn(w, k) // q for x, k in d.items()})
    if op in ('udiv',) and is_k(b) and b[2] and (b[2] & (b[2] - 1)) == 0:
        return binop('lshr', w, a, K(w, b[2].bit_length() - 1))
    if op == 'urem' and is_k(b) and b[2] and (b[2] & (b[2] - 1)) == 0:
        return binop('and', w, a, K(w, b[2] - 1))
    if op in ('lshr', 'ashr') and is_k(b):
        if b[2] == 0: return a
        if op == 'lshr' and a[0] == 'o' and a[2] == 'lshr' and is_k(a[4]):
            n = a[4][2] + b[2]
            return K(w, 0) if n >= w else binop('lshr', w, a[3], K(w, n))
    return ('o', w, op, a, b)


def neg(a):
    if is_k(a): return K(1, 1 - a[2])
    if a[0] == '!': return a[2]
    if a[0] == 'c' and a[2] in ('ult', 'ule', 'slt', 'sle'):
        p = {'ult': 'ule', 'ule': 'ult', 'slt': 'sle', 'sle': 'slt'}[a[2]]
        return ('c', 1, p, a[4], a[3])
    return ('!', 1, a)


def is_ptr_atom(a):
    return a[0] == 's' and a[2] in ('ptr', 'al', 'ga', 'gp', 'sdata', 'argp', 'nullp')


def ptr_base(t):
    _, d = parts(t)
    bs = [a for a, k in d.items() if is_ptr_atom(a) and k == 1]
    return bs[0] if len(bs) == 1 else None


def cmp(pred, a, b):
    """Canonical comparison term (boolean)."""
    if pred == 'ne': return neg(cmp('eq', a, b))
    if pred in ('ugt', 'uge', 'sgt', 'sge'):
        return cmp({'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred], b, a)
    w = a[1]
    if a == b: return TRUE if pred in ('eq', 'ule', 'sle') else FALSE
    if is_k(a) and is_k(b):
        x, y = a[2], b[2]
        if pred[0] == 's': x, y = sgn(w, x), sgn(w, y)
        return K(1, int(x == y if pred == 'eq' else x < y if pred in ('ult', 'slt') else x <= y))
    # same-object pointer comparison: compare offsets
    pa, pb = ptr_base(a), ptr_base(b)
    if pa is not None and pa == pb:
        base = pa
        oa, ob = sub(w, a, base), sub(w, b, base)
        return cmp({'ult': 'ult', 'ule': 'ule'}.get(pred, pred), *reduce_common(w, oa, ob))
    if pred == 'eq':
        if w == 1:
            if is_k(b): return a if b[2] else neg(a)
            if is_k(a): return b if a[2] else neg(b)
        if is_k(a): a, b = b, a
        # widen-of-narrow against constant
        if is_k(b) and a[0] in 'zx':
            n = a[2]
            nb = b[2] & ((1 << n[1]) - 1)
            back = nb if a[0] == 'z' else sgn(n[1], nb) & ((1 << w) - 1)
            if back != b[2]: return FALSE
            return cmp('eq', n, K(n[1], nb))
        if is_k(b) and a[0] == '+':
            # x*1 + c == k  -> x == k-c
            c, d = parts(a)
            if len(d) == 1:
                (x, k), = d.items()
                if k == 1: return cmp('eq', x, K(w, b[2] - c))
                if k == (1 << w) - 1: return cmp('eq', x, K(w, c - b[2]))
        if not is_k(b):
            a, b = reduce_common(w, a, b)
            if is_k(a): a, b = b, a
            if repr(a) > repr(b) and not is_k(b): a, b = b, a
            if a == b: return TRUE
            if is_k(a) and is_k(b): return K(1, int(a[2] == b[2]))
        return ('c', 1, 'eq', a, b)
    if is_k(b) and a[0] == 'z':
        n = a[2]
        if pred in ('ult', 'ule') or (pred in ('slt', 'sle') and sgn(w, b[2]) >= 0):
            mx = (1 << n[1]) - 1
            if pred in ('ult', 'slt') and b[2] > mx: return TRUE
            if pred in ('ule', 'sle') and b[2] >= mx: return TRUE
            return cmp('u' + pred[1:], n, K(n[1], b[2]))
        if pred in ('slt', 'sle') and sgn(w, b[2]) < 0: return FALSE
    if is_k(a) and b[0] == 'z':
        n = b[2]
        if pred in ('ult', 'ule') or (pred in ('slt', 'sle') and sgn(w, a[2]) >= 0):
            mx = (1 << n[1]) - 1
            if a[2] > mx or (pred[1:] == 'lt' and a[2] == mx): return FALSE
            return cmp('u' + pred[1:], K(n[1], a[2]), n)
        if pred in ('slt', 'sle') and sgn(w, a[2]) < 0: return TRUE
    if a[0] == 'z' and b[0] == 'z' and a[2][1] == b[2][1]:
        return cmp('u' + pred[1:], a[2], b[2])
    if is_k(b) and b[2] == 0 and pred == 'ult': return FALSE
    if is_k(a) and a[2] == 0 and pred == 'ule': return TRUE
    if is_k(b) and b[2] == 1 and pred == 'ult': return cmp('eq', a, K(w, 0))
    if is_k(b) and b[2] == 0 and pred == 'ule': return cmp('eq', a, b)
    if is_k(a) and a[2] == 0 and pred == 'ult': return neg(cmp('eq', b, a))
    return ('c', 1, pred, a, b)


def reduce_common(w, a, b):
    """Cancel common atoms and common factor of two linear forms (no-wrap quantities)."""
    ca, da = parts(a)
    cb, db = parts(b)
    for x in list(da):
        if x in db and da[x] == db[x]:
            del da[x]
            del db[x]
    c = sgn(w, (ca - cb) & ((1 << w) - 1))
    from math import gcd
    g = abs(c)
    for k in list(da.values()) + list(db.values()):
        g = gcd(g, abs(sgn(w, k)))
    g = g or 1
    da = {x: sgn(w, k) // g for x, k in da.items()}
    db = {x: sgn(w, k) // g for x, k in db.items()}
    c //= g
    ca, cb = (c, 0) if c >= 0 else (0, -c)
    return mklin(w, ca, da), mklin(w, cb, db)


def zext(w, a):
    if is_k(a): return K(w, a[2])
    if a[0] == 'z': return ('z', w, a[2])
    if a[1] == w: return a
    return ('z', w, a)


def sext(w, a):
    if is_k(a): return K(w, sgn(a[1], a[2]))
    if a[0] == 'z': return ('z', w, a[2])
    if a[0] == 'x': return ('x', w, a[2])
    if a[1] == w: return a
    return ('x', w, a)


def trunc(w, a):
    if is_k(a): return K(w, a[2])
    if a[1] == w: return a
    if a[0] in 'zx':
        n = a[2]
        if n[1] == w: return n
        if n[1] > w: return trunc(w, n)
        return (a[0], w, n)
    if a[0] == 't': return ('t', w, a[2])
    if a[0] == 'o' and a[2] in ('and', 'or', 'xor'):
        return binop(a[2], w, trunc(w, a[3]), trunc(w, a[4]))
    if a[0] == '+':
        return _trunc_lin(w, a)
    return ('t', w, a)


def _trunc_lin(w, a):
    r = K(w, a[2])
    for x, k in a[3]:
        r = add(w, r, scale(w, trunc(w, x), k))
    return r


def subterms(t):
    yield t
    k = t[0]
    if k == '+':
        for x, _ in t[3]:
            yield from subterms(x)
    elif k == 'o':
        yield from subterms(t[3])
        yield from subterms(t[4])
    elif k in 'zxt!':
        yield from subterms(t[2])
    elif k == 'c':
        yield from subterms(t[3])
        yield from subterms(t[4])
    elif k == 'ld':
        yield from subterms(t[2])


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, f):
    """Rebuild a term bottom-up; f(atom) returns a replacement or None."""
    r = f(t)
    if r is not None:
        return r
    k = t[0]
    if k in ('k', 's'):
        return t
    if k == '+':
        acc = K(t[1], t[2])
        for x, c in t[3]:
            acc = add(t[1], acc, scale(t[1], subst(x, f), c))
        return acc
    if k == 'o':
        return binop(t[2], t[1], subst(t[3], f), subst(t[4], f))
    if k == 'z': return zext(t[1], subst(t[2], f))
    if k == 'x': return sext(t[1], subst(t[2], f))
    if k == 't': return trunc(t[1], subst(t[2], f))
    if k == '!': return neg(subst(t[2], f))
    if k == 'c': return cmp(t[2], subst(t[3], f), subst(t[4], f))
    if k == 'ld': return ('ld', t[1], subst(t[2], f), t[3])
    return t


# ---------------------------------------------------------------- interval sets
def iset(*rs):
    rs = sorted((a, b) for a, b in rs if a <= b)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def full(w):
    return ((0, (1 << w) - 1),)


def inter(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        a, b = max(x[i][0], y[j][0]), min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def union(x, y):
    return iset(*(tuple(x) + tuple(y)))


def compl(x, w):
    out, p = [], 0
    for a, b in x:
        if p < a:
            out.append((p, a - 1))
        p = b + 1
    if p < (1 << w):
        out.append((p, (1 << w) - 1))
    return tuple(out)


def subset(x, y):
    return inter(x, y) == tuple(x)


def count(x):
    return sum(b - a + 1 for a, b in x)


def show(t):
    k = t[0]
    if k == 'k': return str(sgn(t[1], t[2]) if t[1] > 8 else t[2])
    if k == 's': return ".".join(str(x) for x in t[2:])
    if k == '+':
        s = [("%d*" % sgn(t[1], c) if c != 1 else "") + show(x) for x, c in t[3]]
        if t[2]: s.append(str(sgn(t[1], t[2])))
        return "(" + " + ".join(s) + ")"
    if k == 'o': return "(%s %s %s)" % (show(t[3]), t[2], show(t[4]))
    if k in 'zxt': return {"z": "zext", "x": "sext", "t": "trunc"}[k] + str(t[1]) + "(" + show(t[2]) + ")"
    if k == '!': return "!" + show(t[2])
    if k == 'c': return "(%s %s %s)" % (show(t[3]), {"eq": "==", "ult": "<u", "ule": "<=u", "slt": "<s", "sle": "<=s"}[t[2]], show(t[4]))
    if k == 'ld': return "[%s]" % show(t[2])
    return str(t)
