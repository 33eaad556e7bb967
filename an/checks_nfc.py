"""C28, C36: canonical composition and the check that a string is normalized already."""
import numpy as np
import ir, tables, vec, units, nfc, store
from ir import AnalysisError
from boxes import Undecided
from vec import CP, TOP
from units import N, X, uni, flags, u, ul, some
from checks import prop, TRUST
from checks_labels import digest
from checks_units import guarded, anchor

COMP = "idna::compose(u32string&)"
_c = {}


def reference():
    """(pairs: (first, second) -> composite, pairs whose composite is newer than Unicode 15, combining classes)"""
    if not _c:
        late = flags(uni()["late"])
        pairs = {tuple(p): int(c) for c, p in uni()["comp"].items() if p}
        ccc = np.zeros(N, np.int64)
        for c, k in uni()["ccc"].items():
            ccc[int(c)] = k
        old = ccc.copy()
        old[late] = 0
        _c.update(pairs=pairs, late={p for p, c in pairs.items() if late[c]}, ccc=old)
    return _c


def library_ccc(R, m, cfg):
    """classes as get_ccc computes them (C35 compares them with Unicode)"""
    from checks_units import CCC as G, result_lanes
    f = anchor(R, m, G, "src/normalization.cpp (get_ccc)")
    if f is None:
        return None
    v = units.machine(m, G, units=None)
    v.args[0] = units.big(v, np.arange(N))
    v.explore()
    if v.cuts:
        raise Undecided("get_ccc")
    return np.maximum(result_lanes(v), 0)


def triples(ccc, pairs):
    """starter, next unit, previous class"""
    firsts = sorted({a for a, b in pairs})
    comps = sorted(set(pairs.values()))
    st = sorted(set(firsts) | set(comps) | {0x41, 0x2C, 0x10FFFF, 0x0301})
    st = [c for c in st]
    sec = sorted({b for a, b in pairs})
    ys = set(sec) | {b + 1 for b in sec} | {b - 1 for b in sec} | {0, CP, CP - 1, 0x1161, 0x11A8}
    for k in range(256):
        z = np.nonzero(ccc == k)[0]
        ys |= {int(c) for c in z[:2]}
    ys = sorted(ys)
    S, Y, P = [], [], []
    for y in ys:
        k = int(ccc[y])
        pv = sorted({-1, k - 1, k, k + 1, 254} - {-2, 0, 255, 256})       # a unit of class 0 is never in between
        S += st * len(pv)
        Y += [y] * (len(st) * len(pv))
        for p in pv:
            P += [p] * len(st)
    return np.array(S), np.array(Y), np.array(P)


HANGUL = lambda c: 0xAC00 <= c < 0xAC00 + 11172


def dict_phis(v, o):
    return o.phis


@prop("C36")
def c36(R, tier):
    R.rule("compose replaces the current starter by the primary composite with the next unit exactly if Unicode has one for the pair and the last unit kept after the starter has a lower class than it")
    R.rule("every other unit is copied once, in order; L+V and L+V+T give the Hangul syllable; the result is cut to what was written")
    R.notes += TRUST + ["tables are initialised (C09, C10)", "input of compose is decomposed and ordered (C25, C35): precomposed Hangul syllables do not occur",
                        "reference: primary composites of Unicode 17 (node ICU)",
                        "the next unit enters the inner loop only through comparisons with table entries, its class and copies (checked), so one unit per interval of second characters and class stands for all"]
    for cfg in (["host"] if tier == "quick" else ["host", "be"]):
        guarded(R, "src/normalization.cpp (compose)", compose_check, R, cfg)
    R.need("triples of starter, unit and class", 200000)
    R.need("composition pairs", 900)


def same(v, n, o, p, want_t, want_a=None):
    """mask over the lanes of an outcome: carried value p is want"""
    x = o.phis[p]
    t = np.broadcast_to(x.t, n)
    a = np.broadcast_to(np.asarray(x.a, np.uint64), n)
    return (t == want_t) if want_a is None else (t == want_t) & (a == want_a)


def delta(v, o, pid, base):
    """change of a position relative to the symbol: int, per-lane array, or None"""
    x = o.phis[pid]
    t = v.F.id({base: 1})
    if (np.asarray(x.t) != t).any():
        return None
    a = x.a
    if isinstance(a, np.ndarray):
        return v.signed(a.copy(), 64)
    return vec.sgn(a, 64)


def uses_ok(f, ids, ccc):
    """the loaded next unit is only compared with other loads, passed to get_ccc, stored or copied"""
    seen, work = set(ids), list(ids)
    while work:
        x = work.pop()
        for i in f.instrs():
            if x not in i.o and not (i.op == 'phi' and any(v == x for v, _ in i.x["in"])):
                continue
            if i.op == 'icmp':
                other = i.o[1] if i.o[0] == x else i.o[0]
                j = f.defs.get(other)
                if j is None or j.op != 'load':
                    return i
            elif i.op == 'store' and i.o[0] == x:
                pass
            elif i.op in ('call', 'invoke') and i.callee.startswith(ccc):
                pass
            elif i.op in ('phi', 'select', 'freeze'):
                if i.id not in seen:
                    seen.add(i.id)
                    work.append(i.id)
            else:
                return i
    return None


def compose_check(R, cfg):
    m = ir.load_module(cfg, keep="keep_norm.txt")
    f = anchor(R, m, COMP, "src/normalization.cpp (compose)")
    if f is None:
        return
    ccc = library_ccc(R, m, cfg)
    if ccc is None:
        return
    ref = reference()
    pairs = ref["pairs"]
    C = nfc.Compose(m, COMP, obj=(0,))
    C.classes(ccc)
    C.outer()
    v = C.v
    R.functions.add("%s [%s]" % (f.short, cfg))
    OBJ = ('buf', ('obj', 0))
    SZ = ('sz', ('obj', 0), 0)
    ow = f.blocks[C.h1].ins[0].where()
    iw = f.blocks[C.h2].ins[0].where()
    phis = [p for p in f.blocks[C.h1].phis()]
    ip = v.rphi[1]
    S, Y, P = triples(ccc, pairs)
    w = C.inner(S, Y, P)
    if C.kphi is None:
        raise Undecided("write position of the inner loop")
    kp = C.ksym[1]
    if set(p.id for p in phis) != {ip, kp}:
        raise Undecided("other values carried by the outer loop")
    R.states += sum(len(r.out) for r in v.runs + w.runs)
    for r in v.runs + w.runs:
        for e in r.events:
            if e.kind in ('wild', 'clear') or (e.kind == 'call') or (e.kind == 'write' and e.obj != OBJ):
                raise Undecided("an effect that is not understood at %s" % e.ins.where())
    bad = uses_ok(f, list(w.reads), nfc.CCC)
    if bad is not None:
        raise Undecided("the next unit is used otherwise at %s" % bad.where())
    for ww, msg in sorted(set(v.finds)):
        R.bad(ww, msg)
    if any(w.finds):
        R.unsure(iw, "%s: %s" % w.finds[0])
    # start and end
    for o in [o for k, o in v.starts.items() if k[0] == C.h1]:
        for p in (ip, kp):
            x = o.phis[p]
            R.ob(None if not x.const() else x.a == 0, ow, "composition does not start at the first unit")
    KI, II = v.F.id({('phi', kp): 1}), v.F.id({('phi', ip): 1})
    endf, eg = v.canon({SZ: 1, ('phi', ip): -1})
    for r in v.runs:
        if r.head != C.h1:
            continue
        for o in r.out:
            if o.kind == 'ret':
                lo, hi = v.bounds(endf, r)
                lo, hi = (lo, hi) if eg > 0 else (None if hi is None else -hi, None if lo is None else -lo)
                R.ob(hi is not None and hi <= 0, o.ins.where(), "units at the end of the string are not looked at")
                sz = o.mem.get(('size', ('obj', 0)))
                kf, kg = v.canon({('phi', ip): 1, ('phi', kp): -1})
                lo, hi = v.bounds(kf, r)
                lo, hi = (lo, hi) if kg > 0 else (None if hi is None else -hi, None if lo is None else -lo)
                resized = [e for e in r.events if e.kind == 'resize']
                if resized:
                    x = resized[-1].val
                    R.ob(None if not x.scalar() else (x.t, x.a) == (KI, 0), resized[-1].ins.where(), "the result is not cut to the units that were written")
                else:
                    R.ob(hi is not None and hi <= 0, o.ins.where(), "the result is not cut to the units that were written")
    # outer iteration
    first = np.zeros(N, bool)
    for (a, b) in pairs:
        first[a] = True
    Lj = flags([(0x1100, 0x1112)])
    hs = flags([(0xAC00, 0xD7A3)])
    norow = ~first & ~Lj & ~hs
    dead = []
    iters = [r for r in v.runs if r.head == C.h1 and not any(o.kind == 'ret' for o in r.out)]
    if not iters:
        raise Undecided("no iteration")
    for r in iters:
        fin = r.wr
        if fin is None:
            raise Undecided("write positions")
        others = [k for k in fin if k != (OBJ, KI, 0)]
        if others:
            R.ob(None, ow, "writes at another position than the next one")
            return
        wv = fin.get((OBJ, KI, 0))
        if wv is None:
            R.ob(False, ow, "the unit is not copied")
            return
        okplain = wv[2] & (((wv[0] == 0) & (wv[1] == X)) | (np.arange(N) == CP) & (wv[0] == v.F.id({'BIG': 1})))
        for o in r.out:
            L = o.lanes
            sel = ~hs[L]
            if o.kind == 'enter' and o.h == C.h2:
                b = L[sel & (~okplain[L] | Lj[L])]
                R.ob(not len(b), ow, "%s is not copied as it is before its composition is looked for" % u(int(b[0])) if len(b) else None)
                x = o.phis[C.kphi]
                if C.k0 != 0 or not x.scalar() or x.t != KI:
                    raise Undecided("write position of the inner loop")
                continue
            if o.kind != 'back' or o.h != C.h1:
                raise Undecided("the loop is left")
            di, dk = delta(v, o, ip, ('phi', ip)), delta(v, o, kp, ('phi', kp))
            if di is None or dk is None:
                raise Undecided("positions")
            di = np.broadcast_to(di, len(L))
            dk = np.broadcast_to(dk, len(L))
            pl = sel & ~Lj[L]
            b = L[pl & ~norow[L]]
            R.ob(not len(b), ow, "%s is passed over without looking for a composition" % u(int(b[0])) if len(b) else None)
            b = L[pl & norow[L] & ((di != 1) | (dk != 1) | ~okplain[L])]
            R.ob(not len(b), ow, "%s is not simply copied" % u(int(b[0])) if len(b) else None)
            hang = sel & Lj[L]
            if hang.any():
                hangul(R, v, r, L[hang], di[hang], dk[hang], wv, SZ, ip, ow)
    # inner iteration
    R.count("triples of starter, unit and class", len(S))
    R.count("composition pairs", len(pairs))
    cy = ccc[np.minimum(Y, CP)]
    target, isl = targets(S, Y, ref)
    must = (target >= 0) & (P < cy)
    reach = C.has[S]
    gap = set()
    hasold = np.zeros(N, bool)              # starters the library must go on searching for
    for p in pairs:
        hasold[p[0]] |= p not in ref["late"]
    JI, KJ = w.F.id({w.jphi: 1}), w.F.id({('phi', C.kphi): 1})
    k0w = (OBJ, KI, 0)                      # place of the starter
    kw = (OBJ, KJ, 1 - C.k0)                # next place
    form, g = w.canon({SZ: 1, w.jphi: -1})
    seen = False
    for r in [x for x in w.runs if x.head == C.h2]:
        lo, hi = w.bounds(form, r)
        lo, hi = (lo, hi) if g > 0 else (None if hi is None else -hi, None if lo is None else -lo)
        # size - j: the next unit exists iff size - (j + joff) >= 1
        more, none = ends(w, r, form, lo, hi)
        if none:
            if any(e.kind == 'read' and e.index.scalar() and w.F.get(e.index.t) == {w.jphi: 1} for e in r.events):
                R.ob(False, iw, "reads behind the end of the string")
            for o in r.out:
                if o.kind == 'back' and o.h == C.h2:
                    R.ob(False, iw, "goes on behind the end of the string")
            none = not more
        wr = r.wr
        if wr is None or any(k not in (k0w, kw) for k in wr):
            raise Undecided("write positions of the inner loop")
        z = np.zeros(len(S), bool)
        W0 = wr.get(k0w, [None, None, z])
        W1 = wr.get(kw, [None, None, z])
        seen |= more
        for o in r.out:
            L = o.lanes[reach[o.lanes]]
            keep = reach[o.lanes]
            if not len(L):
                continue
            if o.kind == 'back' and o.h == C.h2:
                if none:
                    continue
                dj, dk = delta(w, o, C.jphi, w.jphi), delta(w, o, C.kphi, ('phi', C.kphi))
                if dj is None or dk is None:
                    raise Undecided("positions of the inner loop")
                dj, dk = np.broadcast_to(dj, len(o.lanes))[keep], np.broadcast_to(dk, len(o.lanes))[keep]
                R.ob(bool((dj == 1).all()), iw, "the inner loop does not go on with the next unit")
                pv = o.phis[C.prev]
                if (np.asarray(pv.t) != 0).any():
                    raise Undecided("previous class")
                pv = w.signed(np.broadcast_to(np.asarray(pv.a, np.uint64), len(o.lanes)).copy(), pv.w)[keep]
                comp = W0[2][L]
                # composed
                want = must[L]
                late = isl[L]
                x = L[want & ~comp]
                miss = [k for k in x if not isl[k]]
                gap |= {(int(S[k]), int(Y[k])) for k in x if isl[k]}
                R.ob(not miss, iw, "%s and %s are not composed to %s%s" % (u(int(S[miss[0]])), u(int(Y[miss[0]])), u(int(target[miss[0]])), after(P[miss[0]])) if miss else None)
                x = L[comp & ~want]
                R.ob(not len(x), iw, "%s and %s are composed%s" % (u(int(S[x[0]])), u(int(Y[x[0]])), after(P[x[0]], True)) if len(x) else None)
                k = L[comp & want]
                if len(k):
                    wrong = k[(W0[0][k] != 0) | (W0[1][k].astype(np.int64) != target[k])]
                    R.ob(not len(wrong), iw, "%s and %s are composed to %s instead of %s" % (u(int(S[wrong[0]])), u(int(Y[wrong[0]])), u(int(W0[1][wrong[0]])), u(int(target[wrong[0]]))) if len(wrong) else None)
                    g1 = comp & want
                    R.ob(bool((dk[g1] == 0).all()) and not W1[2][k].any(), iw, "a unit that was composed is also kept")
                    b = k[pv[g1] != C.rep(P)[k]]
                    R.ob(not len(b), iw, "the class of the last unit kept changes from %d to %d although the unit was composed" % (P[b[0]], pv[g1][np.isin(k, b)][0]) if len(b) else None)
                    for pid, kd in C.kind.items():
                        if kd[0] != 'fun':
                            continue
                        y = o.phis[pid]
                        t = np.broadcast_to(y.t, len(o.lanes))[keep][g1]
                        a = np.broadcast_to(np.asarray(y.a, np.uint64), len(o.lanes))[keep][g1]
                        tg = target[k]
                        okc = (t == kd[1][tg]) & (a == kd[2][tg])
                        b = k[~okc & (W0[1][k].astype(np.int64) == tg)]
                        R.ob(not len(b), iw, "after composing %s the search does not go on with its compositions" % u(int(target[b[0]])) if len(b) else None)
                # kept
                g2 = ~comp & ~want
                k = L[g2]
                if len(k):
                    b = k[cy[k] == 0]
                    b = [x for x in b if True]
                    R.ob(not len(b), iw, "%s, which has class 0, is kept behind %s and the search goes on" % (u(int(Y[b[0]])), u(int(S[b[0]]))) if len(b) else None)
                    yv = Y[k]
                    t1 = W1[0][k] if W1[0] is not None else np.full(len(k), TOP)
                    a1 = W1[1][k].astype(np.int64) if W1[1] is not None else np.zeros(len(k), np.int64)
                    okw = W1[2][k] & ((t1 == 0) & (a1 == yv) | (yv == CP) & (t1 == w.F.id({'BIG': 1})))
                    b = k[~okw | (dk[g2] != 1)]
                    R.ob(not len(b), iw, "%s is not kept behind %s" % (u(int(Y[b[0]])), u(int(S[b[0]]))) if len(b) else None)
                    bb = pv[g2] != cy[k]
                    R.ob(not bb.any(), iw, "after keeping a unit of class %d the class %d is remembered" % (cy[k][bb][0], pv[g2][bb][0]) if bb.any() else None)
                    for pid, kd in C.kind.items():
                        if kd[0] != 'fun':
                            continue
                        y = o.phis[pid]
                        t = np.broadcast_to(y.t, len(o.lanes))[keep][g2]
                        a = np.broadcast_to(np.asarray(y.a, np.uint64), len(o.lanes))[keep][g2]
                        sg = S[k]
                        okc = (t == kd[1][sg]) & (a == kd[2][sg])
                        R.ob(bool(okc.all()), iw, "after keeping a unit the search goes on with the compositions of another starter")
            elif o.kind == 'back' and o.h == C.h1:
                di, dk = o.phis[ip], o.phis[kp]
                if (np.asarray(di.t) != JI).any() or (np.asarray(dk.t) != KJ).any():
                    raise Undecided("positions after the inner loop")
                di = np.broadcast_to(w.signed(np.asarray(di.a, np.uint64).reshape(-1).copy(), 64), len(o.lanes))[keep]
                dk = np.broadcast_to(w.signed(np.asarray(dk.a, np.uint64).reshape(-1).copy(), 64), len(o.lanes))[keep]
                R.ob(bool((di == w.joff).all()), iw, "the unit that ends the inner loop is not the next one to be looked at")
                R.ob(bool((dk == 1 - C.k0).all()), iw, "the position after the inner loop is not behind the last unit kept")
                wrote = W0[2][L] | W1[2][L]
                R.ob(not wrote.any(), iw, "writes although the inner loop ends")
                if none:
                    continue
                want = must[L]
                x = L[want]
                miss = [k for k in x if not isl[k]]
                gap |= {(int(S[k]), int(Y[k])) for k in x if isl[k]}
                R.ob(not miss, iw, "%s and %s are not composed to %s%s" % (u(int(S[miss[0]])), u(int(Y[miss[0]])), u(int(target[miss[0]])), after(P[miss[0]])) if miss else None)
                x = L[~want & (cy[L] != 0) & hasold[S[L]]]
                R.ob(not len(x), iw, "the search for compositions of %s stops at %s, which does not have class 0" % (u(int(S[x[0]])), u(int(Y[x[0]]))) if len(x) else None)
            else:
                raise Undecided("the inner loop is left to other code")
    if not seen:
        raise Undecided("no inner iteration")
    if gap:
        R.bad("composition tables", "%d canonical compositions newer than Unicode 15 are missing (digest %s)" % (len(gap), digest(sorted(gap))))


def ends(w, r, form, lo, hi):
    """(a next unit may exist, the string may end) under the facts of the run"""
    more = hi is None or hi - w.joff >= 1
    none = lo is None or lo - w.joff <= 0
    if more and none and not only(w, r, [form]):
        raise Undecided("end of the string in the inner loop")
    return more, none


def targets(S, Y, ref):
    """composite of every pair (-1: none), and whether it is newer than Unicode 15"""
    ks = np.array(sorted(a * (N + 1) + b for a, b in ref["pairs"]))
    by = sorted(ref["pairs"].items(), key=lambda x: x[0][0] * (N + 1) + x[0][1])
    cs = np.array([c for _, c in by])
    ls = np.array([p in ref["late"] for p, _ in by])
    q = S * (N + 1) + Y
    i = np.minimum(np.searchsorted(ks, q), len(ks) - 1)
    hit = ks[i] == q
    return np.where(hit, cs[i], -1), hit & ls[i]


def after(p, no=False):
    if p == -1:
        return ""
    return " after a unit of class %d was kept" % p


def only(v, r, forms):
    """the facts of the run are about these forms only, so every value inside their bounds occurs"""
    return all(f in forms for f in r.facts)


def hangul(R, v, r, L, di, dk, wv, SZ, ip, ow):
    """L jamo at the start"""
    left, g = v.canon({SZ: 1, ('phi', ip): -1})
    U = [v.canon({('u', k): 1})[0] for k in (1, 2)]
    exact = only(v, r, [left] + U)
    lo, hi = v.bounds(left, r)
    lo, hi = (lo, hi) if g > 0 else (None if hi is None else -hi, None if lo is None else -lo)
    lo = max(1, lo if lo is not None else 1)

    def cases(k, a, b):
        """possible answers to: is there a k-th unit after this one, in [a, b]?"""
        out = set()
        if lo <= k:
            out.add(False)
        if hi is None or hi > k:
            x, y = v.bounds(U[k - 1], r) if ('u', k) in v.range else (None, None)
            x, y = 0 if x is None else max(x, 0), 0xFFFFFFFF if y is None else y
            if max(a, x) <= min(b, y):
                out.add(True)
            if x < a or y > b:
                out.add(False)
        return out
    R.count("Hangul cases")
    todo = []
    for y in cases(1, 0x1161, 0x1175):
        todo += [(True, z) for z in cases(2, 0x11A8, 0x11C2)] if y else [(False, False)]
    if len(todo) > 1 and not exact:
        raise Undecided("Hangul composition depends on something else")
    for y, z in todo:
        d = {}
        c = L.astype(np.int64)
        step = 1
        if y:
            d[('u', 1)] = 28
            c = 0xAC00 + ((L - 0x1100) * 21 - 0x1161) * 28
            step = 2
        if z:
            d[('u', 2)] = 1
            c = c - 0x11A7
            step = 3
        want = v.F.id(d)
        got_t, got_a = wv[0][L], wv[1][L]
        ok = wv[2][L] & (got_t == want) & (got_a.astype(np.int64) == (c & 0xFFFFFFFF))
        if not ok.all() and y and (got_t == TOP).any():
            raise Undecided("Hangul composition")
        what = "L V T" if z else "L V" if y else "a single L"
        R.ob(bool(ok.all()), ow, "%s gives a wrong result for %s%s" % (what, u(int(L[~ok][0])), " at some place" if len(todo) > 1 else "") if not ok.all() else None)
        R.ob(bool((di == step).all() and (dk == 1).all()), ow, "%s does not use up %d units and give one" % (what, step))


# ---------------------------------------------------------------------- already normalized?
NFCQ = "idna::is_already_nfc(u32view)"


class Fast(nfc.Scan):
    def hook(self, i, L, n, a, w):
        if 'operator==<char32_t' in n:
            self.run.events.append(vec.Event('equal', L, i, args=a))
            self.range[('equal',)] = (0, 1)
            return self.sym(('equal',), 1)
        return super().hook(i, L, n, a, w)


@prop("C28")
def c28(R, tier):
    R.rule("is_already_nfc returns false in its scans exactly for: a unit whose canonical decomposition is a single unit, a mark behind one of a higher class, and an unblocked pair (or Hangul pair) that composes")
    R.rule("after the scans it returns true only if no unit has a canonical decomposition, otherwise exactly if decompose_nfc and compose give the string back")
    R.notes += TRUST + ["tables are initialised (C09, C10)", "decompose_nfc and compose are decided by C25, C35, C36", "reference: the library's tables as decided by C25, C35 and C36, i.e. Unicode 17 except for characters newer than Unicode 15"]
    for cfg in (["host"] if tier == "quick" else ["host", "be"]):
        guarded(R, "src/normalization.cpp (is_already_nfc)", fast_check, R, cfg)
    R.need("units decided", 2 * N)
    R.need("triples of starter, unit and class", 200000)


def width1(f, x):
    j = f.defs.get(x)
    return j is not None and j.ty == 'i1'


def boolean(f, p, seen=None):
    """every value that reaches the phi is 0 or 1"""
    seen = seen or set()
    seen.add(p.id)
    for v, _ in p.x["in"]:
        if v.startswith('c:'):
            if v.split(':')[2] not in ('0', '1'):
                return False
            continue
        j = f.defs.get(v)
        if j is None:
            return False
        if j.op == 'phi':
            if j.id not in seen and not boolean(f, j, seen):
                return False
        elif not (j.op == 'zext' and width1(f, j.o[0])):
            return False
    return True


def fast_check(R, cfg):
    m = ir.load_module(cfg, keep="keep_norm.txt")
    f = anchor(R, m, NFCQ, "src/normalization.cpp (is_already_nfc)")
    ccc = library_ccc(R, m, cfg)
    if f is None or ccc is None:
        return
    ref = reference()
    pairs = ref["pairs"]
    C = nfc.Compose(m, NFCQ, view=(0, 1), cls=Fast)
    C.classes(ccc)
    for l in f.loops().values():
        for p in f.blocks[l.header].phis():
            if p.ty == 'i8':
                C.v.range[('phi', p.id)] = (0, 1) if boolean(f, p) else (0, 255)
    C.outer()
    v = C.v
    R.functions.add("%s [%s]" % (f.short, cfg))
    R.states += sum(len(r.out) for r in v.runs)
    loops = [h for h in v.order if h in v.cuts and h != C.h2]
    loops.sort(key=lambda h: v.order[h])
    if len(loops) != 3 or loops[2] != C.h1:
        raise Undecided("not the three scans")
    A, B = loops[0], loops[1]
    # the scan of the marks is the one that looks at classes, whichever comes first
    asks = [any("ccc" in n for b in f.loops()[h].body for i in f.blocks[b].ins
                for n in [store.gname(o) or "" for o in i.o] + [i.x.get("d") or ""]) for h in (A, B)]
    if asks == [True, False]:
        A, B = B, A
    late = flags(uni()["late"])
    nfd = units_nfd()
    comp1 = np.zeros(N, bool)
    for c in pairs.values():
        comp1[c] = True
    for ww, msg in sorted(set(v.finds)):
        R.bad(ww, msg)
    eqs = v.F.id({('equal',): 1})

    def truth(o, vv):
        """per lane 0/1/2"""
        x = o.val
        if x is None or isinstance(x, dict):
            raise Undecided("the returned value is not tracked")
        t = np.broadcast_to(x.t, len(o.lanes))
        a = np.broadcast_to(np.asarray(x.a, np.uint64), len(o.lanes))
        out = np.where((t == 0), (a & np.uint64(1)).astype(np.int64), np.where((t == eqs) & (a == 0), 2, -1))
        if (out < 0).any():
            raise Undecided("the returned value is not tracked")
        return out
    # before the scans
    empty = v.canon({'N': 1})[0]
    for r in v.runs:
        if r.head is None:
            for o in r.out:
                if o.kind == 'ret' and (truth(o, v) == 1).any() and v.bounds(empty, r)[1] != 0:
                    raise Undecided("a result before the scans")

    def one_pass(h):
        """iteration and end of a scan with one unit per iteration"""
        pos = v.unitpos.get(h)
        if pos is None or v.F.get(pos[1]) != {('it', h): 1} or pos[0] != ('in',):
            raise Undecided("scan at %s" % f.blocks[h].ins[0].where())
        form, g = v.canon({'N': 1, ('it', h): -1})
        if form not in v.base_facts:
            raise Undecided("scan at %s" % f.blocks[h].ins[0].where())
        its, ends = [], []
        for r in v.runs:
            if r.head != h:
                continue
            if any(e.kind not in ('read', 'equal') for e in r.events) and h != C.h1:
                raise Undecided("an effect in a scan")
            (ends if v.bounds(form, r) == (0, 0) else its).append(r)
        for r in its:
            for o in r.out:
                if o.kind not in ('ret', 'back') or o.kind == 'back' and o.h != h:
                    raise Undecided("a scan is left early")
                if o.kind == 'ret' and (truth(o, v) != 0).any():
                    R.ob(False, f.blocks[h].ins[0].where(), "returns true before the end of the string")
        return its, ends
    wA, wB, wC = (f.blocks[h].ins[0].where() for h in (A, B, C.h1))
    # scan A: decompositions
    its, ends = one_pass(A)
    R.count("units decided", N)
    fphi = [p for p in f.blocks[A].phis() if p.ty != 'ptr' and v.step_of(p) is None]
    if len(fphi) > 1:
        raise Undecided("first scan")
    no = np.zeros(N, bool)
    keepf = np.zeros(N, bool)            # lanes that leave an unset flag unset
    if fphi:
        fp = fphi[0].id
        me = v.F.id({('phi', fp): 1})
        mform = v.canon({('phi', fp): 1})[0]
    for r in its:
        lo, hi = v.bounds(mform, r) if fphi else (0, 0)
        for o in r.out:
            if o.kind == 'ret':
                no[o.lanes] = True
                continue
            if not fphi:
                keepf[o.lanes] = True
                continue
            x = o.phis[fp]
            t = np.broadcast_to(x.t, len(o.lanes))
            a = np.broadcast_to(np.asarray(x.a, np.uint64), len(o.lanes))
            one = (t == 0) & (a == 1) | (t == me) & (a == 0) & (lo == 1)
            zero = (t == 0) & (a == 0) | (t == me) & (a == 0) & (hi == 0)
            if not (one | zero | (t == me) & (a == 0)).all():
                raise Undecided("first scan")
            if hi != 0:
                z = o.lanes[(t == 0) & (a == 0)]
                if len(z):
                    R.ob(False, wA, "%s resets the flag that a unit has a decomposition" % u(int(z[0])))
                    return
            if lo != 1:
                keepf[o.lanes[~one]] = True
    setf = ~keepf
    if fphi:
        for k, o in v.starts.items():
            if k[0] == A:
                R.ob(None if not o.phis[fp].const() else o.phis[fp].a == 0, wA, "the flag that a unit has a decomposition is set from the start")
    has = np.zeros(N, bool)
    for c in nfd:
        has[c] = True
    has[late] = False                # tables of Unicode 15 (known finding of C25)
    bad = [int(c) for c in np.nonzero(has & ~no & ~setf)[0]]
    R.ob(not bad, wA, "%s has a canonical decomposition but is taken for normalized" % some(bad, u) if bad else None)
    never = has & ~comp1             # never part of normalized text
    bad = [int(c) for c in np.nonzero(no & ~never)[0]]
    R.ob(not bad, wA, "refuses %s, which normalized text may contain" % some(bad, u) if bad else None)
    # scan B: order
    its, ends = one_pass(B)
    pphi = [p for p in f.blocks[B].phis() if p.ty != 'ptr' and v.step_of(p) is None]
    if not pphi and all(p.ty == 'ptr' or v.step_of(p) is not None for p in f.blocks[B].phis()):
        # every iteration sees one unit only and carries nothing to the next
        b = [int(c) for c in np.nonzero(ccc[:N] > 1)[0]]
        R.ob(False, wB, "passes %s (class %d) behind a mark of higher class: the scan remembers nothing of earlier units" % (u(b[0]), ccc[b[0]]))
        return
    if len(pphi) != 1:
        raise Undecided("second scan")
    pp = pphi[0].id
    for k, o in v.starts.items():
        if k[0] == B:
            R.ob(None if not o.phis[pp].const() else o.phis[pp].a == 0, wB, "the class before the first unit is not 0")
    R.count("units decided", N)
    here = np.zeros(N, bool)
    for k, o in v.starts.items():
        if k[0] == B:
            here[o.lanes] = True
    cl = ccc[:N]
    done = np.zeros(256, bool)
    form = v.canon({('phi', pp): 1})[0]
    for r in its:
        lo, hi = v.bounds(form, r)
        lo, hi = max(lo or 0, 0), min(255 if hi is None else hi, 255)
        done[lo:hi + 1] = True
        for o in r.out:
            L = o.lanes
            if o.kind == 'ret':
                # refused: every class before it in [lo, hi] must be higher
                b = L[(cl[L] == 0) | (cl[L] >= lo)]
                R.ob(not len(b), wB, "refuses %s (class %d) behind a mark of class %d" % (u(int(b[0])), cl[b[0]], lo) if len(b) else None)
            else:
                b = L[(cl[L] != 0) & (cl[L] < hi)]
                R.ob(not len(b), wB, "passes %s (class %d) behind a mark of class %d" % (u(int(b[0])), cl[b[0]], hi) if len(b) else None)
                x = o.phis[pp]
                t = np.broadcast_to(x.t, len(L))
                a = np.broadcast_to(np.asarray(x.a, np.uint64), len(L)).astype(np.int64)
                me = v.F.id({('phi', pp): 1})
                if ((t != 0) & ((t != me) | (a != 0))).any():
                    raise Undecided("second scan")
                kept = t == me
                b = L[kept & ((cl[L] != lo) | (lo != hi))]
                R.ob(not len(b), wB, "behind %s the class of an earlier unit is remembered instead of %d" % (u(int(b[0])), cl[b[0]]) if len(b) else None)
                b = ~kept & (a != cl[L])
                R.ob(not b.any(), wB, "behind %s the class %d is remembered instead of %d" % (u(int(L[b][0])), a[b][0], cl[L[b][0]]) if b.any() else None)
    if not done.all():
        raise Undecided("second scan")
    # scan C: pairs that compose
    ip = v.rphi[1]
    if {p.id for p in f.blocks[C.h1].phis()} != {ip}:
        raise Undecided("third scan carries other values")
    for k, o in v.starts.items():
        if k[0] == C.h1:
            R.ob(None if not o.phis[ip].const() else o.phis[ip].a == 0, wC, "the search for pairs does not start at the first unit")
    first = np.zeros(N, bool)
    for (a, b) in pairs:
        first[a] |= (a, b) not in ref["late"]
    alive = np.zeros(N, bool)
    for k, o in v.starts.items():
        if k[0] == C.h1:
            alive[o.lanes] = True
    Lj, hs = flags([(0x1100, 0x1112)]), flags([(0xAC00, 0xD7A3)])
    lv = hs & ((X.astype(np.int64) - 0xAC00) % 28 == 0)
    endf, eg = v.canon({'N': 1, ('phi', ip): -1})

    def left(r):
        lo, hi = v.bounds(endf, r)
        return (lo, hi) if eg > 0 else (None if hi is None else -hi, None if lo is None else -lo)

    def within(r, a, b):
        if ('u', 1) not in v.range:
            return None
        lo, hi = v.bounds(((('u', 1), 1),), r)
        if lo is not None and hi is not None and lo >= a and hi <= b:
            return True
        if (lo is not None and lo > b) or (hi is not None and hi < a):
            return False
        return None
    for r in v.runs:
        if r.head != C.h1:
            continue
        lo, hi = left(r)
        if hi is not None and hi <= 0:
            tail(R, v, f, r, truth, fphi, wC)
            continue
        if not (lo is not None and lo >= 1):
            if any(o.kind == 'ret' and (truth(o, v) != 0).any() for o in r.out):
                R.ob(False, wC, "returns true before the end of the string")
                continue
            raise Undecided("third scan")
        next_ = False if hi is not None and hi <= 1 else True if lo >= 2 else None
        for o in r.out:
            L = o.lanes
            isv = False if next_ is False else None if next_ is None else within(r, 0x1161, 0x1175)
            ist = False if next_ is False else None if next_ is None else within(r, 0x11A8, 0x11C2)
            if o.kind == 'enter' and o.h == C.h2:
                b = L[Lj[L] | lv[L]]
                if len(b):
                    raise Undecided("Hangul in the third scan")
                continue
            refuse = o.kind == 'ret'
            if not refuse and (o.kind != 'back' or o.h != C.h1):
                raise Undecided("third scan")
            if refuse and (truth(o, v) != 0).any():
                R.ob(False, wC, "returns true before the end of the string")
                continue
            for sel, cond, what in ((Lj, isv, "a Hangul vowel"), (lv, ist, "a Hangul final consonant")):
                b = L[sel[L]]
                if not len(b):
                    continue
                R.count("Hangul cases")
                if cond is None:
                    # an interval of the next unit that is neither inside nor outside: it is treated alike
                    R.ob(False, wC, "%s is treated alike before units that %s is among and others" % (u(int(b[0])), what))
                    continue
                R.ob(refuse == cond, wC, "%s %s before %s" % (u(int(b[0])), "is passed" if cond else "is refused", what if cond else "a unit that is not " + what))
            b = L[~Lj[L] & ~lv[L]]
            if refuse:
                R.ob(not len(b), wC, "refuses %s without a pair" % u(int(b[0])) if len(b) else None)
            else:
                x = L[first[L] & ~Lj[L] & ~lv[L]]
                R.ob(not len(x), wC, "%s is passed over without looking for a composition" % u(int(x[0])) if len(x) else None)
                d = delta(v, o, ip, ('phi', ip))
                if d is None:
                    raise Undecided("third scan")
                R.ob(bool((np.broadcast_to(d, len(L)) == 1).all()), wC, "the search does not go on with the next unit")
    inner_fast(R, C, v, f, ref, ccc, truth, alive, ip, first)


def units_nfd():
    return [int(c) for c in uni()["nfd"]]


def tail(R, v, f, r, truth, fphi, wC):
    form = v.canon({('phi', fphi[0].id): 1})[0] if fphi else None
    lo, hi = v.bounds(form, r) if fphi else (0, None)
    calls = [e for e in r.events if e.kind in ('call', 'equal')]
    names = [e.name.split('(')[0] if e.kind == 'call' else '==' for e in calls]
    for o in r.out:
        if o.kind != 'ret':
            raise Undecided("end of the third scan")
        t = truth(o, v)
        if '==' in names:
            eq = v.bounds(v.canon({('equal',): 1})[0], r)
            if eq in ((0, 0), (1, 1)):
                t = np.where(t == eq[0], 2, np.where(t == 1 - eq[0], -1, t))
                if (t < 0).any():
                    R.ob(False, o.ins.where(), "the result is not that of the comparison with the normalized copy")
                    continue
        where = o.ins.where()
        if (t == 1).any():
            R.ob(hi == 0, where, "returns true without normalizing a string that contains a unit with a decomposition")
        if (t == 0).any():
            R.ob(False, where, "refuses a string in which no scan found anything")
        if (t == 2).any():
            d = [k for k, n in enumerate(names) if n == 'idna::decompose_nfc']
            c = [k for k, n in enumerate(names) if n == 'idna::compose']
            q = [k for k, n in enumerate(names) if n == '==']
            mk = [k for k, n in enumerate(names) if n.startswith('u32string::basic_string<u32view')]
            if len(q) != 1 or len(mk) != 1 or len(d) > 1 or len(c) > 1:
                raise Undecided("comparison with the normalized copy")
            R.ob(bool(d) and bool(c) and mk[0] < d[0] < c[0] < q[0], where, "the copy that is compared was not decomposed, ordered and composed")
            if not d or not c:
                continue
            s = calls[mk[0]].args[0]
            same = all(calls[k].args[0].scalar() and (calls[k].args[0].t, calls[k].args[0].a) == (s.t, s.a) for k in (d[0], c[0]))
            obj = v.bases(s.t)[0] if s.scalar() and s.t > 0 and len(v.bases(s.t)) == 1 else None
            a = calls[q[0]].args
            shown = [(v.F.get(x.t), x.a) if x.scalar() and x.t != TOP else None for x in a]
            inp = [({'N': 1}, 0), ({('in',): 1}, 0)]
            cpy = [x for x in shown if x not in inp]
            R.ob(True if same and len(shown) == 4 and all(x in shown for x in inp) and obj is not None and len(cpy) == 2 and ({('buf', obj): 1}, 0) in cpy else None,
                 where, "comparison with the normalized copy")


def inner_fast(R, C, v, f, ref, ccc, truth, alive, ip, first):
    pairs = ref["pairs"]
    iw = f.blocks[C.h2].ins[0].where()
    S, Y, P = triples(ccc, pairs)
    ok = alive[S]
    S, Y, P = S[ok], Y[ok], P[ok]
    w = C.inner(S, Y, P, fixed=True)
    if C.kphi is not None:
        raise Undecided("third scan carries other positions")
    bad = uses_ok(f, list(w.reads), nfc.CCC)
    if bad is not None:
        raise Undecided("the next unit is used otherwise at %s" % bad.where())
    if w.finds:
        R.unsure(iw, "%s: %s" % w.finds[0])
    R.count("triples of starter, unit and class", len(S))
    cy = ccc[np.minimum(Y, CP)]
    target, isl = targets(S, Y, ref)
    must = (target >= 0) & ~isl & (P < cy)
    reach = C.has[S]
    JI = w.F.id({w.jphi: 1})
    form, g = w.canon({'N': 1, w.jphi: -1})
    seen = False
    for r in [x for x in w.runs if x.head == C.h2]:
        lo, hi = w.bounds(form, r)
        lo, hi = (lo, hi) if g > 0 else (None if hi is None else -hi, None if lo is None else -lo)
        more, none = ends(w, r, form, lo, hi)
        if any(e.kind not in ('read',) for e in r.events):
            raise Undecided("an effect in the third scan")
        seen |= more
        if none:
            R.ob(not any(e.kind == 'read' for e in r.events), iw, "reads behind the end of the string")
            if any((o.kind == 'ret' or o.kind == 'back' and o.h == C.h2) and reach[o.lanes].any() for o in r.out):
                R.ob(False, iw, "goes on behind the end of the string")
                continue
            none = not more
        for o in r.out:
            keep = reach[o.lanes]
            L = o.lanes[keep]
            if not len(L):
                continue
            if o.kind == 'ret':
                t = truth(o, w)[keep]
                R.ob(not (t != 0).any(), iw, "returns true before the end of the string")
                x = L if none else L[~must[L]]
                R.ob(not len(x), iw, "%s and %s are taken for a pair that composes%s" % (u(int(S[x[0]])), u(int(Y[x[0]])), after(P[x[0]])) if len(x) else None)
                continue
            if none:
                if o.kind == 'back' and o.h == C.h2:
                    R.ob(False, iw, "goes on behind the end of the string")
                    continue
            else:
                x = L[must[L]]
                R.ob(not len(x), iw, "%s and %s are not seen to compose%s" % (u(int(S[x[0]])), u(int(Y[x[0]])), after(P[x[0]])) if len(x) else None)
            if o.kind == 'back' and o.h == C.h2:
                dj = delta(w, o, C.jphi, w.jphi)
                if dj is None:
                    raise Undecided("positions of the third scan")
                R.ob(bool((np.asarray(dj) == 1).all()), iw, "the search does not go on with the next unit")
                k = L[cy[L] == 0]
                R.ob(not len(k), iw, "the search goes on behind %s, which has class 0" % u(int(Y[k[0]])) if len(k) else None)
                pv = o.phis[C.prev]
                if (np.asarray(pv.t) != 0).any():
                    raise Undecided("previous class")
                pv = w.signed(np.broadcast_to(np.asarray(pv.a, np.uint64), len(o.lanes)).copy(), pv.w)[keep]
                bb = (pv != cy[L]) & ~must[L]
                R.ob(not bb.any(), iw, "behind a unit of class %d the class %d is remembered" % (cy[L][bb][0], pv[bb][0]) if bb.any() else None)
            elif o.kind == 'back' and o.h == C.h1:
                x = o.phis[ip]
                if (np.asarray(x.t) != JI).any():
                    raise Undecided("positions after the third scan")
                d = w.signed(np.asarray(x.a, np.uint64).reshape(-1).copy(), 64)
                R.ob(bool((d == w.joff).all()), iw, "the unit that ends the search is not the next one to be looked at")
                if not none:
                    x = L[~must[L] & (cy[L] != 0) & first[S[L]]]
                    R.ob(not len(x), iw, "the search for compositions of %s stops at %s, which does not have class 0" % (u(int(S[x[0]])), u(int(Y[x[0]]))) if len(x) else None)
            else:
                raise Undecided("the third scan is left to other code")
    if not seen:
        raise Undecided("no iteration of the third scan")
