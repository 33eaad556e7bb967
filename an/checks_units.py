"""C22, C25, C26, C34, C35: what the library does with each code point."""
import numpy as np
import ir, tables, vec, units
from units import N, X, CP, uni, flags, u, ul, Loop, machine, some, TOP
from ir import AnalysisError
from boxes import Undecided
from checks import prop, TRUST
from checks_labels import digest

MAP = "idna::map(u32view, u32string&)"


def guarded(R, where, f, *a):
    try:
        return f(*a)
    except (Undecided, vec.Need, vec.Cut) as e:
        R.unsure(where, "outside the domain: %s" % (e or type(e).__name__))
    except AnalysisError:
        raise
    except Exception as e:
        R.unsure(where, "the construct is not understood (%s: %s)" % (type(e).__name__, e))


def finds(R, v):
    for w, msg in sorted(set(v.finds)):
        if v.loose:
            R.unsure(w, msg)
        else:
            R.bad(w, msg)


def mapping():
    dis = np.ones(N, bool)
    ref = {}
    for a, b, s in uni()["uts46"]:
        if s == "X":
            continue
        dis[a:b + 1] = False
        if s != "V":
            for c in range(a, b + 1):
                ref[c] = tuple(s)
    return dis, ref


def retval(v, o):
    """constant truth value of a return, None when it varies"""
    x = o.val
    if x is None or isinstance(x, dict):
        return None
    if x.t is TOP or isinstance(x.t, np.ndarray) or x.t != 0:
        return None
    if isinstance(x.a, np.ndarray):
        z = np.unique(x.a)
        return bool(z[0] & 1) if len(z) == 1 else None
    return bool(x.a & 1)


def split_returns(v, outs):
    """lanes that return true / false"""
    t, f = np.zeros(N, bool), np.zeros(N, bool)
    for o in outs:
        x = o.val
        if x is None or isinstance(x, dict) or (isinstance(x.t, np.ndarray) and (x.t != 0).any()) or (not isinstance(x.t, np.ndarray) and x.t != 0):
            raise Undecided("the returned value is not tracked")
        a = (np.broadcast_to(np.asarray(x.a, np.uint64), len(o.lanes)) & np.uint64(1)) != 0
        t[o.lanes[a]] = True
        f[o.lanes[~a]] = True
    return t, f


def map_loops(R, cfg):
    m = ir.load_module(cfg, keep="keep_scan.txt")
    v = machine(m, MAP, view=(0, 1), obj=(2,))
    v.explore()
    R.functions.add("%s [%s]" % (v.fn.short, cfg))
    R.states += sum(len(r.out) for r in v.runs)
    heads = [h for h in v.order if h in v.cuts]
    heads.sort(key=lambda h: v.order[h])
    loops = [Loop(v, h) for h in heads]
    return m, v, loops


def map_shape(R, v, loops):
    """every scanning loop visits all units front to back; returns (loops, final returns)"""
    if not loops:
        raise Undecided("no loop over the input")
    for l in loops:
        if l.full('N') != 1:
            raise Undecided("loop at %s does not simply visit every unit" % l.where)
        if l.leave:
            raise Undecided("loop at %s is left to other code" % l.where)
    fin = [(r, o) for r in v.runs for o in r.out if o.kind == 'ret' and r not in [l.it for l in loops]]
    return fin


@prop("C22")
def c22(R, tier):
    R.rule("map fails exactly when a unit is disallowed by UTS #46 (Unicode 17) or is no scalar value, decided for every 32-bit unit value")
    R.rule("otherwise every unit contributes, in order, exactly itself (valid), nothing (ignored) or its mapping, and nothing else is written")
    R.notes += TRUST + ["tables are initialised (C09, C10)", "reference: UTS #46 table of the idna package restricted to the characters assigned in Unicode 17 (node ICU)"]
    for cfg in (["host"] if tier == "quick" else ["host", "be"]):
        guarded(R, "src/mapping.cpp (map)", map_check, R, cfg, True)
    R.need("units decided", N)
    R.need("mapped or ignored code points compared", 6000)


@prop("C34")
def c34(R, tier):
    R.rule("the number of elements that a first pass counts for a unit is the number that the second pass writes for it, at consecutive positions from the start (map) or the end (decompose)")
    R.notes += TRUST + ["tables are initialised (C09, C10)"]
    for cfg in (["host"] if tier == "quick" else ["host", "be"]):
        guarded(R, "src/mapping.cpp (map)", map_check, R, cfg, False)
        guarded(R, "src/normalization.cpp (decompose)", size_check, R, cfg)
    R.need("units decided", 2 * N)
    R.need("buffers", 2)


def map_check(R, cfg, content):
    m, v, loops = map_loops(R, cfg)
    dis, ref = mapping()
    fin = map_shape(R, v, loops)
    R.count("units decided", N)
    obj = ('obj', 2)
    fails = np.zeros(N, bool)
    wrongtrue = np.zeros(N, bool)
    for l in loops:
        t, f = split_returns(v, l.ret)
        fails |= f
        wrongtrue |= t
    ok = ~fails & ~wrongtrue
    finds(R, v)
    if content:
        R.count("mapped or ignored code points compared", len(ref))
        where = loops[0].ret[0].ins.where() if loops[0].ret else loops[0].where
        bad = np.nonzero(fails & ~dis)[0]
        where = "%s (map)" % loops[0].where.split(' ')[0]
        R.ob(not len(bad), where, "fails for %s, which UTS #46 does not disallow" % some([int(c) for c in bad], u))
        bad = np.nonzero(~fails & dis)[0]
        R.ob(not len(bad), where, "does not fail for %s, which UTS #46 disallows" % some([int(c) for c in bad], u))
        if wrongtrue.any():
            R.ob(False, where, "returns true before the end of the input at %s" % u(int(np.nonzero(wrongtrue)[0][0])))
    # returns behind or before the loops
    for r, o in fin:
        z = retval(v, o)
        if z is None:
            raise Undecided("the returned value is not tracked")
        form = v.canon({'N': 1})[0]
        empty = v.bounds(form, r)[1] == 0
        if content and not z:
            R.ob(False, o.ins.where() if o.ins else "?", "returns false although every unit is allowed")
        if not empty and r.head != loops[-1].h:
            raise Undecided("success is reported before the input was mapped")
    lanes = np.nonzero(ok & ~dis)[0] if content else np.nonzero(ok)[0]
    wl = None
    for l in loops:
        base, cnt, vals, prob = l.writes(obj)
        if any(k == 'write' for k, *_ in vals) or prob:
            if wl is not None:
                raise Undecided("more than one loop writes")
            wl = (l, base, cnt, vals, prob)
    if wl is None:
        raise Undecided("no loop writes the result")
    l, base, cnt, vals, prob = wl
    for k, w, msg in prob:
        (R.bad if k == 'bad' else R.unsure)(w, msg)
    if any(k == 'unsure' for k, *_ in prob):
        return
    if base is None:
        raise Undecided("no write position")
    for e in [e for r in v.runs for e in r.events if e.kind == 'call']:
        raise Undecided("call of %s" % e.name)
    # start position
    w = l.carried(base)
    f = v.F.of[base]
    if w is not None:
        st = l.init(w)
        R.ob(st is not None and st.const() and st.a == 0 or None if st is None or not st.const() else st.a == 0, l.where, "the first unit is not written at the start of the result")
        d, okd = l.delta(w)
        bad = np.nonzero(ok & (~okd | (d != cnt)))[0]
        bad = [int(c) for c in bad if okd[c]]
        R.ob(not bad, l.where, "after %s the position advances by another number than was written: %s" % (u(bad[0]), "%d instead of %d" % (d[bad[0]], cnt[bad[0]])) if bad else None)
        if (ok & ~okd).any():
            raise Undecided("the write position is not tracked")
    elif len(f) == 1 and f[0][0] == ('sz', obj, l.h):
        st = l.enter[0].mem.get(('size', obj))
        R.ob(None if st is None or not st.const() else st.a == 0, l.where, "the result is not empty before the first unit is appended")
    else:
        raise Undecided("write position %s" % (f,))
    # size of the result
    if w is not None:
        R.count("buffers")
        for r, o in fin:
            if r.head is None:
                continue
            sz = o.mem.get(('size', obj))
            ph = None if sz is None or not sz.scalar() else next((x for x in loops if x.carried(sz.t) and x.carried(sz.t) in {p.id for p in x.f.blocks[x.h].phis()}), None)
            if ph is None:
                raise Undecided("final size of the result")
            R.ob(sz.a == 0, o.ins.where() if o.ins else ph.where, "the size of the result differs from the counted number of elements by %d" % vec.sgn(sz.a, 64))
            p = ph.carried(sz.t)
            st = ph.init(p)
            d, okd = ph.delta(p)
            R.ob(None if st is None or not st.const() else st.a == 0, ph.where, "the count of elements does not start at 0")
            if (ok & ~okd).any():
                raise Undecided("the count of elements is not tracked")
            bad = [int(c) for c in np.nonzero(ok & (d != cnt))[0]]
            R.ob(not bad, ph.where, "counts %s" % some(bad, lambda c: "%d elements for %s, but %d are written" % (d[c], u(c), cnt[c])) if bad else None)
        # the buffer has that size while it is written
        sz = l.enter[0].mem.get(('size', obj))
        if sz is None or not sz.scalar() or next((x for x in loops if x.carried(sz.t)), None) is None:
            R.unsure(l.where, "the result has no counted size while it is written")
    if not content:
        return
    bad, got = l.compare(R, vals, cnt, ref, lanes)
    R.ob(not bad, l.where, "wrong mapping: %s" % some(bad, lambda c: "%s gives %s instead of %s" % (u(c), got(c), ul(ref[c]) if c in ref else u(c))))


def anchor(R, m, name, where):
    f = m.fn(name, required=False)
    if f is None:
        R.unsure(where, "no function %s" % name)
    return f


# ---------------------------------------------------------------------- canonical decomposition
DEC = "idna::decompose(u32string&, unsigned long)"
CDL = "idna::compute_decomposition_length(u32view)"


def decomp_ref():
    """full canonical decomposition of every code point that has one"""
    ref = {int(c): tuple(s) for c, s in uni()["nfd"].items()}
    for c in range(0xAC00, 0xAC00 + 11172):
        i = c - 0xAC00
        ref[c] = (0x1100 + i // 588, 0x1161 + i % 588 // 28) + ((0x11A7 + i % 28,) if i % 28 else ())
    return ref


def decompose_loop(R, cfg):
    """(vec, loop, base, cnt, vals) of decompose"""
    m = ir.load_module(cfg, keep="keep_norm.txt")
    if anchor(R, m, DEC, "src/normalization.cpp (decompose)") is None:
        return None
    v = machine(m, DEC, obj=(0,))
    v.explore()
    R.functions.add("%s [%s]" % (v.fn.short, cfg))
    R.states += sum(len(r.out) for r in v.runs)
    hs = [h for h in v.order if h in v.cuts]
    if len(hs) != 1:
        raise Undecided("%d loops over the input" % len(hs))
    l = Loop(v, hs[0])
    obj = ('obj', 0)
    SZ = ('sz', obj, 0)
    if l.full(SZ) != -1:
        raise Undecided("loop at %s does not visit every unit from the back" % l.where)
    if l.leave or l.ret:
        raise Undecided("loop at %s is left early" % l.where)
    if [e for r in v.runs for e in r.events if e.kind in ('call', 'wild')]:
        raise Undecided("a call or write that is not understood")
    if any(e.kind == 'write' for r in v.runs if r is not l.it for e in r.events):
        raise Undecided("a write outside the loop")
    base, cnt, vals, prob = l.writes(obj, down=True)
    for k, w, msg in prob:
        (R.bad if k == 'bad' else R.unsure)(w, msg)
    if any(k == 'unsure' for k, *_ in prob) or base is None:
        raise Undecided("write positions")
    # reads of the unit itself must come before its place is overwritten
    for k, e, at in vals:
        if k == 'read' and (at >= np.maximum(cnt[e.lanes], 1)).any():
            raise Undecided("a unit is read again after its place was written, at %s" % e.ins.where())
    w = l.carried(base)
    if w is None:
        raise Undecided("write position")
    d, okd = l.delta(w)
    if not okd.all():
        raise Undecided("the write position is not tracked")
    bad = [int(c) for c in np.nonzero(d != -cnt)[0]]
    R.ob(not bad, l.where, "the position moves by another number than was written: %s" % some(bad, lambda c: "%s moves %d, writes %d" % (u(c), -d[c], cnt[c])) if bad else None)
    # size: the units are placed at the end of a buffer of size + argument
    st = l.init(w)
    size = l.enter[0].mem.get(('size', obj))
    want = v.F.id({SZ: 1, ('arg', 1): 1})
    good = st is not None and st.scalar() and size is not None and size.scalar()
    R.ob(None if not good else st.t == want and st.a == 0 and size.t == want and size.a == 0, l.where,
         "the last unit is not written at the end of a buffer enlarged by the counted number of elements")
    for r in l.ex:
        for o in r.out:
            sz = o.mem.get(('size', obj))
            if sz is None or not sz.scalar() or (sz.t, sz.a) != (size.t, size.a):
                raise Undecided("the size changes after the loop")
    finds(R, v)
    return v, l, base, cnt, vals


def length_loop(R, cfg):
    """(needed lanes, per-lane number of additional elements)"""
    m = ir.load_module(cfg, keep="keep_norm.txt")
    if anchor(R, m, CDL, "src/normalization.cpp (compute_decomposition_length)") is None:
        return None
    v = machine(m, CDL, view=(0, 1))
    v.explore()
    R.functions.add("%s [%s]" % (v.fn.short, cfg))
    R.states += sum(len(r.out) for r in v.runs)
    hs = [h for h in v.order if h in v.cuts]
    if len(hs) != 1:
        raise Undecided("%d loops over the input" % len(hs))
    l = Loop(v, hs[0])
    if l.full('N') != 1 or l.leave or l.ret:
        raise Undecided("loop at %s does not simply visit every unit" % l.where)
    rets = [(r, o) for r in l.ex for o in r.out if o.kind == 'ret']
    if not rets or any(not isinstance(o.val, dict) for r, o in rets):
        raise Undecided("result")
    need = add = None
    for r, o in rets:
        a, b = o.val.get((0,)), o.val.get((1,))
        if a is None or b is None or not a.scalar() or not b.scalar() or a.a or b.a:
            raise Undecided("result")
        pa, pb = l.carried(a.t), l.carried(b.t)
        if pa is None or pb is None or (need, add) not in ((None, None), (pa, pb)):
            raise Undecided("result")
        need, add = pa, pb
    for p, what in ((need, "flag"), (add, "count")):
        st = l.init(p)
        R.ob(None if st is None or not st.const() else st.a == 0, l.where, "the %s does not start at 0" % what)
    d, okd = l.delta(add)
    if not okd.all():
        raise Undecided("the count is not tracked")
    me = v.F.id({('phi', need): 1})
    flag = np.full(N, -1, np.int64)       # 1: set, 0: kept
    for o in l.back:
        x = o.phis[need]
        t = np.broadcast_to(x.t, len(o.lanes))
        a = np.broadcast_to(np.asarray(x.a, np.uint64), len(o.lanes))
        flag[o.lanes[(t == me) & (a == 0)]] = 0
        flag[o.lanes[(t == 0) & (a == 1)]] = 1
        z = (t == 0) & (a == 0)
        if z.any():
            R.ob(False, l.where, "%s resets the flag that a decomposition is needed" % u(int(o.lanes[z][0])))
            flag[o.lanes[z]] = 0
    if (flag < 0).any():
        raise Undecided("the flag is not tracked")
    finds(R, v)
    return v, l, flag == 1, d


def size_check(R, cfg):
    a = decompose_loop(R, cfg)
    b = length_loop(R, cfg)
    if a is None or b is None:
        return
    v, l, base, cnt, vals = a
    v2, l2, need, add = b
    R.count("units decided", N)
    R.count("buffers")
    bad = [int(c) for c in np.nonzero(add != cnt - 1)[0]]
    R.ob(not bad, l2.where, "the counted additional elements differ from what decompose writes: %s" % some(bad, lambda c: "%s counts %d, decompose writes %d" % (u(c), add[c], cnt[c])) if bad else None)
    bad = [int(c) for c in np.nonzero(~need & (add != 0))[0]]
    R.ob(not bad, l2.where, "%s adds elements but does not ask for decomposition" % (u(bad[0]) if bad else ""))
    glue(R, cfg, sizes=True)


NFC = "idna::decompose_nfc(u32string&)"


class Glue(vec.Vec):
    """straight-line code around calls: one lane, every call an event"""
    def hook(self, i, L, n, a, w):
        if n.startswith(CDL):
            self.run.events.append(vec.Event('call', L, i, name=n, args=a))
            self.range[('need',)] = (0, 1)
            if i.ty and i.ty.startswith('i'):
                return NotImplemented
            return self.give(i, {(0,): self.sym(('need',), 8), (1,): self.sym(('extra',))})
        return NotImplemented


def glue(R, cfg, sizes):
    m = ir.load_module(cfg, keep="keep_norm.txt")
    w = "src/normalization.cpp (decompose_nfc)"
    f = anchor(R, m, NFC, w)
    if f is None:
        return
    v = machine(m, NFC, obj=(0,), n=1, cls=Glue, units=None)
    v.explore()
    R.functions.add("%s [%s]" % (f.short, cfg))
    if v.cuts:
        raise Undecided("loop in decompose_nfc")
    obj = v.F.id({('obj', 0): 1})
    form = v.canon({('need',): 1})[0]
    seen = 0
    for r in v.runs:
        calls = [e for e in r.events if e.kind == 'call']
        names = [e.name.split('(')[0] for e in calls]
        if any(n not in ('idna::compute_decomposition_length', 'idna::decompose', 'idna::sort_marks') for n in names) or \
                any(e.kind != 'call' for e in r.events):
            raise Undecided("other effects in decompose_nfc")
        if names[:1] != ['idna::compute_decomposition_length']:
            raise Undecided("the length is not computed first")
        a = calls[0].args
        if len(a) != 2 or not a[0].scalar() or not a[1].scalar() or (v.F.get(a[0].t), a[0].a) != ({('sz', ('obj', 0), 0): 1}, 0) or (v.F.get(a[1].t), a[1].a) != ({('buf', ('obj', 0)): 1}, 0):
            raise Undecided("the length of something else is computed")
        lo, hi = v.bounds(form, r)
        dec = [e for e in calls if e.name.startswith(DEC)]
        seen += 1
        if sizes:
            for e in dec:
                x = e.args[1]
                R.ob(None if not x.scalar() or x.t == TOP else v.F.get(x.t) == {('extra',): 1} and x.a == 0 or (hi == 0 and x.const() and x.a == 0),
                     e.ins.where(), "decompose is not given the number of elements that was counted")
        else:
            if lo == 1:
                R.ob(len(dec) >= 1, w, "the string is not decomposed although a unit has a decomposition")
            if len(dec) > 1:
                raise Undecided("decompose is called more than once")
            s = [k for k, n in enumerate(names) if n == 'idna::sort_marks']
            d = [k for k, n in enumerate(names) if n == 'idna::decompose']
            R.ob(bool(s) and (not d or s[-1] > d[-1]), w, "marks are not sorted after decomposition")
    if not seen:
        raise Undecided("decompose_nfc")
    R.count("glue paths", seen)


@prop("C25")
def c25(R, tier):
    R.rule("for every 32-bit unit, decompose writes in order exactly the full canonical decomposition (Hangul syllables by the Hangul rule, anything else without one as itself)")
    R.rule("compute_decomposition_length asks for decomposition for every unit that has one, and decompose_nfc then calls decompose and sorts afterwards")
    R.notes += TRUST + ["tables are initialised (C09, C10)", "reference: full canonical decompositions of Unicode 17 (node ICU)"]
    for cfg in (["host"] if tier == "quick" else ["host", "be"]):
        guarded(R, "src/normalization.cpp (decompose)", decomp_check, R, cfg)
    R.need("units decided", N)
    R.need("decompositions compared", 13000)


def decomp_check(R, cfg):
    a = decompose_loop(R, cfg)
    b = length_loop(R, cfg)
    if a is None or b is None:
        return
    v, l, base, cnt, vals = a
    ref = decomp_ref()
    R.count("units decided", N)
    R.count("decompositions compared", len(ref))
    bad, got = l.compare(R, vals, cnt, ref, np.arange(N), down=True)
    late = flags(uni()["late"])
    gap = [c for c in bad if late[c] and cnt[c] == 1 and got(c) == u(c)]
    if gap:
        R.bad("decomposition tables", "%d canonical decompositions of characters newer than Unicode 15 are missing (digest %s)" % (len(gap), digest(gap)))
    rest = [c for c in bad if c not in set(gap)]
    R.ob(not rest, l.where, "not the canonical decomposition: %s" % some(rest, lambda c: "%s becomes %s instead of %s" % (u(c), got(c), ul(ref.get(c, (c,))))) if rest else None)
    v2, l2, need, add = b
    dec = np.zeros(N, bool)
    # units that decompose really rewrites
    M = np.ones(N, bool)
    for k, e, at in vals:
        if k == 'write':
            x = e.val
            t = np.broadcast_to(x.t, len(e.lanes))
            a_ = np.broadcast_to(np.asarray(x.a, np.uint64), len(e.lanes))
            same = (t == 0) & (a_ == X[e.lanes])
            same |= (e.lanes == CP)
            M[e.lanes[~same]] = False
    dec = ~M | (cnt != 1)
    bad = [int(c) for c in np.nonzero(dec & ~need)[0]]
    R.ob(not bad, l2.where, "%s has a decomposition but does not ask for one" % (u(bad[0]) if bad else ""))
    glue(R, cfg, sizes=False)


# ---------------------------------------------------------------------- combining classes
CCC = "idna::get_ccc(char32_t)"
SORT = "idna::sort_marks(u32string&)"


@prop("C35")
def c35(R, tier):
    R.rule("get_ccc is the canonical combining class for every 32-bit value")
    R.rule("sort_marks takes every unit from the second on in order and moves it, if its class is not 0, back over exactly the directly preceding units of a higher class, for all 65536 pairs of classes")
    R.notes += TRUST + ["tables are initialised (C09, C10)", "reference: canonical combining classes of Unicode 17 (Python, node ICU)",
                        "insertion of every element in turn over larger predecessors sorts stably (standard)"]
    for cfg in (["host"] if tier == "quick" else ["host", "be"]):
        guarded(R, "src/normalization.cpp (get_ccc)", ccc_check, R, cfg)
        guarded(R, "src/normalization.cpp (sort_marks)", sort_check, R, cfg)
    R.need("values decided", N)
    R.need("pairs of classes", 65536)


def result_lanes(v):
    """per-lane returned number"""
    out = np.full(N, -1, np.int64)
    for r in v.runs:
        for o in r.out:
            if o.kind != 'ret':
                raise Undecided("loop")
            x = o.val
            if isinstance(x, dict) or x is None or (np.asarray(x.t) != 0).any():
                raise Undecided("the returned value is not tracked")
            out[o.lanes] = np.broadcast_to(np.asarray(x.a, np.uint64), len(o.lanes)).astype(np.int64)
    return out


def ccc_check(R, cfg):
    m = ir.load_module(cfg, keep="keep_norm.txt")
    f = anchor(R, m, CCC, "src/normalization.cpp (get_ccc)")
    if f is None:
        return
    v = machine(m, CCC, units=None)
    v.args[0] = units.big(v, np.arange(N))
    v.explore()
    if v.cuts or len(v.runs) != 1:
        raise Undecided("get_ccc depends on more than the code point")
    R.functions.add("%s [%s]" % (f.short, cfg))
    R.states += len(v.runs[0].out)
    finds(R, v)
    got = result_lanes(v)
    want = np.zeros(N, np.int64)
    for c, k in uni()["ccc"].items():
        want[int(c)] = k
    R.count("values decided", N)
    late = flags(uni()["late"])
    bad = np.nonzero((got != want) & (got >= 0))[0]
    gap = [int(c) for c in bad if late[c] and got[c] == 0]
    if gap:
        R.bad("combining class tables", "%d combining classes of marks newer than Unicode 15 are missing (digest %s)" % (len(gap), digest(gap)))
    gs = set(gap)
    rest = [int(c) for c in bad if int(c) not in gs]
    where = next(o.ins.where() for r in v.runs for o in r.out)
    R.ob(not rest, where, "wrong combining class: %s" % some(rest, lambda c: "%d for %s instead of %d" % (got[c], u(c), want[c])) if rest else None)


class Marks(vec.Vec):
    """lanes: class of the unit that is inserted * 256 + class of the unit before it"""
    def hook(self, i, L, n, a, w):
        if n.startswith(CCC) and a and a[0].scalar() and a[0].a == 0 and a[0].t != TOP:
            f = self.F.of[a[0].t]
            if len(f) == 1 and f[0][1] == 1 and f[0][0] in (('u', 'x'), ('u', 'y'), ('u', 'fixed')):
                k = L >> 8 if f[0][0][1] == 'x' else L & 255
                return vec.Val(8, 0, k.astype(np.uint64))
        return NotImplemented


def mark_unit(v, b, ix, L, i):
    h = v.run.head
    if h is None or not ix.scalar() or ix.t == TOP or b != ('buf', ('obj', 0)):
        return None
    own = [s for s in v.F.get(ix.t) if isinstance(s, tuple) and s[0] == 'it']
    l = v.fn.loops()[h]
    if l.parent is not None and l.parent.header in v.cuts:
        which = 'y' if ('it', h) in own else 'fixed'
    else:
        which = 'x'
    v.seen.setdefault(which, {})[(ix.t, ix.a)] = i.where()
    s = ('u', which)
    v.range[s] = (0, 0xFFFFFFFF)
    return v.sym(s, 32)


def sort_check(R, cfg):
    m = ir.load_module(cfg, keep="keep_norm.txt")
    f = anchor(R, m, SORT, "src/normalization.cpp (sort_marks)")
    if f is None:
        return
    v = machine(m, SORT, obj=(0,), n=65536, cls=Marks, units=mark_unit)
    v.seen = {}
    v.cuts = set(v.fn.loops())
    v.explore()
    R.functions.add("%s [%s]" % (f.short, cfg))
    R.states += sum(len(r.out) for r in v.runs)
    loops = v.fn.loops()
    hs = [h for h in v.order if h in v.cuts]
    if len(hs) != 2:
        raise Undecided("%d loops" % len(hs))
    outer, inner = sorted(hs, key=lambda h: len(loops[h].body), reverse=True)
    if loops[inner].parent is None or loops[inner].parent.header != outer:
        raise Undecided("the loops are not nested")
    SZ = ('sz', ('obj', 0), 0)
    if any(e.kind in ('wild', 'call', 'resize', 'clear') for r in v.runs for e in r.events):
        raise Undecided("an effect that is not understood")
    X_, Y_ = v.F.id({('u', 'x'): 1}), v.F.id({('u', 'y'): 1})
    it1, it2 = ('it', outer), ('it', inner)
    ow = v.fn.blocks[outer].ins[0].where()
    iw = v.fn.blocks[inner].ins[0].where()
    xs, ys, fx = v.seen.get('x', {}), v.seen.get('y', {}), v.seen.get('fixed', {})
    if len(xs) != 1 or len(ys) > 1 or len(ys) + len(fx) < 1:
        raise Undecided("units that are looked at")
    (xt, xa), = xs
    if v.F.get(xt) != {it1: 1} or xa > 1 << 40:
        raise Undecided("the position of the unit to insert")
    start = xa
    R.ob(start <= 1, ow, "the first unit that is inserted is the one at position %d" % start)
    for (t, a), w in fx.items():
        R.ob(False, w, "compares with the unit at a position that does not move with the insertion point")
    if fx:
        return
    # outer: every position up to the end
    need = np.zeros(65536, bool)
    lanes = np.arange(65536)
    cx, cy = lanes >> 8, lanes & 255
    form, g = v.canon({SZ: 1, it1: -1})
    direct = np.zeros(65536, bool)
    for r in v.runs:
        if r.head != outer:
            continue
        lo, hi = v.bounds(form, r)
        lo, hi = (lo, hi) if g > 0 else (None if hi is None else -hi, None if lo is None else -lo)
        for o in r.out:
            if o.kind == 'ret':
                # remaining = size - (start + it)
                R.ob(None if hi is None else hi - start <= 0, o.ins.where(), "the units at the end of the string are not inserted")
            elif o.kind == 'back' and o.h == outer:
                direct[o.lanes] = True
        if any(e.kind == 'write' for e in r.events):
            raise Undecided("a write outside the inner loop")
    for o in [o for k, o in v.starts.items() if k[0] == outer]:
        for p in v.fn.blocks[outer].phis():
            pass
    R.count("pairs of classes", 65536)
    miss = lanes[direct & (cx != 0) & (cy > cx)]
    R.ob(not len(miss), ow, "a mark of class %d is left behind one of class %d" % (miss[0] >> 8, miss[0] & 255) if len(miss) else None)
    # the steps of the counters are 1
    # inner
    back = None
    for o in [o for k, o in v.starts.items() if k[0] == inner]:
        for p in v.fn.blocks[inner].phis():
            x = o.phis[p.id]
            if x.scalar() and v.F.get(x.t) == {it1: 1} and v.step_of(p) == -1:
                back = (p.id, x.a - start)         # insertion point = phi - offset
    if back is None:
        raise Undecided("no insertion point")
    off = back[1]
    pos = lambda k: (v.F.id({it1: 1, it2: -1}), (start + k) & vec.mask(64))
    if ys:
        (yt, ya), = ys
        R.ob((yt, ya) == pos(-1) or (False if yt == pos(0)[0] else None), list(ys.values())[0], "compares with the unit %d places before the insertion point instead of the one before it" % (start - vec.sgn(ya, 64)))
    bform, bg = v.canon({it1: 1, it2: -1})
    zero, zg = v.canon({it2: 1})
    for r in v.runs:
        if r.head != inner:
            continue
        lo, hi = v.bounds(bform, r)
        lo, hi = (lo, hi) if bg > 0 else (None if hi is None else -hi, None if lo is None else -lo)
        atfront = hi is not None and hi + start <= 0
        behind = lo is not None and lo + start >= 1
        both = not atfront and not behind          # the insertion point may be the front of the string or not
        if both:
            if any(o.kind == 'back' and o.h == inner for o in r.out):
                R.ob(False if any(e.kind == 'read' for e in r.events) else None, iw, "a unit may be moved in front of the string")
                continue
            if hi is None or any(f != bform for f in r.facts):
                raise Undecided("the insertion point is not tested")
            behind = True
        wr = [e for e in r.events if e.kind == 'write']
        moved = np.zeros(65536, bool)
        left = np.zeros(65536, bool)
        for o in r.out:
            if o.kind == 'back' and o.h == inner:
                moved[o.lanes] = True
            else:
                left[o.lanes] = True
        reach = np.zeros(65536, bool)
        for o in [o for k, o in v.starts.items() if k[0] == inner]:
            reach[o.lanes] = True
        if behind:
            must = (cx != 0) & (cy > cx) & reach
            bad = lanes[left & must]
            R.ob(not len(bad), iw, "a mark of class %d stays behind one of class %d" % (bad[0] >> 8, bad[0] & 255) if len(bad) else None)
            bad = lanes[moved & ~must]
            R.ob(not len(bad), iw, "a unit of class %d is moved in front of one of class %d" % (bad[0] >> 8, bad[0] & 255) if len(bad) else None)
        fresh = v.bounds(zero, r)[1] == 0
        for lanesset, want, at, what in ((moved, Y_, pos(0), "the unit that is passed is not moved up by one"), (left, X_, pos(0), "the unit is not put at the insertion point")):
            if not lanesset.any():
                continue
            cover = np.zeros(65536, bool)
            for e in wr:
                hit = lanesset[e.lanes]
                if not hit.any():
                    continue
                ok = e.index.scalar() and e.val.scalar() and (e.index.t, e.index.a) == at and e.val.t == want and e.val.a == 0
                if not ok:
                    known = e.index.scalar() and e.val.scalar() and e.index.t == at[0] and e.val.t in (X_, Y_) and e.val.a == 0
                    R.ob(False if known else None, e.ins.where(), what)
                    return
                cover[e.lanes] = True
            if (lanesset & ~cover).any() and not (fresh and want == X_):
                R.ob(False, iw, what)
    R.obligations += 1
    R.discharged += 1


# ---------------------------------------------------------------------- identifiers
VN = "idna::valid_name_code_point(char32_t, bool)"


@prop("C26")
def c26(R, tier):
    R.rule("valid_name_code_point(c, first) is true exactly for $, _ and ID_Start (first) or $ and ID_Continue (not first) of Unicode 17 and false for anything that is no scalar value; decided for every 32-bit value")
    R.notes += TRUST + ["tables are initialised (C09, C10)", "reference: ID_Start and ID_Continue of Unicode 17 (node ICU)"]
    for cfg in (["host"] if tier == "quick" else ["host", "be"]):
        guarded(R, "src/identifier.cpp (valid_name_code_point)", name_check, R, cfg)
    R.need("values decided", 2 * N)


def name_check(R, cfg):
    m = ir.load_module(cfg, keep="keep_scan.txt")
    for first in (1, 0):
        v = None
        f = m.fn(VN)
        args = {1: vec.K(1, first)}
        v = machine(m, VN, args=args, units=None)
        v.args[0] = units.big(v, np.arange(N))
        v.explore()
        R.functions.add("%s [%s]" % (f.short, cfg))
        R.states += sum(len(r.out) for r in v.runs)
        if v.cuts:
            raise Undecided("a loop that does not depend on the value alone")
        want = flags(uni()["ids"] if first else uni()["idc"])
        want[ord('$')] = True
        if first:
            want[ord('_')] = True
        for r in v.runs:
            t, ff = split_returns(v, [o for o in r.out if o.kind == 'ret'])
            R.count("values decided", N)
            where = "%s:%s" % (f.file, f.line) if hasattr(f, 'file') else "src/identifier.cpp (valid_name_code_point)"
            where = next((o.ins.where() for o in r.out if o.kind == 'ret'), where)
            for got, ref, word in ((t, want, "accepts"), (ff, ~want, "rejects")):
                bad = [int(c) for c in np.nonzero(got & ~ref)[0]]
                R.ob(not bad, where, "%s %s %s position" % (word, some(bad, u), "in first" if first else "after the first") if bad else None)
            miss = [int(c) for c in np.nonzero(~t & ~ff)[0]]
            if miss and not v.finds:
                raise Undecided("no result for %s" % u(miss[0]))
        finds(R, v)
