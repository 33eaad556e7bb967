"""C19, C20, C21, C38: the label validity rules, decided as equalities of regular languages."""
import hashlib, json, os
import ir, labels, tables
from ir import AnalysisError
from boxes import Undecided
from words import TooBig
from checks import prop, TRUST

_u = {}


def ucd():
    if not _u:
        _u.update(json.load(open(os.path.join(ir.VERIF, "data", "ucd.json"))))
    return _u


def norm(rs):
    out = []
    for a, b in sorted(map(tuple, rs)):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def inv(rs, top=0xFFFFFFFF):
    out, p = [], 0
    for a, b in norm(rs):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= top:
        out.append((p, top))
    return out


def cut(a, b):
    return inv(list(inv(a)) + list(inv(b)))


def sub(a, b):
    return cut(a, inv(b))


BIDI = "NONE BN CS ES ON EN L R NSM AL AN ET WS RLO LRO PDF RLE RLI FSI PDI LRI B S LRE".split()


def show(rs, n=6):
    l = ["U+%04X" % a if a == b else "U+%04X..%04X" % (a, b) for a, b in rs]
    return ", ".join(l[:n]) + (" and %d more ranges" % (len(l) - n) if len(l) > n else "")


def count(rs):
    return sum(b - a + 1 for a, b in rs)


def digest(x):
    return hashlib.sha256(json.dumps(x).encode()).hexdigest()[:10]


class Labels:
    """is_label_valid as languages, and the sets of the rules"""
    def __init__(self, R, cfg):
        self.R, self.cfg = R, cfg
        m = ir.load_module(cfg, keep="keep_scan.txt")
        self.tb = tb = tables.load(m)
        f = m.fn("idna::is_label_valid(")
        R.functions.add(f.short if hasattr(f, 'short') else f.name)
        self.where = "%s (is_label_valid)" % f.blocks[f.entry].ins[0].where().split(' ')[0]
        self.fwhere = "src/validity.cpp (is_label_valid)"
        need = lambda k: k in tb.sections or self.gone(k)
        for k in ("dir_start", "dir_final", "dir_value", "combining_flat"):
            need(k)
        ds, df, dv = [[int(x) for x in tb.arr(k)] for k in ("dir_start", "dir_final", "dir_value")]
        n = min(len(ds), len(df), len(dv))
        self.dir = {}
        for a, b, v in zip(ds[:n], df[:n], dv[:n]):
            if a <= b and v < len(BIDI):
                self.dir.setdefault(BIDI[v], []).append((a, b))
        self.dir = {k: norm(v) for k, v in self.dir.items()}
        self.sorted = all(df[i] < ds[i + 1] for i in range(n - 1)) and len(ds) == len(df) == len(dv)
        cf = [int(x) for x in tb.arr("combining_flat")]
        self.comb = norm(list(zip(cf[0::2], cf[1::2])))
        u = ucd()
        self.virama = norm(u["ccc"]["9"])
        j = u["joining"]
        self.assigned = norm(u["assigned"])
        self.LD, self.RD, self.T = norm(j["L"] + j["D"]), norm(j["R"] + j["D"]), norm(j["T"])
        gap = json.load(open(os.path.join(ir.VERIF, "data", "contextj_gap.json")))
        self.LDg, self.RDg = sub(self.LD, gap["LD"]), sub(self.RD, gap["RD"])
        self.zw = [(0x200C, 0x200C)], [(0x200D, 0x200D)]
        self.extra = [v for v in self.dir.values()] + [self.comb, self.virama, self.LD, self.RD, self.T, self.LDg, self.RDg, *self.zw]
        self.ok = False
        big = cfg == "be"
        try:
            if len(f.args) == 2:
                M = labels.PosMachine(f, 1, 0, tb, big=big)
            elif len(f.args) == 1:
                M = labels.PosMachine(f, None, None, tb, big=big, viewarg=0)
            else:
                raise Undecided("unexpected signature")
            M.build()
            self.M = M
            for w, msg in M.undec[:8]:
                R.unsure(w, msg)
            self.L = L = labels.Langs(M, self.extra)
            self.W, self.al = L.W, L.al
            self.res = L.solve()
            self.ok = True
            self.yes = self.res.get(('ret', 1)) or self.W.false()
            self.no = self.res.get(('ret', 0)) or self.W.false()
            R.count("paths between loop headers", sum(len(x.edges) for x in [M.start] + list(M.nodes.values())))
            R.count("loop headers with a position", len({x.h for x in M.nodes.values() if x.own}))
            R.count("classes of code points", L.al.n)
            R.count("states of the result automata", self.yes.n + self.no.n)
            R.states += M.steps
        except (Undecided, TooBig) as e:
            R.unsure(self.fwhere, "%s" % e)
        except AnalysisError:
            raise
        except Exception as e:
            R.unsure(self.fwhere, "analysis failed: %s: %s" % (type(e).__name__, e))

    def gone(self, k):
        raise AnalysisError("anchor vanished: table section %s" % k)

    def cl(self, s):
        return self.al.classes(s)

    def dirs(self):
        out = {c: 'NONE' for c in range(2, self.W.C)}
        for k, v in self.dir.items():
            for c in self.cl(v):
                out[c] = k
        return out

    # ---------------------------------------------------------------- specifications
    def lang(self, start, step, acc):
        """language given by a deterministic scan over the letters"""
        def st(s, c, m):
            if s == 'start':
                return start if c == 0 else None
            if s == 'end' or c == 0:
                return None
            if c == 1:
                return 'end' if acc(s) else None
            return step(s, c)
        return self.W.explore((), 'start', st, lambda s: s == 'end')

    def bidi(self):
        """RFC 5893 section 2, for labels with a character of type R, AL or AN; any other label is fine"""
        d = self.dirs()
        RTL, LTRok = {'R', 'AL', 'AN'}, {'L', 'EN', 'ES', 'CS', 'ET', 'ON', 'BN', 'NSM'}
        RTLok = {'R', 'AL', 'AN', 'EN', 'ES', 'CS', 'ET', 'ON', 'BN', 'NSM'}

        def step(s, c):
            first, rtl, okl, okr, en, an, last = s
            x = d[c]
            if first is None:
                first = x if x in ('L', 'R', 'AL') else '?'
                first = 'R' if first == 'AL' else first
            return (first, rtl or x in RTL, okl and x in LTRok, okr and x in RTLok, en or x == 'EN', an or x == 'AN', last if x == 'NSM' else x)

        def acc(s):
            first, rtl, okl, okr, en, an, last = s
            if not rtl:
                return True
            if first == 'L':
                return okl and last in ('L', 'EN')
            if first == 'R':
                return okr and last in ('R', 'AL', 'EN', 'AN') and not (en and an)
            return False
        return self.lang((None, False, True, True, False, False, None), step, acc)

    def marks(self):
        c0 = self.cl(self.comb)
        return self.lang(0, lambda s, c: 1 if s == 0 and c not in c0 or s == 1 else None, lambda s: True)

    def joiners(self, LD, RD, strict):
        """RFC 5892 appendix A.1 and A.2; not strict: a joining letter anywhere before and anywhere after"""
        V, LD, RD, Tn = self.cl(self.virama), self.cl(LD), self.cl(RD), self.cl(self.T)
        nj, j = self.cl(self.zw[0]), self.cl(self.zw[1])

        # state: previous is virama, joining context on the left, waiting for a joining letter on the right
        def step(s, c):
            vir, left, wait = s
            if wait and c not in RD and strict and c not in Tn:
                return None
            if c in RD:
                wait = False
            if c in j and not vir:
                return None
            if c in nj and not vir:
                if not left:
                    return None
                wait = True
            left = c in LD or (left and (not strict or c in Tn))
            return (c in V, left, wait)
        return self.lang((False, False, False), step, lambda s: not s[2])

    def plain(self):
        z = self.cl(self.zw[0]) | self.cl(self.zw[1])
        return self.lang(0, lambda s, c: None if c in z else 0, lambda s: True)

    def all(self):
        return self.lang(0, lambda s, c: 0, lambda s: True)

    def nonempty(self):
        return self.lang(0, lambda s, c: 1, lambda s: s == 1)

    def expect(self, a, msg, rule=None):
        """the language must be empty"""
        w = self.W.witness(a)
        self.R.ob(w is None, self.where, None if w is None else "%s, e.g. the label %s [%s]" % (msg, self.al.spell(w), self.cfg), rule)
        return w is None


def configs(tier):
    return ("host", "be") if tier == "thorough" else ("host",)


@prop("C19")
def c19(R, tier):
    R.rule("the set of all labels on which is_label_valid returns true, computed as a finite automaton from its IR, satisfies RFC 5893 section 2 for every label "
           "with an R, AL or AN character; no label that satisfies it (and has no joiner, and no leading mark) is refused; the Bidi table holds the UCD classes")
    for c in configs(tier):
        X = Labels(R, c)
        bidi_data(R, X)
        if not X.ok:
            continue
        B, P, C = X.bidi(), X.plain(), X.marks()
        X.expect(X.W.minus(X.yes, B), "is_label_valid accepts a label that breaks the Bidi rule")
        X.expect(X.W.both(X.no, X.W.both(B, X.W.both(P, C))), "is_label_valid refuses a label that satisfies the Bidi rule")
        R.count("language comparisons", 2)
        done(R, X)
    R.need("language comparisons", 2)
    R.need("paths between loop headers", 20)
    R.need("Bidi classes compared", 280000)
    R.notes += TRUST


def done(R, X):
    R.samples.append("accepted labels: %d states, refused labels: %d states over %d classes; shortest refused: %s" %
                     (X.yes.n, X.no.n, X.al.n, X.al.spell(X.W.witness(X.no) or [])))


def bidi_data(R, X):
    u = ucd()
    known = norm([r for v in u["bidi"].values() for r in v])
    where = "src/table_blob.inc (dir_start, dir_final, dir_value)"
    R.ob(X.sorted, where, "the Bidi ranges are not sorted and disjoint")
    wrong = {}
    for k, rs in u["bidi"].items():
        bad = sub(rs, X.dir.get(k, []))
        for a, b in bad:
            for k2 in BIDI:
                x = cut([(a, b)], X.dir.get(k2, [])) if k2 != 'NONE' else sub([(a, b)], [r for v in X.dir.values() for r in v])
                for r in x:
                    wrong.setdefault((k, k2), []).append(r)
    R.count("Bidi classes compared", count(known))
    late = norm([r for (k, k2), v in wrong.items() for r in v])
    if late:
        R.bad(where, "%d code points have another Bidi class in Unicode 15 than in the table (digest %s)" % (count(late), digest(sorted([k, k2, norm(v)] for (k, k2), v in wrong.items()))),
              ", ".join("%s not %s: %s" % (k2, k, show(norm(v))) for (k, k2), v in sorted(wrong.items())))
    R.obligations += 1


@prop("C20")
def c20(R, tier):
    R.rule("the set of all labels on which is_label_valid returns true, computed as a finite automaton from its IR, lies between the labels that satisfy RFC 5892 "
           "A.1/A.2 and those that satisfy it with joining letters at any distance; viramas are the code points with combining class 9")
    for c in configs(tier):
        X = Labels(R, c)
        if not X.ok:
            continue
        W = X.W
        hi, lo = X.joiners(X.LD, X.RD, False), X.joiners(X.LDg, X.RDg, True)
        strict = X.joiners(X.LD, X.RD, True)
        other = W.both(X.bidi(), X.marks())
        X.expect(W.minus(X.yes, hi), "is_label_valid accepts a label in which a joiner has neither a virama before it nor joining letters on both sides")
        X.expect(W.both(X.no, W.both(lo, other)), "is_label_valid refuses a label in which every joiner is in a valid context")
        R.count("language comparisons", 2)
        if W.witness(W.minus(W.both(X.yes, hi), strict)) is not None:
            R.bad(X.fwhere, "zero width non-joiner is accepted with joining letters that are not adjacent to it")
        if W.witness(W.minus(W.both(X.no, W.both(strict, other)), lo)) is not None:
            R.bad(X.fwhere, "joining letters missing from the lists L, D, R are not recognised next to a zero width non-joiner")
        done(R, X)
    R.need("language comparisons", 2)
    R.need("paths between loop headers", 20)
    R.notes += TRUST


@prop("C21")
def c21(R, tier):
    R.rule("no label in the automaton of accepted labels starts with a combining mark, and no label is refused because of its first character "
           "unless that is a combining mark; the combining ranges hold the general categories Mn, Mc and Me")
    for c in configs(tier):
        X = Labels(R, c)
        where = "src/table_blob.inc (combining)"
        M = norm(ucd()["mark"])
        extra, missing = cut(sub(X.comb, M), X.assigned), sub(M, X.comb)
        R.count("code points compared", count(X.assigned))
        R.ob(not extra, where, "code points that are not marks are listed: %s" % show(extra))
        R.obligations += 1
        if missing:
            R.bad(where, "%d marks of Unicode 15 are missing (digest %s)" % (count(missing), digest(missing)), show(missing))
        if not X.ok:
            continue
        W = X.W
        C, P, B = X.marks(), X.plain(), X.bidi()
        X.expect(W.minus(X.yes, C), "is_label_valid accepts a label that starts with a combining mark")
        X.expect(W.both(X.no, W.both(B, W.both(P, C))), "is_label_valid refuses a label that does not start with a combining mark and breaks no other rule")
        R.count("language comparisons", 2)
        done(R, X)
    R.need("language comparisons", 2)
    R.need("paths between loop headers", 20)
    R.need("code points compared", 280000)
    R.notes += TRUST


@prop("C38")
def c38(R, tier):
    R.rule("the automaton of accepted labels equals the conjunction of the three rules, every label is either accepted or refused, the empty label is accepted, "
           "and the languages of labels on which a read lies outside the label or a table are empty")
    for c in configs(tier):
        X = Labels(R, c)
        if not X.ok:
            continue
        W = X.W
        B, C = X.bidi(), X.marks()
        hi, lo = X.joiners(X.LD, X.RD, False), X.joiners(X.LDg, X.RDg, True)
        up, down = W.both(W.both(B, C), hi), W.both(W.both(B, C), lo)
        X.expect(W.minus(X.yes, up), "is_label_valid accepts an invalid label")
        X.expect(W.both(X.no, down), "is_label_valid refuses a valid label")
        X.expect(W.minus(X.no, X.nonempty()), "is_label_valid refuses the empty label")
        R.count("language comparisons", 3)
        for k, a in X.res.items():
            if k[0] == 'oob':
                R.bad(k[1], "reads outside the label, e.g. for %s [%s]" % (X.al.spell(W.witness(a)), c))
            elif k[0] == 'over':
                R.bad(k[1], "the loop runs past the end of the label, e.g. for %s [%s]" % (X.al.spell(W.witness(a)), c))
        for w, msg in X.M.finds:
            R.bad(w, msg)
        R.obligations += 2
        rest = W.neg(W.either(X.yes, X.no))
        for k, a in X.res.items():
            if k[0] in ('oob', 'over'):
                rest = W.minus(rest, a)
        w = W.witness(rest)
        if w is not None and not X.M.undec:
            R.unsure(X.fwhere, "no outcome computed for %s" % X.al.spell(w))
        R.count("outcomes", len(X.res))
        done(R, X)
    R.need("language comparisons", 3)
    R.need("paths between loop headers", 20)
    R.notes += TRUST
