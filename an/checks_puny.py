"""C16, C17, C18: the punycode procedures of RFC 3492."""
import time
import ir, puny, bisim, poly
from poly import Undec, atom
from ir import AnalysisError
from checks import prop, TRUST

DEC, VER, ENC = "idna::punycode_to_utf32(", "idna::verify_punycode(", "idna::utf32_to_punycode("
BUDGET = 240


def m_starts(f, pairing):
    """constants with which the search for the next code point value starts"""
    out = []
    for h, s in pairing.items():
        if s == 'N':
            body = f.loops()[h].body
            for p in f.blocks[h].phis():
                for v, q in p.x["in"]:
                    if q not in body and isinstance(v, str) and v.startswith("c:32:"):
                        k = int(v.split(":")[2])
                        if k not in out:
                            out.append(k)
    return out


def run(R, name, make, esz):
    m = ir.load_module("host", keep="keep_norm.txt")
    f = m.fn(name)
    if make is puny.Encode and len([l for l in f.loops().values() if l.parent is None]) > 2:
        make = puny.EncodeChecked
    ps = puny.pairings(f, make().tree)
    if not ps:
        raise Undec("its loops do not correspond to those of the reference")
    end = poly.DEADLINE[0] = time.time() + BUDGET
    best, errs = None, []
    # steps of the reference per path of the function; whether the threshold may be carried around the digit loop
    for ahead, use_t in ((0, False), (0, True), (1, False), (3, False)):
        for pr in ps[:20]:
            for m0 in (m_starts(f, pr) or [0x10ffff])[:3] if issubclass(make, puny.Encode) else [None]:
                spec = make()
                spec.silent, spec.use_t = name == VER, use_t
                if m0 is not None:
                    spec.m0 = puny.C(m0)
                b = bisim.Bisim(puny.Puny(m, f, esz, set(pr), 'in'), spec, pr)
                b.deadline, b.ahead, b.m0 = end, ahead, m0
                try:
                    fails = b.solve()
                except Undec as e:
                    errs.append(e)
                    continue
                if best is None or b.best[0] < best[0]:
                    best = (b.best[0], fails, b)
                if not fails:
                    break
            if best is not None and not best[1]:
                break
        if best is not None and not best[1] or time.time() > end:
            break
    R.functions.add(f.short)
    if best is None:
        raise errs[0] if errs else Undec("no correspondence")
    b = best[2]
    if issubclass(make, puny.Encode) and not best[1] and b.m0 < 0x10ffff:
        h = next(h for h, x in b.pair.items() if x == 'N')
        R.bad("%s (utf32_to_punycode)" % f.blocks[h].ins[0].where().split(" ")[0], "the search for the next code point value starts from 0x%x, so larger code points are not found" % b.m0)
    return m, f, best[1], best[2]


def decide(R, name, make, esz):
    try:
        m, f, fails, b = run(R, name, make, esz)
    except Undec as e:
        R.unsure(name.rstrip("("), "not followed: %s" % e)
        return
    except AnalysisError:
        raise
    R.states += b.npaths
    R.count("loops of the reference", len(b.pair))
    R.count("values in correspondence", len(b.rel))
    R.count("paths between loop heads", b.good + len(fails))
    keys = {}
    for x in fails:
        keys.setdefault(x.key(), x)
    # a failed correspondence means a defect only when everything else corresponds
    total = b.good + len({id(x) for x in fails})
    hard = [x for x in keys.values() if not x.soft and not (b.weak.get((x.head, x.val)) and (x.head, x.val) not in b.free)]
    kinds = [x.kind for x in hard]
    definite = hard and (b.free or len(hard) == len(keys)) and "norel" not in kinds and "undec" not in kinds and kinds.count("rel") <= 4 and b.good >= 0.4 * max(total, 1)
    R.obligations += b.good + len(keys)
    R.discharged += b.good
    for x in list(keys.values())[:12]:
        w = "%s (%s)" % (x.where.split(" ")[0], f.short.split("(")[0].split("::")[-1])
        t = "%s: %s" % (b.spec.say(x.head) if x.head in b.spec.names else "at the start" if x.head == "entry" else "on a loop", x.msg)
        (R.bad if definite and x in hard else R.unsure)(w, t)
    for (h, v), c in sorted(b.rel.items(), key=str)[:8]:
        R.samples.append("%s at %s corresponds to %s" % (v if isinstance(v, str) else "memory %s+%d" % v[:2], f.blocks[h].ins[0].where(), c))


NOTES = ["inputs are shorter than 2^30 units", "std::basic_string and std::basic_string_view behave as documented",
         "facts about the reference procedures themselves (ranges of k, bias, delta, i) are stated in an/puny.py and hold independently of the library"]


@prop("C16")
def c16(R, tier):
    R.rule("on every path between loop heads, the decoder makes the step of RFC 3492, section 6.2 (maxint 2^31-1, digits a-z 0-9) on corresponding values: same tests, same insertions, same failures, no signed overflow, no access outside the input")
    R.rule("it fails in addition exactly when the result starts with xn--")
    R.notes += TRUST + NOTES + ["the result string is empty on entry"]
    decide(R, DEC, puny.Decode, 1)
    R.need("loops of the reference", 4)


@prop("C17")
def c17(R, tier):
    R.rule("on every path between loop heads, verify_punycode makes the step of the decoder of RFC 3492 (as in C16) on corresponding values, keeping the first four elements and the number of elements, and answers true exactly where decoding succeeds")
    R.notes += TRUST + NOTES
    decide(R, VER, puny.Decode, 1)
    R.need("loops of the reference", 4)


@prop("C18")
def c18(R, tier):
    R.rule("on every path between loop heads, the encoder makes the step of RFC 3492, section 6.3 on corresponding values and appends the same characters; it fails exactly for surrogates, values above U+10FFFF and when delta exceeds 2^31-1; no signed overflow")
    R.notes += TRUST + NOTES
    decide(R, ENC, puny.Encode, 4)
    R.need("loops of the reference", 6)
