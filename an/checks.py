"""Registry: property id -> check(R, tier)."""
import ir, absint, gates
from terms import *

TA, TU = "idna::to_ascii(view, string&)", "idna::to_unicode(view, string&)"
CHECKS = {}
TRUST = ["clang 18 front end and LLVM inliner/SROA produce IR equivalent to the source",
         "std::string, std::string_view and the algorithms used behave as the C++ standard says"]


def prop(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


def configs(tier):
    return ["host", "simdutf"]


def gate(R, fn, mk, cfgs=("host",)):
    for c in cfgs:
        m = ir.load_module(c)
        try:
            ip, cl = gates.run(m, fn, mk)
        except absint.Undecided as e:
            R.unsure(fn, str(e))
            continue
        R.gate("%s [%s]" % (fn, c), ip, cl)


@prop("C01")
def c01(R, tier):
    R.rule("in to_ascii and to_unicode every conversion, mapping, allocation and success return is dominated by 'input length <= 16384', "
           "and a rejection before any of them implies 'input length > 16384'")
    gate(R, TA, lambda sh: gates.ToAsciiGate(sh, ('size',)), configs(tier))
    gate(R, TU, lambda sh: gates.ToUnicodeGate(sh, ('size',)), configs(tier))
    R.need('rejections before any work', 2)
    R.need('acceptances with the length known to be within the limit', 2)
    R.notes += TRUST


@prop("C02")
def c02(R, tier):
    R.rule("on every path on which to_ascii/to_unicode(view, string&) returns false the result string is empty; "
           "the string-returning forms return that result on success, and an empty string (to_ascii) or the input (to_unicode) on failure")
    gate(R, TA, lambda sh: gates.ToAsciiGate(sh, ('empty',)), configs(tier))
    gate(R, TU, lambda sh: gates.ToUnicodeGate(sh, ('empty',)), configs(tier))
    gate(R, "idna::to_ascii(view)", lambda sh: gates.StringForm(sh, TA, 'empty'))
    gate(R, "idna::to_unicode(view)", lambda sh: gates.StringForm(sh, TU, 'input'))
    R.need('failure returns', 2)
    R.need('returns', 4)
    R.notes += TRUST


@prop("C03")
def c03(R, tier):
    R.rule("every label copied into to_ascii's result that may start with 'xn--' is, on every path to success, known to have a punycode "
           "decoding that is non-ASCII, unchanged by mapping, in NFC, and valid")
    gate(R, TA, lambda sh: gates.ToAsciiGate(sh, ('ace',)), configs(tier))
    R.need('ACE labels with every gate', 1)
    R.need('copies: ACE prefix no', 1)
    R.notes += TRUST + ["the predicates map, is_already_nfc, normalize, is_ascii, is_label_valid mean what their own properties state"]


@prop("C04")
def c04(R, tier):
    R.rule("every decoded label written by to_unicode comes from an ASCII 'xn--' label of the input and is known to be non-ASCII, "
           "unchanged by mapping, in NFC and valid")
    gate(R, TU, lambda sh: gates.ToUnicodeGate(sh, ('ace',)), configs(tier))
    R.need('decoded labels with every gate', 1)
    R.notes += TRUST


@prop("C05")
def c05(R, tier):
    R.rule("every label punycode-encoded by to_ascii is a label of the mapped, NFC-normalised input, passed the validity rules, contains a "
           "non-ASCII code point and does not itself start with 'xn--'; the prefix 'xn--' is written directly before it")
    gate(R, TA, lambda sh: gates.ToAsciiGate(sh, ('ulabel', 'source')), configs(tier))
    R.need('punycode writes', 1)
    R.notes += TRUST


@prop("C07")
def c07(R, tier):
    R.rule("a path of to_ascii on which the whole input is ASCII within the limit returns true with the lower-cased input; "
           "only ASCII input takes that path")
    gate(R, TA, lambda sh: gates.ToAsciiGate(sh, ('carve',)), configs(tier))
    R.need('lower-cased ASCII results', 1)
    R.notes += TRUST


@prop("C08")
def c08(R, tier):
    R.rule("to_unicode succeeds for every input within the limit; per label exactly one piece is written: the input label verbatim or its "
           "complete UTF-8 decoding; a '.' follows iff the label ends at a dot; the scan starts at offset 0, resumes right behind the dot and "
           "ends at the end of the input")
    gate(R, TU, lambda sh: gates.ToUnicodeGate(sh, ('verbatim', 'total')), configs(tier))
    R.need('labels at the end without a dot', 1)
    R.need('labels followed by the dot that ended them', 1)
    R.need('scan starts at the beginning', 1)
    R.notes += TRUST


@prop("C33")
def c33(R, tier):
    R.rule("to_ascii walks the labels of the mapped text from its beginning to its end, writes exactly one piece per non-empty label and "
           "a '.' exactly where the mapped text has one")
    gate(R, TA, lambda sh: gates.ToAsciiGate(sh, ('walk',)), configs(tier))
    R.need('labels at the end without a dot', 1)
    R.need('labels followed by the dot that ended them', 1)
    R.need('scan starts at the beginning', 1)
    R.notes += TRUST


@prop("C06")
def c06(R, tier):
    R.rule("every path on which to_ascii returns false after the length check contains one of: the input does not decode as UTF-8, map() refuses the decoded input, a label of the mapped and normalised "
           "input fails is_label_valid or cannot be encoded, an xn-- label is not ASCII or its decoding fails, is ASCII or empty, changes under map() or normalize(), or fails is_label_valid, or the tables cannot be made")
    gate(R, TA, lambda sh: gates.ToAsciiGate(sh, ('reason',)), configs(tier))
    R.need('rejections after the length check', 10)
    R.need('rejected because an xn-- label is not valid', 4)
    R.need('rejected because the input is malformed', 2)
    R.notes += TRUST


@prop("C11")
def c11(R, tier):
    R.rule("every path on which to_unicode copies a label of the input to the result knows that the label does not start with xn-- or is not ASCII, or that the decoding of this very label fails, is ASCII or empty, "
           "changes under map() or normalize(), fails is_label_valid, or has no UTF-8 form")
    gate(R, TU, lambda sh: gates.ToUnicodeGate(sh, ('reason',)), configs(tier))
    R.need('labels shown as they are', 8)
    R.need('shown as it is because it does not start with xn--', 2)
    R.notes += TRUST
