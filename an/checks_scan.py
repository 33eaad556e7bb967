"""C14, C15, C27, C37: byte/code-point scanning functions decided over partitions of their input (boxes.py, scan.py)."""
import ir, scan, boxes
from boxes import Machine, Box
from checks import prop, TRUST


def mod(cfg):
    return ir.load_module(cfg, keep="keep_scan.txt")


def each(R, tier, job, cfgs=("host", "be")):
    for c in cfgs:
        m = mod(c)
        job(R, m, c == "be")
    R.notes += TRUST + ["buffer lengths are below 2^62, so position arithmetic does not wrap"]


@prop("C14")
def c14(R, tier):
    R.rule("utf8_to_utf32: for every partition class of the next input bytes one loop step writes exactly the scalar values of the well-formed "
           "sequences it consumes (Unicode table 3-7), returns 0 only in front of an ill-formed or truncated sequence, otherwise returns the number "
           "of units written at the end of the input, and reads only inside the input; utf32_length_from_utf8 counts the bytes that are not 80..BF")

    def job(R, m, big):
        scan.run(R, Machine(m.fn("idna::utf8_to_utf32("), 0, 1, 2, 1, 4, big=big), scan.Utf8ToUtf32())
        scan.run(R, Machine(m.fn("idna::utf32_length_from_utf8("), 0, 1, None, 1, None, big=big), scan.Utf8Count())
    each(R, tier, job)
    R.need('accepted sequences', 8)
    R.need('rejected sequences', 4)
    R.need('complete conversions', 1)
    R.need('units counted', 2)


@prop("C15")
def c15(R, tier):
    R.rule("utf32_to_utf8: one loop step writes exactly the UTF-8 encoding of the units it consumes, returns 0 only in front of a surrogate or a "
           "value above 10FFFF, otherwise the number of bytes written at the end of the input; utf8_length_from_utf32 adds 1, 2, 3 or 4 per unit")

    def job(R, m, big):
        scan.run(R, Machine(m.fn("idna::utf32_to_utf8("), 0, 1, 2, 4, 1, big=big), scan.Utf32ToUtf8())
        scan.run(R, Machine(m.fn("idna::utf8_length_from_utf32("), 0, 1, None, 4, None, big=big), scan.Utf32Len())
    each(R, tier, job)
    R.need('accepted sequences', 4)
    R.need('rejected sequences', 2)
    R.need('complete conversions', 1)
    R.need('units counted', 4)


@prop("C27")
def c27(R, tier):
    R.rule("contains_forbidden_domain_code_point passes a byte iff it is not a forbidden domain code point and not above 7F, answers true only for a "
           "forbidden byte and false only at the end of the input")

    def job(R, m, big):
        scan.run(R, scan.view_machine(m.fn("idna::contains_forbidden_domain_code_point("), 1, big),
                 scan.Any(lambda b, j: scan.inside(b, j, scan.FORBIDDEN), True))
    each(R, tier, job)
    R.need('answers', 2)
    R.need('units passed', 1)


@prop("C37")
def c37(R, tier):
    R.rule("is_ascii(view)/is_ascii(u32view) answer false exactly at a unit >= 80 and true only at the end; ascii_map replaces every byte of an ASCII "
           "buffer by its lower-case form, each once, touching nothing outside the buffer")

    def job(R, m, big):
        scan.run(R, scan.view_machine(m.fn("idna::is_ascii(view"), 1, big), scan.Any(lambda b, j: scan.inside(b, j, scan.HIGH8), False))
        scan.run(R, scan.view_machine(m.fn("idna::is_ascii(u32view"), 4, big),
                 scan.Any(lambda b, j: scan.uinside(b, j, [(0x80, 0xFFFFFFFF)]), False))
        base = Box()
        base.default = ~scan.HIGH8
        scan.run(R, Machine(m.fn("idna::ascii_map("), 0, 1, None, 1, None, inplace=True, big=big), scan.InPlace(scan.LOWER), base)
    each(R, tier, job)
    R.need('answers', 4)
    R.need('bytes mapped', 8)
