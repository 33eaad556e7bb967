"""C30: raw DEFLATE decompression stays inside its buffers and tables."""
import time
import ir
from bounds import L
from inflate import analyse
from ir import AnalysisError
from checks import prop, TRUST

INF = "idna::deflate::inflate_raw("
BUDGET = 560


def describe(b, i, kind, p):
    o = p[0]
    if o is None:
        return "an unknown object"
    if o[0] == "global":
        return "the table %s" % o[1]
    if o[0] == "arg":
        return {"%a0": "the input", "%a2": "the output buffer"}.get(o[1], "argument %s" % o[1])
    return "a local array of %s bytes" % b.obj_size(o)


@prop("C30")
def c30(R, tier):
    R.rule("every load, store, memset and memcpy of inflate_raw (everything inlined) and of the initialisers of its tables lies inside its object (input, output buffer, local array or member array): "
           "0 <= offset and offset + size <= extent follow from the dominating conditions, inductive loop inequalities and the content of the tables")
    R.rule("the returned size is at most dst_cap")
    R.notes += TRUST + ["buffers are shorter than 2^62 bytes", "src and dst point to src_len readable and dst_cap writable bytes which do not overlap"]
    end = time.time() + BUDGET * (4 if tier == "thorough" else 1)
    m = ir.load_module("host", keep="keep.txt")
    try:
        f = m.fn(INF)
    except AnalysisError as e:
        R.unsure(INF.rstrip("("), "not found: %s" % e)
        return
    log = []
    try:
        b = analyse(m, f, {"%a0": L(("v", "%a1")), "%a2": L(("v", "%a3"))}, ["%a1", "%a3"], end, log)
        items = [x for x in log if not isinstance(x, str)] + [b]
        for x in log:
            if isinstance(x, str):
                R.unsure("-", x)
        for x in items:
            one(R, x, end)
        ret(R, b)
    except TimeoutError:
        R.unsure(f.short, "the time allowed for the proof ran out")
        return
    R.need("accesses", 150)
    R.need("loops", 12)


def one(R, b, end):
    R.functions.add(b.fn.short)
    R.count("loops", len(b.fn.loops()))
    R.count("loop inequalities", sum(len(v) for v in b.inv.values()))
    R.count("code length tables recognised", len(b.axt))
    fails, n = [], 0
    for i, kind, p, size in b.obligations():
        n += 1
        R.obligations += 1
        if time.time() > end:
            raise TimeoutError
        r, why = b.prove_access(i, kind, p, size)
        R.count("accesses")
        if r is True:
            R.discharged += 1
            continue
        fails.append((i, kind, p, why, r))
    for i, kind, p, why, r in fails:
        w = i.where()
        t = "%s of %s: not shown to be inside (%s)" % ("copy" if kind.startswith("memcpy") else kind, describe(b, i, kind, p), why)
        if r is False and b.depends_on_codes(p):
            near = [x for x in sorted(b.near) if x[0] == p[0]]
            for _, at, msg in near:
                R.bad(at, msg + ", so that symbols are read outside of their table")
            if not near and p[0][0] != "global":
                R.unsure(w, t + ": the tables are not recognised as those of a canonical code")
            continue
        (R.bad if r is False and len(fails) <= max(8, n // 4) else R.unsure)(w, t)


def ret(R, b):
    for i in b.fn.instrs():
        if i.op == "ret" and i.o:
            R.obligations += 1
            R.count("returns")
            e = b.lin(i.o[0])
            if b.walk(i.blk.id, [], L(("v", "%a3")) - e, [400]):
                R.discharged += 1
            else:
                R.bad(i.where(), "the returned size may exceed the capacity of the output buffer")
