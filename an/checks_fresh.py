"""C31: no access through a pointer, iterator or view whose buffer is gone."""
import ir, fresh
from checks import prop, TRUST, configs


def who(fn, k):
    b = k[0]
    if b.startswith("%a"):
        return "argument %s" % b[2:]
    d = fn.defs.get(b)
    return "a heap block" if d is not None and d.op == "call" else "a local string"


@prop("C31")
def c31(R, tier):
    R.rule("data-flow of every pointer into a string buffer or heap block (through phis, arithmetic, views, memory cells and library algorithms): none is dereferenced, "
           "copied through or passed on after an operation on its string that may replace, shrink or free the buffer, or after the block was freed")
    R.rule("a function that changes a string passed by reference does not get a view of the same string, unless it is done with the view before")
    R.notes += TRUST + ["distinct reference parameters of the public functions designate distinct strings, and the caller's input does not lie in the output string"]
    for cfg in configs(tier):
        m = ir.load_module(cfg, keep="keep.txt")
        sm = fresh.summaries(m)
        for f in m.fns.values():
            if not f.short.startswith("idna::"):
                continue
            r = fresh.analyse(f, m, sm)
            R.functions.add("%s [%s]" % (f.short, cfg))
            R.count("functions")
            R.count("accesses through pointers into strings", r.nuses)
            R.count("operations that may replace a buffer", r.ninval)
            R.count("pointers obtained from strings", r.norig)
            if not r.ok:
                R.unsure(f.short, "the data-flow does not settle")
            bad = {}
            for i, what, k, st in r.out:
                bad.setdefault(i.id, (i, what, k, st))
            for i, what, k, st in bad.values():
                site = f.defs[st].where() if st in f.defs else "?"
                if "view of it" in what:
                    R.ob(False, i.where(), "a view of %s is used with the string itself: %s" % (who(f, k), what.split("string itself to ")[1]))
                elif what.startswith("frees") or k[1] == 0 and f.defs.get(k[0]) is not None and f.defs[k[0]].op == "call":
                    R.ob(False, i.where(), "%s a block freed at %s" % (what, site))
                elif what == "returns":
                    R.ob(False, i.where(), "returns a pointer into %s" % who(f, k))
                else:
                    R.ob(False, i.where(), "a pointer into the buffer of %s %s after the buffer may have been replaced at %s" %
                         (who(f, k), {"reads": "is read through", "writes": "is written through"}.get(what, what), site))
            n = max(0, r.nuses - len(bad))
            R.obligations += n
            R.discharged += n
    R.need("functions", 40)
    R.need("accesses through pointers into strings", 300)
    R.need("operations that may replace a buffer", 50)
