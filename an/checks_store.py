"""C09, C10, C12, C13: the one-time table initialisation and the absence of other shared state."""
import ir, store
from checks import prop, TRUST

CF = ("host", "be")


def mod(c):
    return ir.load_module(c, keep="keep_scan.txt")


@prop("C09")
def c09(R, tier):
    R.rule("on every path of the initialisation: work is done only after winning a compare-and-exchange that changes the state; the ready state is stored "
           "(release) only after allocation, complete decompression, checksum comparison and all table pointer stores, with no write afterwards; success is "
           "returned only after storing it or after reading it with acquire ordering; every read of a table pointer in the library lies on paths on which "
           "the initialisation has answered true")
    for c in CF:
        store.protocol(R, mod(c), 'publish')
        store.guarded(R, mod(c))
    R.need('publications of complete, verified tables', 2)
    R.need('exclusive initialisations', 2)
    R.need('successful returns of other threads', 2)
    R.need('guarded table accesses', 20)
    R.notes += TRUST + ["the C++ memory model; operator new, inflate_raw and crc32_ieee behave as their own properties state"]


@prop("C10")
def c10(R, tier):
    R.rule("every path of the initialising thread ends in the ready or the failed state, failure releases the buffer exactly once and leaves no pointer to it; "
           "failure is returned only for a recorded failure or after a bounded but long wait; after a failed initialisation every API predicate answers false; "
           "the shipped data decompresses (independent decoder) to the declared size and checksum")
    for c in CF:
        store.protocol(R, mod(c), 'failure')
        store.failing(R, mod(c))
    store.blob(R, mod("host"))
    R.need('failures recorded', 2)
    R.need('winner paths', 3)
    R.need('polling loops', 1)
    R.need('failures reported to the caller', 4)
    R.notes += TRUST


@prop("C12")
def c12(R, tier):
    R.rule("no function of the library writes a global, thread-local or function-local static variable or the shared tables, except the one-time "
           "initialisation, and none calls a function whose result depends on ambient state")
    for c in CF + ("simdutf",):
        store.no_state(R, mod(c))
    R.need('writes by the table initialisation', 18)
    R.need('writes to arguments, results and locals', 100)
    R.notes += TRUST


@prop("C13")
def c13(R, tier):
    R.rule("in the big-endian build every table with multi-byte entries is byte-swapped in place exactly once, with its own entry width over exactly its extent, "
           "after the checksum comparison; byte tables and the little-endian build rewrite nothing; every load from a table uses its entry width")
    for c in CF:
        store.endian(R, mod(c))
    R.need('tables converted', 12)
    R.need('tables used as they are', 18)
    R.need('table loads', 20)
    R.notes += TRUST + ["table widths follow from the offsets and counts in table_blob.inc"]
