#!/usr/bin/env python3
"""Writes data/ucd.json, the independent Unicode data the checks compare with: Python's unicodedata (Unicode 15.0) and the
joining types of the idna package (argument: a directory with the unpacked wheel, Unicode 18.0)."""
import sys, json, os, unicodedata as U
sys.path.insert(0, sys.argv[1])
import idna.idnadata as I


def ranges(f):
    out = {}
    prev = None
    for c in range(0x110001):
        v = f(c) if c < 0x110000 else None
        if v != prev:
            if prev:
                out.setdefault(prev, []).append([s, c - 1])
            s, prev = c, v
    return out


ch = chr
d = {"bidi": ranges(lambda c: U.bidirectional(ch(c))),
     "mark": ranges(lambda c: "M" if U.category(ch(c))[0] == "M" else None)["M"],
     "assigned": ranges(lambda c: "A" if U.category(ch(c)) != "Cn" else None)["A"],
     "ccc": ranges(lambda c: str(U.combining(ch(c))) if U.combining(ch(c)) else None),
     "joining": {k: [[x >> 32, (x & 0xffffffff) - 1] for x in v] for k, v in I.joining_types.items()},
     "decomp": {}}
for c in range(0x110000):
    x = U.decomposition(ch(c))
    if x and not x.startswith("<"):
        d["decomp"][str(c)] = [int(y, 16) for y in x.split()]
json.dump(d, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "ucd.json"), "w"), separators=(",", ":"))
