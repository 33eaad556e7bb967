"""The compressed Unicode tables, decoded statically from the initialiser in table_blob.inc, and the table
pointers, resolved from the stores that ensure_tables() performs."""
import os, re, zlib
import numpy as np
import ir


class Tables:
    def __init__(self, mod):
        self.mod = mod
        src = open(os.path.join(ir.REPO, "src/table_blob.inc")).read()
        self.const = {n: int(v, 0) for n, v in re.findall(r"constexpr\s+\w+\s+(\w+)\s*=\s*(0[xX][0-9A-Fa-f]+|\d+)[uUlL]*\s*;", src)}
        g = [x for x in mod.globals.values() if x["short"].endswith("table_blob::compressed")]
        if not g or not mod.ginit(g[0]["name"]):
            raise ir.AnalysisError("anchor vanished: the compressed table blob")
        self.blob = mod.ginit(g[0]["name"])[0]
        self.error = None
        try:
            d = zlib.decompressobj(-15)
            self.raw = d.decompress(self.blob) + d.flush()
            self.left = len(d.unused_data)
            self.eof = d.eof
        except zlib.error as e:
            self.raw, self.error, self.left, self.eof = b"", str(e), 0, False
        self.crc = zlib.crc32(self.raw)
        offs = sorted(v for n, v in self.const.items() if n.startswith("off_"))
        self.sections = {}
        for n, v in self.const.items():
            if n.startswith("off_"):
                k = n[4:]
                c = self.const.get("count_" + k)
                nxt = min([o for o in offs if o > v] or [self.const["uncompressed_size"]])
                if c:
                    self.sections[k] = (v, c, (nxt - v) // c)
        self.ptr = self.resolve()

    def resolve(self):
        """global name -> offset into the buffer, for every table pointer that ensure_tables publishes"""
        f = self.mod.fn("idna::ensure_tables(")
        out = {}

        def off(o, n=0):
            i = f.defs.get(o)
            if i is None or n > 8:
                return None
            if i.op in ('call', 'invoke') and 'new[]' in i.callee:
                return 0
            if i.op == 'getelementptr' and not i.x.get("vars"):
                r = off(i.o[0], n + 1)
                return None if r is None else r + i.x.get("coff", 0)
            if i.op == 'phi':
                rs = {off(v, n + 1) for v, _ in i.x["in"]} - {None}
                return rs.pop() if len(rs) == 1 else None
            return None
        for i in f.instrs():
            if i.op == 'store' and i.o[1].startswith('@'):
                r = off(i.o[0])
                if r is not None:
                    out[i.o[1][1:]] = r
        return out

    def extent(self, off):
        """(start, end, element width) of the section that starts at this offset"""
        for k, (o, c, w) in self.sections.items():
            if o == off:
                return o, o + c * w, w
        return None

    def arr(self, k):
        o, c, w = self.sections[k]
        return np.frombuffer(self.raw[o:o + c * w], dtype="<u%d" % w)


_c = {}


def load(mod):
    if id(mod) not in _c:
        _c[id(mod)] = Tables(mod)
    return _c[id(mod)]
