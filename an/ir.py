"""Front end: compile /repo's current sources to LLVM IR, canonicalise with irx, load.

Nothing of /repo is ever executed; only clang's front end and LLVM's inliner/SROA run.
"""
import hashlib, json, os, re, subprocess, sys, tempfile, shutil, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("IDNA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
IRX = os.path.join(BUILD, "irx")


class AnalysisError(Exception):
    """The analysis itself cannot run (front end failed, anchor vanished)."""


def scratch():
    d = tempfile.mkdtemp(prefix="idna-an-")
    atexit.register(shutil.rmtree, d, True)
    return d


def ensure_irx():
    src = os.path.join(VERIF, "tools/irx/irx.cpp")
    stamp = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(IRX) and os.path.exists(IRX + ".sha") and open(IRX + ".sha").read() == stamp:
        return
    os.makedirs(BUILD, exist_ok=True)
    cfg = lambda a: subprocess.check_output(["llvm-config", a], text=True).split()
    tmp = IRX + ".tmp%d" % os.getpid()
    subprocess.check_call(["clang++", "-O1"] + cfg("--cxxflags") + [src, "-o", tmp,
                          "-L" + cfg("--libdir")[0], "-lLLVM-18"])
    os.replace(tmp, IRX)
    with open(IRX + ".sha", "w") as f:
        f.write(stamp)


BASE = ["clang++", "-std=c++20", "-O0", "-g", "-fno-exceptions", "-Xclang", "-disable-O0-optnone",
        "-emit-llvm", "-c", "-w"]
SHIM = os.path.join(VERIF, "tools/be_shim")
SIMD = os.path.join(VERIF, "tools/simdutf_stub")
CONFIGS = {
    "host": [],
    "simdutf": ["-DADA_USE_SIMDUTF", "-I" + SIMD],
    # big-endian target, host libstdc++ headers through a tiny shim
    "be": ["--target=s390x-linux-gnu", "-nostdinc++", "-isystem", SHIM, "-isystem", "/usr/include/c++/13",
           "-isystem", "/usr/include/x86_64-linux-gnu/c++/13", "-isystem", "/usr/include/c++/13/backward",
           "-isystem", "/usr/lib/llvm-18/lib/clang/18/include", "-isystem", "/usr/include/x86_64-linux-gnu",
           "-isystem", "/usr/include"],
}


_std = None


def plain_std():
    """a copy of libstdc++'s stl_algobase.h in which random-access std::find_if is the plain loop its contract
    describes instead of the four-fold unrolled one"""
    global _std
    if _std is None:
        _std = []
        try:
            t = open("/usr/include/c++/13/bits/stl_algobase.h").read()
            n, k = re.subn(r"(_RandomAccessIterator\s+__find_if\(_RandomAccessIterator __first, _RandomAccessIterator __last,\s*"
                           r"_Predicate __pred, random_access_iterator_tag\)\s*\{).*?\n    \}\n",
                           r"\1 for (; __first != __last; ++__first) if (__pred(__first)) return __first; return __last; }\n", re.sub(
                               r"_RandomAccessIterator\n\s+__find_if", "_RandomAccessIterator __find_if", t), flags=re.S)
            if k == 1:
                d = scratch()
                os.makedirs(d + "/bits")
                open(d + "/bits/stl_algobase.h", "w").write(n)
                _std = ["-isystem", d]
        except OSError:
            pass
    return _std


def compile_unit(src, out, config="host", extra=()):
    cmd = BASE + plain_std() + CONFIGS[config] + ["-I%s/include" % REPO, "-I%s/src" % REPO] + list(extra) + [src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise AnalysisError("front end failed on %s [%s]:\n%s" % (src, config, p.stderr[-2000:]))


_cache = {}


def load_module(config="host", keep=None, src=None):
    key = (config, keep, src)
    if key in _cache:
        return _cache[key]
    ensure_irx()
    d = scratch()
    bc, js = os.path.join(d, "u.bc"), os.path.join(d, "u.json")
    compile_unit(src or os.path.join(REPO, "src/idna.cpp"), bc, config)
    kf = os.path.join(VERIF, "tools/irx", keep or "keep.txt")
    p = subprocess.run([IRX, bc, js, kf], capture_output=True, text=True)
    if p.returncode != 0:
        raise AnalysisError("irx failed: " + p.stderr[-2000:])
    m = Module(json.load(open(js)))
    m.config = config
    _cache[key] = m
    return m


def short(d):
    """Readable, stable spelling of a demangled name."""
    d = re.sub(r"\[abi:\w+\]", "", d)
    for c, n in (("char32_t", "u32"), ("char", "")):
        d = re.sub(r"std::__cxx11::basic_string<%s, std::char_traits<%s>, std::allocator<%s>\s?>" % (c, c, c), n + "string", d)
        d = re.sub(r"std::basic_string_view<%s, std::char_traits<%s>\s?>" % (c, c), n + "view", d)
    d = d.replace("ada::idna::", "idna::")
    return d


class Instr:
    __slots__ = ("id", "op", "ty", "o", "loc", "blk", "fn", "x", "idx")

    def __init__(self, j, blk, fn, idx):
        self.id, self.op, self.ty, self.o = j["id"], j["op"], j["ty"], j.get("o", [])
        self.loc = j.get("loc") or []
        self.blk, self.fn, self.x, self.idx = blk, fn, j, idx

    def __getattr__(self, k):
        try:
            return self.x[k]
        except KeyError:
            return None

    @property
    def callee(self):
        return short(self.x["d"]) if "d" in self.x else self.x.get("f", "")

    def where(self):
        """Innermost location inside the repository, as file:line (function)."""
        for f, l, fn in self.loc:
            if f.startswith(REPO) or not f.startswith("/"):
                if not l:                      # a phi has no line: that of the next instruction
                    l = next((k for j in self.blk.ins[self.idx:] for g, k, _ in j.loc[:1] if g == f and k), 0)
                return "%s:%d (%s)" % (os.path.relpath(f, REPO) if f.startswith("/") else f, l, fn)
        return "%s:? (%s)" % (self.fn.file or "?", self.fn.short)

    def __repr__(self):
        return "<%s %s %s %s>" % (self.id, self.op, self.callee if self.op in ("call", "invoke") else "", self.o)


class Block:
    __slots__ = ("id", "ins", "succ", "pred", "fn")

    def __init__(self, id, fn):
        self.id, self.fn, self.ins, self.succ, self.pred = id, fn, [], [], []

    @property
    def term(self):
        return self.ins[-1]

    def phis(self):
        return [i for i in self.ins if i.op == "phi"]


class Fn:
    def __init__(self, j, mod):
        self.j, self.mod = j, mod
        self.name, self.dem = j["name"], j["dem"]
        self.short = short(j["dem"])
        self.file, self.line = j.get("file"), j.get("line")
        if self.file and self.file.startswith("/"):
            self.file = os.path.relpath(self.file, REPO) if self.file.startswith(REPO) else self.file
        self.args = j["args"]
        self.rty = j["rty"]
        self.blocks = {}
        self.order = []
        self.defs = {}
        for bj in j["blocks"]:
            b = Block(bj["id"], self)
            for n, ij in enumerate(bj["i"]):
                i = Instr(ij, b, self, n)
                b.ins.append(i)
                self.defs[i.id] = i
            self.blocks[b.id] = b
            self.order.append(b.id)
        for b in self.blocks.values():
            t = b.term
            s = []
            if t.op == "br":
                s = t.x["succ"]
            elif t.op == "switch":
                s = [t.x["def"]] + [c[1] for c in t.x["cases"]]
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            b.succ = seen
        for b in self.blocks.values():
            for s in b.succ:
                self.blocks[s].pred.append(b.id)
        self.entry = self.order[0]
        self._dom = None
        self._loops = None

    def instrs(self):
        for bid in self.order:
            for i in self.blocks[bid].ins:
                yield i

    def calls(self, pred=None):
        for i in self.instrs():
            if i.op in ("call", "invoke") and (pred is None or pred(i.callee)):
                yield i

    # -- dominators, natural loops ------------------------------------------------
    def rpo(self):
        seen, out = set(), []
        stack = [(self.entry, iter(self.blocks[self.entry].succ))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                out.append(b)
                stack.pop()
        return out[::-1]

    def dom(self):
        if self._dom is None:
            rpo = self.rpo()
            num = {b: n for n, b in enumerate(rpo)}
            idom = {self.entry: self.entry}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    new = None
                    for p in self.blocks[b].pred:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
            self._num = num
        return self._dom

    def dominates(self, a, b):
        d = self.dom()
        while True:
            if a == b:
                return True
            if b == self.entry or b not in d:
                return False
            b = d[b]

    def loops(self):
        """header -> Loop"""
        if self._loops is None:
            self.dom()
            L = {}
            for b in self.blocks.values():
                for s in b.succ:
                    if b.id in self._num and self.dominates(s, b.id):
                        lp = L.setdefault(s, Loop(s, self))
                        lp.latches.append(b.id)
                        st = [b.id]
                        lp.body.add(s)
                        while st:
                            x = st.pop()
                            if x not in lp.body:
                                lp.body.add(x)
                                st.extend(p for p in self.blocks[x].pred if p in self._num)
            for lp in L.values():
                lp.exits = [(x, s) for x in sorted(lp.body) for s in self.blocks[x].succ if s not in lp.body]
                par = [o for o in L.values() if o is not lp and lp.header in o.body]
                lp.parent = min(par, key=lambda o: len(o.body)) if par else None
            self._loops = L
        return self._loops

    def loop_of(self, bid):
        c = [l for l in self.loops().values() if bid in l.body]
        return min(c, key=lambda l: len(l.body)) if c else None


class Loop:
    def __init__(self, h, fn):
        self.header, self.fn = h, fn
        self.latches, self.body, self.exits, self.parent = [], set(), [], None


class Module:
    def __init__(self, j):
        self.j = j
        self.big = j["big"]
        self.fns = {}
        self.by_short = {}
        for fj in j["functions"]:
            f = Fn(fj, self)
            self.fns[f.name] = f
            self.by_short.setdefault(f.short, f)
        self.globals = {g["name"]: g for g in j["globals"]}
        for g in j["globals"]:
            g["short"] = short(g["dem"])
        self.gshort = {g["short"]: g for g in j["globals"]}
        self.decls = [short(d) for d in j["decls"]]

    def fn(self, prefix, required=True):
        """Function whose short name starts with prefix, e.g. 'idna::map(u32view, u32string&)'."""
        for s, f in self.by_short.items():
            if s == prefix or s.startswith(prefix):
                return f
        if required:
            raise AnalysisError("anchor vanished: no function %r in the library" % prefix)
        return None

    def ginit(self, gname):
        g = self.globals.get(gname)
        if not g or "hex" not in g:
            return None
        return bytes.fromhex(g["hex"]), g.get("esz", g["sz"])
