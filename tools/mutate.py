#!/usr/bin/env python3
"""mutate.py gen OUT.json [file regex] : one-token mutants of /repo/src
   mutate.py gen2 OUT.json [file regex]: wrong variable, dropped condition, swapped statements
   mutate.py test OUT.json JOBS       : compile each and run the existing tests (objects of /repo/_build), keep survivors
   mutate.py check OUT.json JOBS      : run the checks of the file's area on each survivor"""
import json, os, re, random, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
GATES = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11", "C31", "C33"]
AREA = {"mapping.cpp": ["C22", "C34", "C27", "C37"], "normalization.cpp": ["C25", "C28", "C34", "C35", "C36", "C10"], "punycode.cpp": ["C16", "C17", "C18"],
        "to_ascii.cpp": GATES + ["C27", "C37"], "to_unicode.cpp": GATES,
        "unicode_transcoding.cpp": ["C14", "C15"], "validity.cpp": ["C19", "C20", "C21", "C38"], "identifier.cpp": ["C26"],
        "table_store.hpp": ["C09", "C10", "C12", "C13"], "raw_inflate.hpp": ["C30"]}
SWAP = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("-=", "+="), ("<<", ">>"), (">>", "<<"), ("++", "--")]


def gen(rx):
    out = []
    for f in sorted(glob.glob("/repo/src/*.cpp") + glob.glob("/repo/src/*.hpp")):
        b = os.path.basename(f)
        if b not in AREA or not re.search(rx, b):
            continue
        lines = open(f).read().split("\n")
        dep = 0
        for n, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith(("//", "#", "*", "/*", "namespace", "static_assert")) or re.match(r"^\s*(0x[0-9a-fA-F]+|\d+|\{)[,}\s0-9a-fA-Fx{]*$", l) or len(re.findall(r"0x", l)) > 3 or s.startswith("{") and s.count(",") > 1:
                continue
            code = re.sub(r"//.*", "", l)
            ms = set()
            for m in re.finditer(r"<=|>=|==|!=|&&|\|\||\+=|-=|<<|>>|\+\+", code):
                for a, c in SWAP:
                    if m.group() == a:
                        ms.add(code[:m.start()] + c + code[m.end():])
            for m in re.finditer(r"(?<![<>=\-])[<>](?![<>=])", code):
                if re.search(r"\s$", code[:m.start()]) and code[m.end():m.end() + 1] == " ":
                    ms.add(code[:m.start()] + m.group() + "=" + code[m.end():])
            for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])", code):
                v = int(m.group(1), 0)
                for d in (1, -1):
                    if v + d >= 0:
                        t = hex(v + d) if m.group(1).startswith("0x") else str(v + d)
                        ms.add(code[:m.start()] + t + code[m.end():])
            for m in re.finditer(r" ([+-]) (1\b|\w+)", code):
                ms.add(code[:m.start(1)] + ("-" if m.group(1) == "+" else "+") + code[m.end(1):])
            if re.match(r"\s*[^={}]*;\s*$", code) or re.match(r"\s*[\w\.\[\]>\-*]+ [+\-|&]?= [^{}]*;\s*$", code):
                ms.add(re.match(r"\s*", code).group() + ";")
            for a, c in (("return true", "return false"), ("return false", "return true")):
                if a in code:
                    ms.add(code.replace(a, c))
            m = re.match(r"(\s*(?:\} else )?(?:if|while) \()(.*)(\)[^()]*)$", code)
            if m and m.group(2).count("(") == m.group(2).count(")"):
                ms.add(m.group(1) + "!(" + m.group(2) + ")" + m.group(3))
            for x in sorted(ms):
                if x != code:
                    out.append({"f": "src/" + b, "n": n, "old": l, "new": x})
    return out


def gen2(rx):
    """wrong variable (another name of the same function), a condition dropped, two statements swapped"""
    out = []
    for f in sorted(glob.glob("/repo/src/*.cpp") + glob.glob("/repo/src/*.hpp")):
        b = os.path.basename(f)
        if b not in AREA or not re.search(rx, b):
            continue
        lines = open(f).read().split("\n")
        start = 0
        fns = []
        for n, l in enumerate(lines):
            if l.startswith("}"):
                fns.append((start, n))
                start = n + 1
        for lo, hi in fns:
            body = "\n".join(lines[lo:hi])
            names = {}
            for m in re.finditer(r"\b(size_t|u?int\d*_t|int|char32_t|std::u32string|std::u32string_view|std::string|std::string_view|bool|const size_t|const char32_t\*)&? (?:const )?(\w+)(?=\s*[=;,){\[]|\()", body):
                names.setdefault(m.group(1).replace("const ", ""), set()).add(m.group(2))
            for n in range(lo, hi):
                l = lines[n]
                code = re.sub(r"//.*", "", l)
                if not code.strip() or code.strip().startswith(("#", "*", "/*")):
                    continue
                ms = set()
                for ty, vs in names.items():
                    for m in re.finditer(r"\b\w+\b", code):
                        if m.group() in vs:
                            for o in vs - {m.group()}:
                                ms.add(code[:m.start()] + o + code[m.end():])
                for m in re.finditer(r"(?<=[( ])([!\w.\[\]: +\-<>=']+?) (&&|\|\|) (?=\S)", code):
                    ms.add(code[:m.start()] + code[m.end():])
                for m in re.finditer(r" (&&|\|\|) [!\w.\[\]: +\-<>=']+?(?=\) \{$| &&| \|\|)", code):
                    ms.add(code[:m.start()] + code[m.end():])
                for x in sorted(ms):
                    if x != code:
                        out.append({"f": "src/" + b, "n": n, "old": l, "new": x})
                if n + 1 < hi and re.match(r"\s+[^(){}]*;\s*$|\s+\w[\w.:]*\([^{}]*\);\s*$", l) and re.match(r"\s+[^{}]*;\s*$", lines[n + 1]):
                    out.append({"f": "src/" + b, "n": n, "old": l, "new": lines[n + 1] + "\n" + l, "k": 2})
    random.Random(3).shuffle(out)
    return out[:int(os.environ.get("MAX", "100000"))]


def test(m):
    w = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree("/repo/src", w + "/src")
        os.symlink("/repo/include", w + "/include")
        os.symlink("/repo/tests", w + "/tests")
        p = w + "/" + m["f"]
        ls = open(p).read().split("\n")
        assert ls[m["n"]] == m["old"]
        ls[m["n"]:m["n"] + m.get("k", 1)] = [m["new"]]
        open(p, "w").write("\n".join(ls))
        cc = "g++ -std=c++20 -O0 -w -DADA_TESTING=1 -Iinclude -Isrc "
        r = subprocess.run(cc + "-c src/idna.cpp -o i.o", shell=True, cwd=w, capture_output=True)
        if r.returncode:
            return "nocompile"
        B = "/repo/_build/CMakeFiles/%s.dir/repo/tests/%s.cpp.o"
        hpp = m["f"].endswith(".hpp")
        for t in ("identifier_tests", "mapping_tests", "punycode_tests", "raw_inflate_tests", "safety_tests", "to_ascii_tests", "to_unicode_tests"):
            o = B % (t, t)
            if hpp and t in ("identifier_tests", "raw_inflate_tests", "safety_tests"):
                o = t + ".o"
                os.unlink(w + "/tests") if os.path.islink(w + "/tests") else None
                os.makedirs(w + "/tests", exist_ok=True)
                shutil.copy("/repo/tests/%s.cpp" % t, w + "/tests/")
                if subprocess.run(cc + "-c tests/%s.cpp -o %s" % (t, o), shell=True, cwd=w, capture_output=True).returncode:
                    return "nocompile"
            if subprocess.run("g++ %s i.o -lgtest_main -lgtest -lpthread -o t" % o, shell=True, cwd=w, capture_output=True).returncode:
                return "nolink"
            try:
                r = subprocess.run([w + "/t", "--gtest_brief=1"], cwd="/repo/_build", capture_output=True, timeout=60)
            except subprocess.TimeoutExpired:
                return "hang"
            if r.returncode:
                return "killed"
        return "survives"
    finally:
        shutil.rmtree(w, True)


def check(m):
    w = tempfile.mkdtemp(prefix="mut-")
    res = {}
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        p = w + "/r/" + m["f"]
        ls = open(p).read().split("\n")
        ls[m["n"]:m["n"] + m.get("k", 1)] = [m["new"]]
        open(p, "w").write("\n".join(ls))
        env = dict(os.environ, IDNA_REPO=w + "/r", IDNA_EVIDENCE=w)
        for c in AREA[os.path.basename(m["f"])]:
            r = subprocess.run(["timeout", os.environ.get("VT", "700"), "python3-vt", V + "/an/run.py", c], cwd=V, env=env, capture_output=True, text=True)
            res[c] = "rc%d" % r.returncode if r.returncode > 1 else "V" if r.returncode else "U" if "UNDECIDED" in r.stdout else "-"
            if r.returncode == 1:
                break
        return res
    finally:
        shutil.rmtree(w, True)


def main():
    cmd, path = sys.argv[1:3]
    if cmd in ("gen", "gen2"):
        ms = (gen if cmd == "gen" else gen2)(sys.argv[3] if len(sys.argv) > 3 else ".")
        json.dump(ms, open(path, "w"), indent=0)
        print(len(ms))
        return
    ms = json.load(open(path))
    key = {"test": "t", "check": "c"}[cmd]
    todo = [m for m in ms if key not in m and (cmd == "test" or m.get("t") == "survives")]
    random.Random(7).shuffle(todo)
    done = 0
    with ThreadPoolExecutor(int(sys.argv[3])) as ex:
        def go(m):
            m[key] = (test if cmd == "test" else check)(m)
            return m
        for m in ex.map(go, todo):
            done += 1
            if cmd == "check" and "V" not in m[key].values():
                print("MISSED %s:%d %s  ->  %s   %s" % (m["f"], m["n"] + 1, m["old"].strip(), m["new"].strip(), m[key]), flush=True)
            if done % 20 == 0:
                json.dump(ms, open(path + ".tmp", "w"), indent=0)
                os.replace(path + ".tmp", path)
    json.dump(ms, open(path, "w"), indent=0)
    from collections import Counter
    print(Counter(str(m.get(key)) if cmd == "test" else "V" if "V" in m[key].values() else "missed" for m in todo))


main()
