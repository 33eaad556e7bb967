#!/usr/bin/env python3
"""mkseed.py SPEC.py : build /verif/seeded/<id>/ from a spec and confirm it (clean demo ok, patched demo fails, tests pass).
SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=<C++ main body or full source>)]"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
HEAD = '''#include "idna.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <thread>
#include <atomic>
using namespace ada::idna;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "demo: failed: %s\\n", #c); return 1; } } while (0)
'''
DEMO = '''#!/bin/bash
# run in the repository: builds the library with the demonstration and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ -std=c++20 -O1 -w %s-I include -I src "$here/demo.cpp" %s -o "$d/demo" -lpthread || exit 99
timeout 120 "$d/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(V, "seeded", s["id"])
        w = tempfile.mkdtemp(prefix="seed-")
        try:
            subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
            for f, old, new in s["edits"]:
                p = os.path.join(w, "r", f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh("git diff", cwd=w + "/r").stdout
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            demo = s["demo"]
            if "int main" not in demo:
                demo = HEAD + s.get("pre", "") + "int main() {\n" + demo + "\n  return 0;\n}\n"
            open(d + "/demo.cpp", "w").write(demo)
            open(d + "/demo.sh", "w").write(DEMO % (s.get("flags", ""), "" if s.get("include_src") else "src/idna.cpp"))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            a = sh("bash %s/demo.sh" % d, cwd="/repo")
            b = sh("bash %s/demo.sh" % d, cwd=w + "/r")
            ok = a.returncode == 0 and b.returncode not in (0, 99)
            msg = "clean=%d patched=%d" % (a.returncode, b.returncode)
            if not ok:
                print("BAD SEED", s["id"], msg, a.stderr[-500:], b.stderr[-500:])
                shutil.rmtree(d)
                continue
            if not s.get("skiptests"):
                try:
                    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
                    sh("bash /opt/vp/test.sh /tmp/seed_out.json")
                    r = json.load(open("/tmp/seed_out.json"))
                    msg += " tests passed=%d failed=%s" % (len(r["passed"]), r["failed"])
                    if r["failed"] or len(r["passed"]) < 53:
                        print("TESTS FAIL", s["id"], msg)
                        shutil.rmtree(d)
                        continue
                finally:
                    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
            env = dict(os.environ, IDNA_REPO=w + "/r")
            outs = []
            for c in s.get("checks", [s["property"]]):
                r = sh("timeout 900 python3-vt an/run.py %s" % c, cwd=V, env=env)
                outs.append("%s:%s" % (c, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc%d" % r.returncode)))
                if r.returncode != 0 or os.environ.get("SHOW"):
                    outs.append("  " + "\n    ".join(l for l in r.stdout.splitlines()[:4]))
                elif "UNDECIDED" in r.stdout:
                    outs.append("  " + "\n    ".join(l for l in r.stdout.splitlines()[:4]))
            print("SEED", s["id"], msg, " ".join(outs))
        finally:
            shutil.rmtree(w, True)


main()
