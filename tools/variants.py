#!/usr/bin/env python3
"""variants.py FILE.py [name...] : apply each variant of /repo in a scratch clone and run checks on it.
VARIANTS = [(name, 'ok'|'bug', [property ids] or None for all, [(file, old, new), ...])].
'ok' variants keep the behaviour and must leave every check quiet; 'bug' variants must be reported by the listed checks."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
ALL = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


def one(v):
    name, kind, props, edits = v
    w = tempfile.mkdtemp(prefix="var-")
    out = []
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for f, old, new in edits:
            p = os.path.join(w, "r", f)
            t = open(p).read()
            if t.count(old) != 1:
                return "%-30s BAD EDIT %s (%d matches) %r" % (name, f, t.count(old), old[:60])
            open(p, "w").write(t.replace(old, new))
        c = subprocess.run("g++ -std=c++20 -O0 -w -fsyntax-only -Iinclude -Isrc src/idna.cpp", shell=True, cwd=w + "/r", capture_output=True, text=True)
        if c.returncode:
            return "%-30s DOES NOT COMPILE %s" % (name, c.stderr[:300])
        env = dict(os.environ, IDNA_REPO=w + "/r", IDNA_EVIDENCE=w)
        for p in props or ALL:
            r = subprocess.run(["timeout", os.environ.get("VT", "900"), "python3-vt", V + "/an/run.py", p], cwd=V, env=env, capture_output=True, text=True)
            und = [l for l in r.stdout.splitlines() if l.startswith("UNDECIDED")]
            st = {0: "quiet", 1: "VIOLATION"}.get(r.returncode, "rc%d" % r.returncode)
            good = (r.returncode == 0) if kind == 'ok' else (r.returncode == 1)
            out.append("%s%s %s%s" % ("" if good else "** ", p, st, " undecided:%d" % len(und) if und else ""))
            if not good or und:
                ls = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")]
                out += ["\n        " + l[:230] for l in ls[:3]]
                if r.returncode not in (0, 1):
                    out += ["\n        " + l[:230] for l in r.stderr.splitlines()[-3:]]
        return "%-30s %-4s %s" % (name, kind, " ".join(out))
    finally:
        shutil.rmtree(w, True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    vs = [v for v in ns["VARIANTS"] if not sys.argv[2:] or any(a in v[0] for a in sys.argv[2:])]
    with ThreadPoolExecutor(int(os.environ.get("VJ", "7"))) as ex:
        for r in ex.map(one, vs):
            print(r, flush=True)


main()
