#!/usr/bin/env python3
"""seeds.py [regex] [jobs] : run the check of each planted bug's property on a scratch clone with the bug"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
rx = sys.argv[1] if len(sys.argv) > 1 else "."


def one(s):
    d = os.path.join(V, "seeded", s)
    p = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seedrun-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=w + "/r")
        r = subprocess.run(["timeout", "900", "python3-vt", V + "/an/run.py", p], cwd=V, capture_output=True, text=True, env=dict(os.environ, IDNA_REPO=w + "/r", IDNA_EVIDENCE=w))
        return s, p, r.returncode
    finally:
        shutil.rmtree(w, True)


with ThreadPoolExecutor(int(sys.argv[2]) if len(sys.argv) > 2 else 4) as ex:
    rs = list(ex.map(one, [s for s in sorted(os.listdir(V + "/seeded")) if re.search(rx, s)]))
for s, p, rc in rs:
    if rc != 1:
        print("NOT CAUGHT %s %s rc=%d" % (s, p, rc))
print("%d of %d caught" % (sum(r[2] == 1 for r in rs), len(rs)))
