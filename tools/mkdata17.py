#!/usr/bin/env python3
"""Writes data/uni17.json, independent Unicode 17 data: node's ICU (normalisation, ID_Start/ID_Continue, assigned) and the UTS #46
table of the idna package (argument: directory with the unpacked wheel; Unicode 18, restricted to what Unicode 17 assigns).
Combining classes of characters newer than Python's Unicode 15 are derived from how ICU reorders them among known marks."""
import sys, json, os, subprocess, unicodedata as U
sys.path.insert(0, sys.argv[1])
import idna.uts46data as D

refs = {}
for c in range(0x110000):
    k = U.combining(chr(c))
    if k and k not in refs and not U.decomposition(chr(c)):
        refs[k] = c
js = """
const refs=%s;
const rg=(re)=>{const out=[];let s=-1;for(let c=0;c<=0x110000;c++){const a=c<0x110000&&!(c>=0xd800&&c<0xe000)&&re.test(String.fromCodePoint(c));
 if(a&&s<0)s=c;if(!a&&s>=0){out.push([s,c-1]);s=-1}}return out};
const nfd={},comp={},ccc={};
const cp=(x)=>[...x].map(y=>y.codePointAt(0));
for(let c=0;c<0x110000;c++){if(c>=0xd800&&c<0xe000)continue;const s=String.fromCodePoint(c);
 const n=s.normalize('NFD');
 if(n!==s&&!(c>=0xac00&&c<0xd7a4))nfd[c]=cp(n);
 if(n!==s&&!(c>=0xac00&&c<0xd7a4)&&s.normalize('NFC')===s){
   // primary composite: find its pair
   const d=cp(n);const last=d[d.length-1];
   const first=cp(String.fromCodePoint(...d.slice(0,-1)).normalize('NFC'));
   if(first.length===1&&String.fromCodePoint(first[0],last).normalize('NFC')===s)comp[c]=[first[0],last];else comp[c]=null;
 }
 if(/\\p{M}/u.test(s)&&n===s){
   let lo=0,hi=255,eq=-1,z=0;
   for(const [k,r] of refs){const R=String.fromCodePoint(r);
     const a=('a'+s+R).normalize('NFD')!=='a'+s+R, b=('a'+R+s).normalize('NFD')!=='a'+R+s;
     if(a)lo=Math.max(lo,k); if(b)hi=Math.min(hi,k);
     if(!a&&!b){eq=k;z++}
   }
   if(z===1)ccc[c]=eq;else if(z===0)ccc[c]=[lo,hi];   // z>1: no reordering with anything: 0
 }
}
process.stdout.write(JSON.stringify({version:process.versions.unicode,nfd,comp,ccc,ids:rg(/\\p{ID_Start}/u),idc:rg(/\\p{ID_Continue}/u),assigned:rg(/\\p{Assigned}/u)}));
""" % json.dumps(sorted(refs.items()))
d = json.loads(subprocess.run(["node", "-"], input=js, text=True, capture_output=True, check=True).stdout)
asg = bytearray(0x110000)
for a, b in d["assigned"]:
    asg[a:b + 1] = b"\1" * (b + 1 - a)
st = D.uts46_statuses
out, prev = [], None
bnd = set(D.uts46_starts) | {a for a, _ in d["assigned"]} | {b + 1 for _, b in d["assigned"]} | {0x110000}
bnd = sorted(bnd)
import bisect
for a, b in zip(bnd, bnd[1:]):
    i = bisect.bisect_right(D.uts46_starts, a) - 1
    s = chr(st[i])
    v = "V" if s in "VD" else D.uts46_replacements[i] if s == "M" else "" if s == "I" else "X"
    if not asg[a] and v != "X":
        v = "X"
    v = v if v in ("V", "X") else [ord(x) for x in v]
    if prev and prev[2] == v and prev[1] == a - 1:
        prev[1] = b - 1
    else:
        prev = [a, b - 1, v]
        out.append(prev)
d["uts46"] = out
bad = [c for c in d["ccc"] if d["ccc"][c] != U.combining(chr(int(c))) and U.category(chr(int(c))) != "Cn"]
assert not bad, bad
for c in d["nfd"]:
    if U.combining(chr(int(c))):
        d["ccc"][c] = U.combining(chr(int(c)))
d["late"] = []                     # assigned after Unicode 15
for a, b in d["assigned"]:
    for c in range(a, b + 1):
        if U.category(chr(c)) == "Cn":
            if d["late"] and d["late"][-1][1] == c - 1:
                d["late"][-1][1] = c
            else:
                d["late"].append([c, c])
json.dump(d, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "uni17.json"), "w"), separators=(",", ":"))
print(d["version"], len(d["nfd"]), len(d["comp"]), [c for c in d["comp"] if d["comp"][c] is None][:9], len(d["ccc"]), [(hex(int(c)), v) for c, v in d["ccc"].items() if U.category(chr(int(c))) == "Cn"], len(out))
