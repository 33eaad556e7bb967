"""Result of one check: violations with their construct, what was analysed, known findings."""
import json, os, re, time, ir

VERIF = ir.VERIF


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol, self.undec = [], []
        self.functions, self.rules, self.counts, self.sites = set(), [], {}, set()
        self.states = 0
        self.obligations = self.discharged = 0
        self.samples = []
        self.notes = []
        self.t0 = time.time()
        self.floors = []

    # ---- collecting
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def bad(self, where, msg, rule=None):
        v = (where or '?', msg, rule or '')
        if v not in self.viol:
            self.viol.append(v)

    def unsure(self, where, msg):
        v = (where or '?', msg)
        if v not in self.undec:
            self.undec.append(v)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, ok, where=None, msg=None, rule=None):
        """one proof obligation: True discharged, False violated, None undecided"""
        self.obligations += 1
        if ok is True:
            self.discharged += 1
        elif ok is False:
            self.bad(where, msg, rule)
        else:
            self.unsure(where, msg)
        return ok

    def gate(self, fn, ip, c):
        """merge the outcome of an abstract-interpretation client"""
        self.functions.add(fn)
        self.states += ip.nstates
        for w, m in c.viol:
            self.bad(w, m)
        for w, m in c.undec:
            self.unsure(w, m)
        for k, n in getattr(c, 'count', {}).items():
            self.count(k, n)
        self.sites |= set(c.sites)

    def need(self, k, least):
        """this many instances were confirmed by hand; fewer means the rule no longer sees its subject"""
        self.floors.append((k, least, self.counts.get(k, 0)))
        if self.counts.get(k, 0) < least:
            self.unsure('-', 'the rule matched %d instances of "%s", at least %d expected' % (self.counts.get(k, 0), k, least))

    # ---- finishing
    def known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3).strip()))
        return out

    @staticmethod
    def key(where, msg):
        return re.sub(r"[^A-Za-z0-9]+", "-", re.sub(r"^\S+ ", "", where) + "-" + re.sub(r"\(path .*?\)", "", msg)).strip("-")[:160]

    def finish(self, level="other"):
        known = dict(self.known())
        new, old = [], []
        for w, m, r in self.viol:
            k = self.key(w, m)
            (old if k in known else new).append((w, m, r, k))
        for k in {k for *_, k in old}:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
        ed = os.environ.get("IDNA_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(ed, exist_ok=True)
        rp = os.path.join(ed, self.pid + ".report.txt")
        with open(rp, "w") as f:
            f.write("property %s (%s)\n" % (self.pid, self.tier))
            for r in self.rules:
                f.write("rule: %s\n" % r)
            for w, m, r, k in new:
                f.write("VIOLATION %s: %s%s  [key %s]\n" % (w, m, (" | rule: " + r) if r else "", k))
            for w, m, r, k in old:
                f.write("known %s: %s  [key %s]\n" % (w, m, k))
            for w, m in self.undec:
                f.write("undecided %s: %s\n" % (w, m))
        cov = {
            "explanation": "; ".join(self.rules),
            "functions": sorted(self.functions),
            "rule_instances": self.counts,
            "undecided": ["%s: %s" % u for u in self.undec][:20],
            "samples": (self.samples or ["%s at %s" % s if isinstance(s, tuple) else str(s) for s in sorted(self.sites, key=str)])[:12],
        }
        if self.states:
            cov["abstract_states"] = self.states
        if self.sites:
            cov["sites"] = len(self.sites)
        if self.obligations:
            cov["obligations"] = self.obligations
            cov["discharged"] = self.discharged
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        if self.notes:
            ev["assumptions"] = self.notes
        json.dump(ev, open(os.path.join(ed, self.pid + ".json"), "w"), indent=1)
        for w, m in self.undec:
            print("UNDECIDED property=%s %s: %s" % (self.pid, w, m))
        for w, m, r, k in new[:20]:
            print("  %s: %s" % (w, m))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("ok property=%s %s" % (self.pid, " ".join("%s=%d" % (k.replace(' ', '_'), v) for k, v in sorted(self.counts.items()))[:300]))
        return 0
