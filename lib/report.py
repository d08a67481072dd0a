"""Verdicts, known findings and evidence."""
import json
import os
import sys
import time
import traceback

from ir import VERIF, REPO, AnalysisBroken

EVD = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


class Check:
    def __init__(self, pid, technique, level="other"):
        self.pid = pid
        self.technique = technique
        self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.viol = {}
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.rules = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def violation(self, key, where, rule, text):
        """key: stable identity (no line numbers); one report per key."""
        self.viol.setdefault(key, (where.replace(REPO + "/", ""), rule, text))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit and s not in self.samples:
            self.samples.append(s)

    def require(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def need(self, name, minimum):
        """Fail as analysis-broken when fewer rule instances than confirmed by hand were seen."""
        if self.cov.get(name, 0) < minimum:
            raise AnalysisBroken("only %d instances of '%s' were found, at least %d expected" % (self.cov.get(name, 0), name, minimum))

    def finish(self):
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)) if k.get("property") == self.pid and k.get("status") == "known"]
        kk = {k["key"]: k for k in known}
        fresh = {k: v for k, v in self.viol.items() if k not in kk}
        for k in self.viol:
            if k in kk:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, kk[k]["what"]))
        os.makedirs(EVD, exist_ok=True)
        cov = dict(self.cov)
        cov["explanation"] = "; ".join(self.rules) or self.technique
        cov["samples"] = self.samples
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh),
        }
        with open(os.path.join(EVD, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if fresh:
            rp = os.path.join(EVD, self.pid + ".report.txt")
            with open(rp, "w") as f:
                for k, (where, rule, text) in sorted(fresh.items()):
                    f.write("%s: [%s] %s  (instance %s)\n" % (where, rule, text, k))
            for k, (where, rule, text) in sorted(fresh.items()):
                print("%s: [%s] %s" % (where, rule, text))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s %s" % (self.pid, json.dumps({k: v for k, v in self.cov.items()})))
        return 0


def main(pid, technique, body, level="other"):
    c = Check(pid, technique, level)
    try:
        body(c)
        rc = c.finish()
    except AnalysisBroken as e:
        # real violations found before the breakage are still reported
        if c.viol:
            rc = c.finish()
            if rc == 1:
                sys.exit(1)
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.exit(rc)
