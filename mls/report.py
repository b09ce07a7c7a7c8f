import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHEMA_LEVEL = "other"


class Report:
    """what one check analysed and what it found"""

    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.violations = []
        self.counts = {}
        self.samples = {}
        self.rules = []
        self.assumptions = []

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, what, x, limit=12):
        l = self.samples.setdefault(what, [])
        if len(l) < limit:
            l.append(x)

    def violation(self, key, where, msg, path=None):
        """key: stable identification without line numbers; where: file:line"""
        if any(v["key"] == key for v in self.violations):
            return
        self.violations.append({"key": key, "where": where, "message": msg, "path": path or []})

    def anchor(self, what):
        """an analysed construct has disappeared: the rule cannot be decided, fail closed"""
        self.violation("anchor:" + what, "", "cannot find %s, which this rule analyses" % what)


def known_findings():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def finish(R):
    known = {(f["property"], f["key"]): f for f in known_findings()["findings"]}
    new, old = [], []
    for v in R.violations:
        (old if (R.pid, v["key"]) in known else new).append(v)
    ev = {
        "property": R.pid,
        "tier": R.tier,
        "seed": R.seed,
        "level": SCHEMA_LEVEL,
        "coverage": {
            "explanation": " ".join(R.rules),
            "analysed": R.counts,
            "samples": R.samples,
            "findings": [dict(v, known=(v in old)) for v in R.violations],
        },
        "assumptions": R.assumptions,
        "wall_s": round(time.time() - R.t0, 2),
        "violations": len(new),
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, R.pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for v in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (R.pid, known[(R.pid, v["key"])]["what"], v["where"]))
    for v in new:
        print("%s: %s: %s" % (R.pid, v["where"], v["message"]))
        for p in v["path"]:
            print("    " + p)
    if new:
        print("VIOLATION property=%s replay=%s" % (R.pid, os.path.relpath(path, HERE)))
        return 1
    return 0
