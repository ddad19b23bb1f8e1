#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]
   check.py --replay FILE

Decides one property of /verif/properties.jsonl for the keyd in /repo.
Exit 0: it held on everything explored; exit 1: "VIOLATION property=.. replay=..";
anything else: the check itself failed."""
import sys, os, json, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kv
from kv import VERIF, REPLAY, CheckError, Scenario, Conf

class Report:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = 0
        self.knowns = []
        self.assumptions = []
        self.limit = float(os.environ.get("KEYD_LIMIT", 600 if tier == "thorough" else 240))
        self.level = "model_checking"
    def late(self):
        return time.time() - self.t0 > self.limit
    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v
    def sample(self, x):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(x)
    def count(self, tag, scs, res, acc, st):
        """a batch of recorded traces decided by the specification"""
        self.add(states=st["distinct"], transitions=st["events"], traces_validated_against_impl=len(acc),
                 undetermined=st["undetermined"])
        parts = self.cov.setdefault("parts", {})
        parts[tag] = parts.get(tag, 0) + len(acc)
        for s in scs[:1]:
            if s.sid in acc:
                self.sample({"id": s.sid, "config": s.conf.lines, "history": [list(o) for o in s.ops[:40]],
                             "recorded": res[s.sid].get("ev", [])[:12]})
    def replay(self, data):
        os.makedirs(REPLAY, exist_ok=True)
        p = os.path.join(REPLAY, "%s-%d.json" % (self.prop, self.violations))
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        return p
    def violation(self, s, why, mode="full"):
        self.violations += 1
        p = self.replay({"property": self.prop, "kind": "engine", "mode": mode, "why": why,
                         "config": s.conf.lines, "includes": s.conf.incs, "data": s.conf.data, "ops": [list(o) for o in s.ops]})
        print("# %s" % json.dumps(why)[:2000])
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
    def violation_data(self, why, data):
        self.violations += 1
        p = self.replay(dict(data, property=self.prop, why=why))
        print("# %s" % json.dumps(why)[:2000])
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
    def known(self, ident, text):
        ids = [l.split()[0] for l in open(os.path.join(VERIF, "known-findings.txt")) if l.strip() and not l.startswith(("#", "fixed:"))]
        if ident not in ids:
            self.violation_data({"kind": ident, "text": text}, {"kind": "known"})
            return
        self.knowns.append(ident)
        print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, ident, text), flush=True)
    def write(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 1), "violations": self.violations,
              "assumptions": self.assumptions}
        if self.knowns:
            ev["coverage"]["known_findings"] = self.knowns
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

def checker(prop):
    n = int(prop[1:])
    if n <= 14:
        import engine_checks as m
    elif n <= 18:
        import config_checks as m
    elif n <= 25:
        import daemon_checks as m
    elif n == 26:
        import gadget_checks as m
    else:
        import mapper_checks as m
    return m

def replay(path):
    d = json.load(open(path))
    if d["kind"] != "engine":
        m = checker(d["property"])
        return m.replay(d)
    s = Scenario(Conf(d["config"], d.get("includes"), d.get("data")), [tuple(o) for o in d["ops"]], "replay")
    res = kv.run_engine([s])
    print(json.dumps(res["replay"], indent=None))
    if "crash" in res["replay"]:
        return 1
    rej, acc, st = kv.validate([s], res, mode=d["mode"], uni=kv.uni_file([s]))
    print(json.dumps({"rejected": rej, "broken": st["broken"]}, indent=1))
    return 1 if rej or st["broken"] else 0

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    rep = Report(prop, seed, tier)
    m = checker(prop)
    rep.assumptions = list(getattr(m, "ASSUMPTIONS", []))
    m.run(prop, seed, tier, rep)
    rep.write()
    if rep.violations:
        return 1
    if rep.cov["traces_validated_against_impl"] == 0:
        raise CheckError("nothing was checked")
    print("%s holds: %s" % (prop, json.dumps({k: v for k, v in rep.cov.items() if k != "samples"})))
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as x:
        print("ERROR: %s" % x)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
