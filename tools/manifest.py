"""Writes /verif/MANIFEST.json: one check per property which has machinery."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = ("model checking: TLC decides recorded traces of the real engine against the TLA+ specification KeydEngine/KeydConfig",
       "Every trace recorded from the real engine (random configurations and histories, built with ASAN) must be a behaviour of "
       "the specification, in whose every visited state the invariants of KeydProps hold. Bounded by the configurations and "
       "histories generated; trusts TLC, the harness and the specification.")
T = {}
for n in range(1, 15):
    T["C%02d" % n] = ENG
try:
    from manifest_more import MORE
    T.update(MORE)
except ImportError:
    pass
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "TLA+ with TLC; see DESIGN.md. No hooks in /repo: harnesses link /repo/src and replace its main and its system calls."}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": T[i][0],
                            "level": "model_checking", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
