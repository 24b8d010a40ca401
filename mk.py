#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props/*.py"""
import json, os, subprocess
import fv
P = fv.load_props()
NA = fv.load_na()
with open(os.path.join(fv.HERE, "properties.jsonl"), "w") as f:
    for pid in sorted(set(P) | set(NA)):
        p = P.get(pid) or NA[pid]
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"],
                            "quantifier": p["quantifier"], "why_tests_cant": p["why_tests_cant"],
                            "anchors": p["anchors"]}) + "\n")
        assert len(p["title"]) <= 80, pid
log = subprocess.check_output(["git", "-C", fv.REPO, "log", "--format=%H %s"], text=True)
hooks = [l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("verify:")]
m = {"version": 1, "setup_cmd": "python3 fv.py setup",
     "hooks": {"guard": "FCRON_VERIFY",
               "enable": "the harnesses of /verif/harness include the real .c files of /repo and define FCRON_VERIFY (harness/db_env.h) before them; the normal build never defines it",
               "source_commits": hooks[::-1]},
     "checks": [], "not_applicable": []}
for pid in sorted(P):
    p = P[pid]
    m["checks"].append({
        "property": pid, "quick_cmd": "python3 fv.py check %s quick" % pid,
        "thorough_cmd": "python3 fv.py check %s thorough" % pid,
        "technique": p.get("technique", "contract-based deductive verification of the C functions themselves: pre/postconditions, loop invariants and frames discharged by cbmc (symbolic, SAT) per function, callees replaced by their contracts"),
        "level": p["level"], "level_note": p.get("level_note", "")})
for pid in sorted(NA):
    m["not_applicable"].append({"property": pid, "reason": NA[pid]["reason"]})
json.dump(m, open(os.path.join(fv.HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
except ImportError:
    raise SystemExit(0)
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(fv.HERE, "properties.jsonl")):
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print("valid:", len(P), "checks,", len(NA), "not applicable")
