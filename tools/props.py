#!/usr/bin/env python3
"""Source of truth for properties.jsonl and MANIFEST.json.  Run: python3 /verif/tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BUILT = set(open(os.path.join(ROOT, "tools", "built.txt")).read().split())
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None, claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state, claimed=claimed, na=na))

exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                   "quantifier": {"over": p["over"], "text": p["qtext"]},
                   "why_tests_cant": p["why"],
                   "anchors": {"files": p["files"],
                               "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                               "observe_at": p["observe"], "hook_needed": None}}
            if p["state"]:
                rec["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps(rec) + "\n")
    m = {"version": 1,
         "setup_cmd": "bash /verif/setup.sh",
         "checks": [], "not_applicable": [],
         "notes": "All checks run the real library (rebuilt from /repo's working tree) under generated workloads while monitors "
                  "written in /verif/harness judge what they observe; no hooks in /repo are needed because every monitored event is "
                  "visible through the public API (custom plugins, functions, protocols, loggers, explainers) or the Go runtime."}
    for p in P:
        if p["id"] in BUILT:
            m["checks"].append({"property": p["id"],
                "quick_cmd": f"bash /verif/run.sh {p['id']} quick",
                "thorough_cmd": f"bash /verif/run.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
