#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, hook=None, level="exploration", state=None, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, hook=hook, level=level, state=state or [],
                  claimed=claimed, reason=reason))
exec(open(os.path.join(ROOT, "tools", "spec_table.py"), encoding="utf-8").read())
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p["observe"], hook_needed=p["hook"]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
built = BUILT
m = dict(version=1, setup_cmd="bash tools/setup.sh", hooks=HOOKS, checks=[], not_applicable=[], notes=NOTES)
for p in P:
    if p["claimed"] and p["id"] in built:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"bash tools/check.sh {p['id']} quick",
                                thorough_cmd=f"bash tools/check.sh {p['id']} thorough",
                                evidence_file=f"evidence/{p['id']}.json",
                                technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["reason"] or "check not built yet"))
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, ensure_ascii=False, indent=1); f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
