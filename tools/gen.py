#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl and /verif/MANIFEST.json.
A property is claimed when /verif/harness/<id>.cpp exists and it is not listed in NA below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
P = []
def p(id, title, statement, over, text, why, files, mech, level_note, observe=None, state=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=level_note, observe=observe or [], state=state or [], technique=technique))
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "state": x["state"],
                        "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                        "observe_at": x["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
checks, na = [], []
for x in P:
    cid = x["id"]
    if cid in NA:
        na.append({"property": cid, "reason": NA[cid]})
    elif os.path.exists(os.path.join(V, "harness", cid.lower() + ".cpp")):
        checks.append({"property": cid, "quick_cmd": "./check.py %s" % cid, "thorough_cmd": "./check.py %s --tier thorough" % cid,
            "evidence_file": "evidence/%s.json" % cid, "technique": x["technique"] or "property-based testing against a reference model, with shrinking",
            "level": "exploration", "level_note": x["note"]})
    else:
        na.append({"property": cid, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "One generated-input search per property; see DESIGN.md. No hooks are needed in /repo: every check drives public interfaces."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na], "not")
