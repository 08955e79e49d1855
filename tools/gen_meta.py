#!/usr/bin/env python3
"""Writes properties.jsonl, tools/props.json and MANIFEST.json from the definitions below."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
G = "src/generated_schema"
def files(*names, versions=V):
    return [f"{G}/{v}/{n}" for v in versions for n in names]
SCHEMA, UTILS, VALID = "mcp_schema.rs", "schema_utils.rs", "validators.rs"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, technique, rule, note, versions=V, assumptions=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, rule=rule, note=note, versions=list(versions), assumptions=list(assumptions), observe=list(observe)))

exec(open(os.path.join(VERIF, "tools", "property_defs.py")).read())

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        anchors["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
json.dump({p["id"]: {"rule": p["rule"], "versions": p["versions"], "assumptions": p["assumptions"]} for p in P},
          open(os.path.join(VERIF, "tools", "props.json"), "w"), indent=1)
man = {"version": 1, "setup_cmd": "python3 tools/check.py --build", "checks": [
    {"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']} --tier quick",
     "thorough_cmd": f"python3 tools/check.py {p['id']} --tier thorough",
     "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
    "not_applicable": []}
json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
