#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing tools/props/*.py)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
na = []
def P(id, title, statement, over, text, why, files, mech, level, technique, note, claimed=True, reason=None,
      state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = state
    if observe: anchors["observe_at"] = observe
    props.append(({"id": id, "title": title, "statement": statement,
                   "quantifier": {"over": over, "text": text},
                   "why_tests_cant": why, "anchors": anchors},
                  level, technique, note, claimed, reason))
d = os.path.join(here, "tools", "props")
for f in sorted(os.listdir(d)):
    if f.endswith(".py"):
        exec(open(os.path.join(d, f)).read())
with open(os.path.join(here, "properties.jsonl"), "w") as o:
    for p, *_ in props:
        o.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p, level, technique, note, claimed, reason in props:
    if claimed:
        checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
                       "thorough_cmd": f"bash check.sh {p['id']} thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": technique, "level": level, "level_note": note})
    else:
        na.append({"property": p["id"], "reason": reason})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "No hooks are needed: the checks observe public interfaces of the crates, built from /repo by path dependencies.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. known-findings.txt lists defects that are recorded (finding:) or repaired (fixed:)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
ids = [p["id"] for p, *_ in props]
assert len(ids) == len(set(ids)), "duplicate ids"
print(len(props), "properties", len(checks), "checks")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json")); [jsonschema.validate(p, s) for p, *_ in props]
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except ImportError:
    print("no jsonschema")
