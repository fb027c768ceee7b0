#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single place where both are maintained)."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
G = "src/acetone_nnet/"
NT = "TLA+ specification checked with TLC; recorded runs of the real tool chain validated as traces of it"
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=NT, note="", level="model_checking",
         state=None, observe=None, thorough=True):
    a = {"files": [G + f if not f.startswith(("src/", "examples")) else f for f in files],
         "mechanism": [{"name": n, "where": G + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": G + w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"line": {"id": pid, "title": title, "statement": statement,
                       "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
              "technique": technique, "note": note, "level": level, "thorough": thorough})


exec((V / "tools" / "props_data.py").read_text())

(V / "properties.jsonl").write_text("".join(json.dumps(p["line"]) + "\n" for p in P))
cmd = "/opt/venv/bin/python /verif/harness/check.py"
man = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": []}
for p in P:
    pid = p["line"]["id"]
    c = {"property": pid, "quick_cmd": f"{cmd} {pid}", "evidence_file": f"evidence/{pid}.json",
         "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
    if p["thorough"]:
        c["thorough_cmd"] = f"{cmd} {pid} thorough"
    man["checks"].append(c)
man["not_applicable"] = NA
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
import jsonschema
for sch, docs in (("MANIFEST", [man]), ("PROPERTIES", [p["line"] for p in P])):
    s = json.loads(Path(f"/root/.vp/{sch}.schema.json").read_text())
    for d in docs:
        jsonschema.validate(d, s)
for p in P:
    assert p["line"]["statement"].count(". ") <= 2, p["line"]["id"]
print(len(P), "properties")
