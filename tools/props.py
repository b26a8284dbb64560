#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json.  usage: tools/props.py"""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = []          # property records
CHECKS = []     # manifest checks
NA = []         # not applicable

def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": observe, "hook_needed": None}})
    CHECKS.append({
        "property": id, "quick_cmd": f"bin/check {id} quick", "thorough_cmd": f"bin/check {id} thorough",
        "evidence_file": f"evidence/{id}.json", "technique": technique, "level": "exploration", "level_note": note})

exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "bin/build",
    "hooks": {"guard": "none", "enable": "no hooks: every monitor observes the public API and the plugin interface", "source_commits": []},
    "checks": CHECKS,
    "not_applicable": NA,
    "notes": "bin/check builds the harness crate (path dependency on /repo) and runs the monitors of one property; replay files are /verif/out/<id>/violation-N.json (each holds the exact replay command). Known findings: known_findings.json.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
