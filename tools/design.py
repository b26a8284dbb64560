#!/usr/bin/env python3
"""DESIGN.md = design/head.md + one section per property (from props_data.py and design/notes.json) + design/tail.md + catches"""
import json, pathlib
R = pathlib.Path(__file__).resolve().parent.parent
rows = [json.loads(l) for l in open(R / 'properties.jsonl')]
man = {c['property']: c for c in json.load(open(R / 'MANIFEST.json'))['checks']}
notes = json.load(open(R / 'design/notes.json'))
caught = json.load(open(R / 'design/catches.json'))
o = [(R / 'design/head.md').read_text()]
for r in rows:
    i = r['id']
    n = notes[i]
    o.append(f"### {i} {r['title']}\n\n{r['statement']}\n")
    o.append(f"* Monitor: {n['monitor']}\n* Workload: {n['work']}\n* Bounds and cost: {n['cost']}\n* Beyond tests: {r['why_tests_cant']}\n* Limits: {man[i].get('level_note','')}\n")
o.append((R / 'design/tail.md').read_text())
o.append('\n## Planted changes and what catches them\n\n| change | property | needs | caught by |\n|---|---|---|---|\n')
for d in sorted((R / 'seeded').iterdir()):
    m = json.load(open(d / 'meta.json'))
    o.append(f"| {d.name} | {m['property']} | {m['needs'].replace('|','/')} | {caught.get(d.name, '?')} |\n")
(R / "DESIGN.md").write_text("".join(x if x.endswith("\n") else x + "\n" for x in o))
