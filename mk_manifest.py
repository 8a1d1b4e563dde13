#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os
import specs
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks = []; na = []
for p in props:
    s = specs.SPECS.get(p['id'])
    if not s: na.append(dict(property=p['id'], reason='no check built yet')); continue
    checks.append(dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
        technique='symbolic execution of the real code (LLVM IR) with Z3; counterexamples replayed natively', level='model_checking',
        level_note=s.get('note', 'holds for every value of the symbolic inputs within the sizes of the listed entries; nothing is claimed beyond these sizes')))
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na, notes='See DESIGN.md. Repository defects that were repaired: known_findings.txt.'), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
