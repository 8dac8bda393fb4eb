#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the modules present"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(str(ROOT / 'properties.jsonl'))]
NOTES = json.loads((ROOT / 'tools' / 'notes.json').read_text())
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA or not (ROOT / 'qv' / 'props' / (i.lower() + '.py')).exists():
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
        continue
    tech, note = NOTES[i] if i in NOTES else NOTES['default']
    checks.append(dict(
        property=i,
        quick_cmd='/opt/venv/bin/python check.py %s' % i,
        thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % i,
        technique=tech, level='exploration', level_note=note))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/selftest.py',
         checks=checks, not_applicable=na,
         notes='Pure Python code base: no hooks are needed; monitors wrap the'
               ' public API from outside (see DESIGN.md).')
(ROOT / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'claimed', len(na), 'not claimed')
