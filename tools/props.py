#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props/*.py."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
P, NA = {}, {}
def prop(id, title, statement, over, quant, tests, files, mech, technique=None, note=None, na=None, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    if state: a['state'] = state
    assert len(title) <= 80, title
    assert set(over.split()) <= {'schedules', 'crash_points', 'inputs', 'programs', 'histories', 'configurations', 'fault_sequences'}, over
    assert id not in P
    P[id] = dict(id=id, title=title, statement=statement, quantifier={'over': over.split(), 'text': quant}, why_tests_cant=tests, anchors=a)
    NA[id] = (technique, note, na)
for f in sorted(glob.glob(os.path.join(here, 'props', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'), {'prop': prop})
with open(os.path.join(root, 'properties.jsonl'), 'w') as o:
    for i in sorted(P): o.write(json.dumps(P[i], ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Every check is static: it loads, type-checks and analyses /repo\'s current source (checker/), and runs none of it. No hooks were added to /repo. Recorded defects are in known_findings.txt.'}
for i in sorted(P):
    t, n, na = NA[i]
    if na: m['not_applicable'].append({'property': i, 'reason': na})
    else:
        m['checks'].append({'property': i, 'quick_cmd': 'bash check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + i,
                            'technique': t, 'level': 'other', 'level_note': n})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
