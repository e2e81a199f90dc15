#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design/*, properties.jsonl, seeded/*/meta.json and the evidence in the given folder."""
import glob, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev = sys.argv[1] if len(sys.argv) > 1 else os.path.join(root, 'evidence')
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
man = json.load(open(root + '/MANIFEST.json'))
tech = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
seeds = {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
exec(open(root + '/tools/design/notes.py').read())
o = open(root + '/tools/design/head.md').read().rstrip() + '\n\n## 2. Properties\n'
for p in props:
    i = p['id']
    if i in na: continue
    o += '\n### %s %s\n\n' % (i, p['title'])
    t = tech[i]
    o += '**How.** %s.\n' % (t['technique'][0].upper() + t['technique'][1:])
    if i in HOW: o += HOW[i].strip() + '\n'
    try:
        c = json.load(open('%s/%s.json' % (ev, i)))
        n = c['coverage'].get('obligations_by_rule', {})
        o += '\nRules (obligations evaluated on the current tree):\n\n'
        for r, d in sorted(c['coverage']['rules'].items()): o += '- `%s` (%s): %s\n' % (r, n.get(r, 0), d)
        lim = list(c['coverage'].get('not_covered_by_this_check') or [])
        ass = list(c['assumptions'] or [])
    except FileNotFoundError: lim = ass = []
    o += '\n**Beyond the tests.** %s\n' % p['why_tests_cant']
    if t.get('level_note'): lim.append(t['level_note'].rstrip('.'))
    if ass: o += '\n**Assumed.** %s.\n' % '; '.join(ass)
    if lim: o += '\n**Not covered.** %s.\n' % '; '.join(x[0].lower()+x[1:] if not x[:2].isupper() else x for x in lim)
    if i in seeds:
        o += '\n**Planted bugs it catches:** ' + '; '.join('`%s` (%s)' % (a, m['needs'].rstrip('.')) for a, m in seeds[i] if a not in MISSED) + '.\n'
        miss = [a for a, m in seeds[i] if a in MISSED]
        if miss: o += '\n**Planted bugs it misses:** ' + '; '.join('`%s`: %s' % (a, MISSED[a]) for a in miss) + '.\n'
o += '\n## 3. Not applicable\n\n'
for p in props:
    if p['id'] in na: o += '- **%s %s.** %s\n' % (p['id'], p['title'], na[p['id']])
o += '\n' + open(root + '/tools/design/tail.md').read()
open(root + '/DESIGN.md', 'w').write(o)
