#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and the registered checks"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'engine'), os.path.join(VERIF, 'checks')]
import props
import check
CH = check.registry()
ids = [p['id'] for p in props.P]
assert len(ids) == len(set(ids))
assert set(CH) <= set(ids), set(CH) - set(ids)
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
checks, na = [], []
for p in props.P:
    if p['id'] in CH and not p.get('_na'):
        c = CH[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='python3 bin/check.py ' + p['id'], thorough_cmd='python3 bin/check.py %s --thorough' % p['id'],
                           technique='static analysis: ' + c['technique'], level='other', level_note=c['explain']))
    else:
        na.append(dict(property=p['id'], reason=p.get('_na') or 'no check has been built for it yet'))
json.dump(dict(version=1, setup_cmd='python3 bin/setup.py', checks=checks, not_applicable=na), open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable', [x['property'] for x in na])

# tables of DESIGN.md
import glob, re
D = os.path.join(VERIF, 'DESIGN.md')
seeds = {}
for f in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds[os.path.basename(os.path.dirname(f))] = m
rows = ['| property | how it is decided | min | catches |', '|---|---|---|---|']
for p in props.P:
    c = CH.get(p['id'])
    esc = lambda t: t.replace('|', '\\|')
    rows.append('| **%s** %s | %s | %s | %s |' % (p['id'], esc(p['title']), esc(c['explain'] if c else 'not applicable: ' + (p.get('_na') or '')), c['min'] if c else '',
                                            ' '.join(k for k, m in seeds.items() if m['property'] == p['id']) or '–'))
sr = ['| change | property | what it breaks | needs |', '|---|---|---|---|'] + ['| %s | %s | %s | %s |' % (k, m['property'], m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|')) for k, m in seeds.items()]
t = open(D).read()
t = re.sub(r'(<!-- generated by bin/gen.py -->\n).*?(<!-- end -->)', lambda m: m[1] + '\n'.join(rows) + '\n' + m[2], t, flags=re.S)
t = re.sub(r'(<!-- seeds -->\n).*?(<!-- end seeds -->)', lambda m: m[1] + '\n'.join(sr) + '\n' + m[2], t, flags=re.S)
open(D, 'w').write(t)
