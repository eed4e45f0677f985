#!/usr/bin/env python3
"""gen.py: write properties.jsonl and MANIFEST.json from tools/props_src.py"""
import os, json, runpy
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = runpy.run_path(os.path.join(R, 'tools', 'props_src.py'))
P, NA = m['PROPS'], m['NA']
with open(R + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
checks = [{'property': p['id'], 'quick_cmd': f'python3-vt check.py {p["id"]} quick', 'thorough_cmd': f'python3-vt check.py {p["id"]} thorough', 'evidence_file': f'evidence/{p["id"]}.json',
    'technique': p.get('_tech', m['TECH']), 'level': p.get('_level', 'proof'), 'level_note': p['_note']} for p in P if '_note' in p]
na = [{'property': p['id'], 'reason': p['_na']} for p in P if '_na' in p] 
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na, 'notes': m['NOTES']}, open(R + '/MANIFEST.json', 'w'), indent=1)
for p in P: assert len(p['title']) <= 80 and ('_note' in p) != ('_na' in p), p['id']
print(len(checks), 'claimed', len(na), 'not applicable')

# tables of DESIGN.md
import re, glob
d = open(R + '/DESIGN.md').read(); k = json.load(open(R + '/known-findings.json'))
def put(tag, rows):
    global d
    d = re.sub(rf'(<!-- {tag} -->\n).*?(<!-- end -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), d, flags=re.S)
put('fixes', ['* ' + re.sub(r'^fixed: property=(\w+) (\w+) ', r'\1, \2: ', x) for x in k['fixed']])
rows = ['| planted bug | what it breaks | needs |', '| --- | --- | --- |']
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append(f"| {f.split('/')[-2]} | {m['what_it_breaks']} | {m['needs']} |")
put('seeds', rows)
open(R + '/DESIGN.md', 'w').write(d)
