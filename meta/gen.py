#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (the single place where both are described)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import props

def where(x):
    return [{'name': a, 'where': b} for a, b in x]

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
             'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['tests'],
             'anchors': {'files': p['files'], 'mechanism': where(p['mech'])}}
        if 'state' in p:
            d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        if 'observe' in p:
            d['anchors']['observe_at'] = p['observe']
        d['anchors']['hook_needed'] = None
        f.write(json.dumps(d, ensure_ascii=True) + '\n')

m = {'version': 1, 'setup_cmd': 'python3 check.py selftest', 'checks': [], 'not_applicable': []}
for p in props.PROPS:
    if 'na' in p:
        m['not_applicable'].append({'property': p['id'], 'reason': ' '.join(p['na'].split())})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                            'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                            'technique': p['technique'], 'level': p['level'],
                            'level_note': ' '.join(p['note'].split())})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

import ast, glob, re
import notes
out = [open(os.path.join(H, 'design_head.md')).read()]
out.append('## 2. Properties and how each is decided\n')
for p in props.PROPS:
    out.append('### %s %s\n' % (p['id'], p['title']))
    if 'na' in p:
        out.append('Not decided: ' + ' '.join(p['na'].split()) + '\n')
        continue
    r = os.path.join(V, 'rules', p['id'].lower() + '.py')
    out.append(ast.get_docstring(ast.parse(open(r).read())) + '\n')
    out.append(notes.DESIGN[p['id']].strip() + '\n')
out.append('## 3. Planted bugs and what catches them\n')
out.append('Each is caught by the check of its property (`python3 check.py <property> quick`, exit 1).\n')
out.append('| planted bug | property | what it breaks | needs |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    j = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), j['property'], ' '.join(j['what_it_breaks'].split()), ' '.join(j['needs'].split())) )
out.append('')
if hasattr(notes, 'SEEDS'):
    out.append(notes.SEEDS)
out.append('## 4. Genuine defects found and repaired\n')
out.append('Each was reported by the check (or seen while writing it) and repaired by its own `fix:` commit in /repo.\n')
for l in open(os.path.join(V, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)$', l.strip())
    if m:
        out.append('* %s `%s` %s' % m.groups())
    m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', l.strip())
    if m:
        out.append('* %s **not repaired** (known finding `%s`): %s' % m.groups())
out.append('')
out.append(open(os.path.join(H, 'design_tail.md')).read())
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
