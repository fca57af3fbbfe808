#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/table.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from table import PROPS, NA

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['tests'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': 'bash check.sh %s quick' % p['id'], 'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
                 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
D = os.path.join(V, 'DESIGN.md')
d = open(D).read()


def put(d, name, rows):
    a, b = '<!-- %s -->\n' % name, '<!-- /%s -->' % name
    return d[:d.index(a) + len(a)] + ''.join(r + '\n' for r in rows) + d[d.index(b):]


rows = ['', '| change | property (caught by its check) | what it breaks |', '|---|---|---|']
sd = os.path.join(V, 'seeded')
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else ():
    q = json.load(open(os.path.join(sd, i, 'meta.json')))
    rows.append('| %s | %s | %s |' % (i, q['property'], q['what_it_breaks'].replace('|', '/').replace('\n', ' ')))
d = put(d, 'seeds', rows + ['']) if os.path.isdir(sd) else d
d = put(d, 'na', [''] + ['* **%s %s** – %s' % (p['id'], p['title'], p['reason']) for p in NA] + [''])
open(D, 'w').write(d)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
        q = json.loads(l)
        assert q['statement'].count('. ') <= 2, q['id']
    print(len(PROPS), 'claimed', len(NA), 'not applicable: valid')
except ImportError:
    pass
