#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so the two stay in step."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []

def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  _t=technique, _n=note, _na=na))

exec(open(os.path.join(root, 'tools', 'table.py')).read())

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[],
         notes='Static analysis only: one Go analyser (analyzer/) over the type-checked source and SSA of /repo. No hooks in /repo.')
for p in P:
    if p['_na']:
        m['not_applicable'].append(dict(property=p['id'], reason=p['_na']))
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'],
                            thorough_cmd='bash check.sh %s thorough' % p['id'],
                            evidence_file='evidence/%s.json' % p['id'],
                            technique=p['_t'], level='other', level_note=p['_n']))
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'properties,', len(m['checks']), 'checks')
