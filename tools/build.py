#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run after editing that)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
ns = {}
exec(open(os.path.join(HERE, 'props.py')).read(), ns)
P, NA = ns['P'], ns['NA']
LEVEL = ('Generated-input search: no failing case among the cases counted in the evidence file; absence is not '
         'established. Trusts NumPy/SciPy, Hypothesis, and the reference computations in harness/. ')
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=['src/qinfer/' + x for x in p['files']],
                         mechanism=[dict(name=n, where='src/qinfer/' + w) for n, w in p['mech']],
                         observe_at=p['at'], hook_needed=None))) + '\n')
na = {n['property'] for n in NA}
m = dict(version=1, setup_cmd='bash run.sh --selftest',
         checks=[dict(property=p['id'], quick_cmd='bash run.sh %s quick' % p['id'],
                      thorough_cmd='bash run.sh %s thorough' % p['id'],
                      technique='property-based testing: ' + p['tech'],
                      level='exploration', level_note=LEVEL + p.get('note', ''),
                      evidence_file='evidence/%s.json' % p['id']) for p in P if p['id'] not in na],
         not_applicable=NA,
         notes='bash run.sh --replay FILE re-runs a shrunk failing case; see DESIGN.md.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
