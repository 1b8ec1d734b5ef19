#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json: one entry per fix: commit of /repo, with its property."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(ROOT, 'tools', 'fix_props.json')))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h\t%s']).decode().splitlines()
fixed = []
used = set()
for l in log:
    h, s = l.split('\t', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    assert s in PROP, s
    used.add(s)
    fixed.append('fixed: property=%s %s %s' % (PROP[s], h, s))
assert used == set(PROP), set(PROP) - used
p = os.path.join(ROOT, 'known_findings.json')
kf = json.load(open(p))
kf['fixed'] = fixed
json.dump(kf, open(p, 'w'), indent=1)
