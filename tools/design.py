#!/usr/bin/env python3
"""Assembles DESIGN.md."""
import ast, glob, json, os, subprocess
T = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(T)
ns = {}
exec(open(os.path.join(T, 'props.py')).read(), ns)
out = [open(os.path.join(T, 'design_head.md')).read()]


CODE = """
import boot, core, importlib, json, sys
for p in sys.argv[1:]: importlib.import_module('p_' + p.lower())
print(json.dumps({p: [(s.name, s.quick, s.thorough, s.fn.__doc__, s.rule) for s in core.SUBS[p]] for p in sys.argv[1:]}))
"""
SUBS = json.loads(subprocess.check_output(['/opt/venv/bin/python', '-W', 'ignore', '-c', CODE] + [p['id'] for p in ns['P']],
                                          cwd=os.path.join(R, 'harness'), stderr=subprocess.DEVNULL).splitlines()[-1])


for p in ns['P']:
    t = ast.parse(open(os.path.join(R, 'harness', 'p_%s.py' % p['id'].lower())).read())
    out.append('### %s. %s\n\n*Specified:* %s\n\n*Over:* %s. *Oracle:* %s.%s\n' % (
        p['id'], p['title'], p['statement'], p['text'], p['tech'], (' ' + p['note']) if p['note'] else ''))
    out.append('*Beyond the tests:* %s\n' % p['why'])
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
            a = ast.literal_eval(n.value)
            if a:
                out.append('*Assumed:* %s.\n' % '; '.join(a))
    out.append('| sub-check | base | thorough | decides | non-trivial when |\n|---|---|---|---|---|')
    for name, quick, thorough, doc, rule in SUBS[p['id']]:
        out.append('| %s | %s | %s | %s | %s |' % (name, quick, thorough, ' '.join((doc or '').split()).replace('|', '\\|'), rule))
    out.append('')
tail = open(os.path.join(T, 'design_tail.md')).read()
kf = json.load(open(os.path.join(R, 'known_findings.json')))
fixed = '\n'.join('* %s (%s, %s)' % (' '.join(f.split()[3:]), f.split()[1].split('=')[1], f.split()[2]) for f in kf['fixed'])
rows = ['| change | property | needs | breaks | caught by |', '|---|---|---|---|---|']
caught = json.load(open(os.path.join(T, 'caught.json'))) if os.path.exists(os.path.join(T, 'caught.json')) else {}
for m in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
    i = m.split('/')[-2]
    e = json.load(open(m))
    rows.append('| %s | %s | %s | %s | %s |' % (i, e['property'], e['needs'].replace('|', '/'), e['what_it_breaks'].replace('|', '/'),
                                             caught.get(i, '')))
tail = tail.replace('@FIXED@', fixed).replace('@SEEDED@', '\n'.join(rows))
tail = tail.replace('@MUTATION@', open(os.path.join(T, 'design_mutation.md')).read().strip())
out.append(tail)
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out))
