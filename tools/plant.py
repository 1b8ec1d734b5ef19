#!/usr/bin/env python3
"""plant.py SPEC.py... : make /verif/seeded/<id>/ from a spec after confirming it in a scratch copy of /repo.
A spec defines: id, prop, file, edits=[(old,new)...], demo (python source), needs, breaks.
plant.py --check [id...] : run the property's quick check against each planted bug, in a scratch copy."""
import difflib, json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

def copy():
    d = tempfile.mkdtemp(prefix='wt-', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    return d

def run(cmd, wt=None, cwd=None, **kw):
    env = dict(os.environ, MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    if wt:
        env['PYTHONPATH'] = wt + '/src'
        env['QINFER_SRC'] = wt + '/src'
    return subprocess.run(cmd, env=env, cwd=cwd or wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    wt = copy()
    try:
        p = os.path.join(wt, 'src/qinfer', ns['file'])
        s = open(p).read()
        for a, b in ns['edits']:
            assert s.count(a) == 1 or ns.get('first') and a in s, (ns['id'], s.count(a), a)
            s = s.replace(a, b, 1)
        orig = set(subprocess.run(['git', '-C', wt, 'show', '0d122fb:src/qinfer/' + ns['file']], stdout=subprocess.PIPE)
                   .stdout.decode().splitlines())
        gone = [l for l in difflib.ndiff(open(p).read().splitlines(), s.splitlines()) if l.startswith('- ')]
        mine = [l for l in gone if l[2:] not in orig]
        if mine or not gone:
            print(ns['id'], 'changes lines of mine / nothing:', mine)
            if len(mine) == len(gone):
                return
        out = os.path.join(ROOT, 'seeded', ns['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'demo.py'), 'w').write(ns['demo'].strip() + '\n')
        open(os.path.join(out, 'demo.sh'), 'w').write(
            '#!/bin/bash\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        r0 = run(['bash', out + '/demo.sh'], wt)
        open(p, 'w').write(s)
        r1 = run(['bash', out + '/demo.sh'], wt)
        diff = subprocess.run(['git', '-C', wt, 'diff'], stdout=subprocess.PIPE).stdout
        t = run([PY, '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300', 'src/qinfer',
                 '--deselect', 'nothing'], wt)
        tail = t.stdout.decode().strip().splitlines()[-1]
        ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        print(ns['id'], 'base', r0.returncode, 'patched', r1.returncode, 'tests', tail, 'OK' if ok else 'FAILED')
        if r0.returncode:
            print(r0.stdout.decode()[-1500:])
        print('   ', r1.stdout.decode().strip().splitlines()[-1:] )
        if not ok:
            if t.returncode: print(t.stdout.decode()[-1500:])
            shutil.rmtree(out)
            return
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']),
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(wt)

def check(ids):
    for i in ids or sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        out = os.path.join(ROOT, 'seeded', i)
        prop = json.load(open(out + '/meta.json'))['property']
        wt = copy()
        try:
            r = subprocess.run(['git', '-C', wt, 'apply', out + '/patch.diff'])
            assert r.returncode == 0, i
            res = []
            for seed in os.environ.get('SEEDS', '1 2 3').split():
                os.environ['VERIF_SEED'] = seed
                r = run(['bash', ROOT + '/run.sh', prop, 'quick'], wt, cwd=ROOT)
                subs = [l for l in r.stdout.decode().splitlines() if l.startswith('--- ')]
                res.append((r.returncode, [x.split(' / ')[1] for x in subs]))
            print(i, prop, res, flush=True)
        finally:
            shutil.rmtree(wt)

if sys.argv[1] == '--check':
    check(sys.argv[2:])
else:
    for s in sys.argv[1:]:
        plant(s)
