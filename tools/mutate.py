#!/usr/bin/env python3
"""Mutation run (development only; no check uses it).

tools/mutate.py FILE[,FILE..] [--n N] [--seed S] [--jobs J] [--out DIR] [--tests]
Mutates single expressions of src/qinfer/FILE in scratch copies, runs the checks anchored in the file on each mutant
(without shrinking), and lists those which no check reports; --tests then asks the test suite about the survivors.
"""
import argparse, ast, json, os, warnings, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src'
warnings.simplefilter('ignore')
EXTRA = {}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
CMPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is',
        ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*'], ast.Mod: ['*'],
       ast.FloorDiv: ['/'], ast.BitAnd: ['|'], ast.BitOr: ['&']}
BINS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.Mod: '%', ast.FloorDiv: '//',
        ast.BitAnd: '&', ast.BitOr: '|'}
UNWRAP = {'abs', 'sqrt', 'exp', 'log', 'conj', 'real', 'copy', 'array', 'sum', 'clip', 'transpose', 'squeeze',
          'atleast_1d', 'atleast_2d', 'astype', 'flatten', 'ravel', 'maximum', 'minimum', 'sorted', 'list', 'dict',
          'cos', 'sin', 'int', 'float', 'nan_to_num', 'logical_not', 'canonicalize', 'T', 'asarray', 'mean', 'all', 'any',
          'cumsum', 'argsort', 'unit', 'concatenate'}


def mutants(text):
    b = text.encode()
    offs = [0]
    for l in b.splitlines(keepends=True):
        offs.append(offs[-1] + len(l))
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    src = lambda n: b[slice(*pos(n))].decode()
    out = []

    def add(n, new, kind):
        s, e = pos(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, n.lineno, kind))

    def between(l, r, old, new, kind):
        s, e = pos(l)[1], pos(r)[0]
        mid = b[s:e].decode()
        if mid.count(old) == 1:
            i = s + len(mid[:mid.index(old)].encode())
            out.append((i, i + len(old.encode()), new, l.lineno, kind))

    doc = set()
    for n in ast.walk(tree := ast.parse(text)):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
    infun = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)) and not n.name.startswith('plot_') and n.name not in (
                'mvee_plot', '_ipython_display_', 'main'):
            for k in ast.walk(n):
                infun.add(id(k))
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and ast.unparse(n.func) in ('warnings.warn', 'logger.debug'):
            for k in ast.walk(n):
                infun.discard(id(k))
    for n in ast.walk(tree):
        if id(n) not in infun or id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            between(n.left, n.comparators[0], CMPS[type(n.ops[0])], CMP[type(n.ops[0])], 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            between(n.left, n.right, BINS[type(n.op)], BIN[type(n.op)][0], 'bin')
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                add(n, '(%s)' % src(n.left), 'drop')
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            between(n.target, n.value, BINS[type(n.op)] + '=', '=', 'aug')
        elif isinstance(n, ast.BoolOp):
            old, new = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            between(n.values[0], n.values[1], old, new, 'bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            add(n, '(%s)' % src(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'const')
            elif isinstance(v, int):
                add(n, str(v + 1), 'const')
                if v > 0:
                    add(n, str(v - 1), 'const')
            elif isinstance(v, float):
                add(n, repr(v * 2), 'const')
            elif v is None:
                pass
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                add(n.test, 'True', 'if')
            add(n.test, 'False', 'if')
        elif isinstance(n, ast.IfExp):
            add(n, '(%s)' % src(n.body), 'ifexp')
            add(n, '(%s)' % src(n.orelse), 'ifexp')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in UNWRAP:
                if isinstance(f.value, ast.Name) and f.value.id in ('np', 'la', 'numpy'):
                    if n.args:
                        add(n, '(%s)' % src(n.args[0]), 'unwrap')
                else:
                    add(n, '(%s)' % src(f.value), 'unwrap')
            elif isinstance(f, ast.Name) and f.id in UNWRAP and n.args:
                add(n, '(%s)' % src(n.args[0]), 'unwrap')
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, c = n.args[0], n.args[1]
                s, e = pos(a)[0], pos(c)[1]
                out.append((s, e, src(c) + b[pos(a)[1]:pos(c)[0]].decode() + src(a), n.lineno, 'swap'))
            for k in n.keywords:
                if k.arg and isinstance(k.value, (ast.Name, ast.Constant, ast.Attribute)) and len(n.args) + len(n.keywords) > 1:
                    s, e = pos(k)
                    # drop the keyword with a neighbouring comma
                    t = b[e:]
                    st = len(t) - len(t.lstrip())
                    if t.lstrip().startswith(b','):
                        out.append((s, e + st + 1, '', k.lineno, 'kw'))
                    else:
                        h = b[:s].rstrip()
                        if h.endswith(b','):
                            out.append((len(h) - 1, e, '', k.lineno, 'kw'))
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            add(n, src(n.value), 'unwrap')
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n, 'pass', 'stmt')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, 'pass', 'stmt')
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            add(n.value, '%s, %s' % (src(n.value.elts[1]), src(n.value.elts[0])), 'swap')
    good = []
    for m in out:
        t = (b[:m[0]] + m[2].encode() + b[m[1]:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append((t,) + m[3:] + (b[offs[m[3] - 1]:m[0]].decode().lstrip() + ' [[' + b[m[0]:m[1]].decode() + ' => ' + m[2] + ']] ' +
                                    b[m[1]:b.find(b'\n', m[1])].decode(),))
    return good


def pids_for(f):
    out = []
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)
        if 'src/qinfer/' + f in p['anchors']['files']:
            out.append(p['id'])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files')
    ap.add_argument('--n', type=int, default=60)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--pids')
    ap.add_argument('--lines')
    ap.add_argument('--out', default='/tmp/mut')
    a = ap.parse_args()
    os.makedirs(a.out, exist_ok=True)
    verif = os.path.join(a.out, 'verif')
    if not os.path.exists(verif):
        os.makedirs(verif)
    for x in ('harness', 'run.sh', 'known_findings.json', 'properties.jsonl'):
        subprocess.check_call(['cp', '-a', os.path.join(ROOT, x), verif])
    jobs = []
    for f in a.files.split(','):
        text = open(os.path.join(SRC, 'qinfer', f), encoding='utf8').read()
        ms = mutants(text)
        if a.lines:
            lo, hi = map(int, a.lines.split('-'))
            ms = [m for m in ms if lo <= m[1] <= hi]
        random.Random(a.seed).shuffle(ms)
        print('%s: %d mutants, %d taken' % (f, len(ms), min(a.n, len(ms))), flush=True)
        jobs += [(f, m) for m in ms[:a.n]]
    log = open(os.path.join(a.out, 'survivors-%s-%d.txt' % (a.files.replace('/', '_').replace(',', '+')[:60], a.seed)), 'w')

    def one(job):
        f, (t, line, kind, desc) = job
        w = tempfile.mkdtemp(dir=a.out, prefix='m')
        res = 'survived'
        try:
            shutil.copytree(os.path.join(SRC, 'qinfer'), os.path.join(w, 'src', 'qinfer'),
                            ignore=shutil.ignore_patterns('__pycache__'))
            open(os.path.join(w, 'src', 'qinfer', f), 'w', encoding='utf8').write(t)
            env = dict(os.environ, QINFER_SRC=os.path.join(w, 'src'), VERIF_WORKERS='1', VERIF_NOSHRINK='1', VERIF_SEED='1')
            pids = a.pids.split(',') if a.pids else pids_for(f)
            for scale in ('0.2', '1'):
                for p in pids:
                    r = subprocess.run(['bash', os.path.join(verif, 'run.sh'), p, 'quick'], env=dict(env, VERIF_SCALE=scale),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
                    o = r.stdout.decode('utf8', 'replace')
                    if r.returncode == 1:
                        return job, 'caught ' + p
                    if r.returncode != 0 and 'ERROR vacuous' not in o:
                        return job, 'broken ' + o.strip().splitlines()[-1][:100]
                    if r.returncode != 0 and scale == '1':
                        return job, 'vacuous ' + p
            for x in os.listdir('/repo'):
                if x not in ('.git', 'src', 'doc', 'examples'):
                    subprocess.check_call(['cp', '-a', '/repo/' + x, w])
            e2 = dict(os.environ, PYTHONPATH=os.path.join(w, 'src'), PYTHONDONTWRITEBYTECODE='1')
            r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                                '--timeout=600', 'src/qinfer'], cwd=w, env=e2, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if r.returncode != 0:
                return job, 'tests'
        except subprocess.TimeoutExpired:
            return job, 'timeout'
        finally:
            shutil.rmtree(w)
        return job, res

    count = {}
    with ThreadPoolExecutor(a.jobs) as ex:
        for (f, (t, line, kind, desc)), res in ex.map(one, jobs):
            k = res.split()[0]
            count[k] = count.get(k, 0) + 1
            if k != 'caught':
                s = '%s %s:%d %s | %s' % (res, f, line, kind, ' '.join(desc.split())[:240])
                print(s, flush=True)
                log.write(s + '\n')
                log.flush()
    print(count)


main()
