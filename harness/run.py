"""Entry point: see ../run.sh."""
import concurrent.futures as cf
import glob
import importlib
import json
import multiprocessing
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

try:
    import boot
    import core
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(2)

QUICK = 8          # cases of a quick run, in units of the sub-checks' base counts
np_names = {'nan': float('nan'), 'inf': float('inf'), '__builtins__': {}}


def load(pid):
    """Import the check modules; one per property, named p_<id>.py."""
    fn = os.path.join(boot.HERE, 'p_%s.py' % pid.lower())
    if not os.path.exists(fn):
        print('no such property: %s' % pid)
        sys.exit(2)
    importlib.import_module('p_%s' % pid.lower())


def _work(args):
    pid, name, n, seed, hard = args
    return core.search(core.find_sub(pid, name), n, seed, hard_s=hard)


def known_findings(pid):
    p = os.path.join(boot.ROOT, 'known_findings.json')
    with open(p) as f:
        return {e['key']: e for e in json.load(f)['known'] if e['property'] == pid}


def replay(path):
    with open(path) as f:
        r = json.load(f)
    load(r['property'])
    s = core.find_sub(r['property'], r['sub'])
    drawn = [eval(v, dict(np_names)) for v in r['drawn']]
    try:
        core.call_once(s, core.Draw(recorded=drawn))
    except core.Violation as e:
        print('property %s, sub-check %s fails on the recorded case:\n%s' % (r['property'], r['sub'], e))
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    print('property %s, sub-check %s holds on the recorded case' % (r['property'], r['sub']))
    return 0


def main(argv):
    if argv and argv[0] == '--selftest':
        import hypothesis
        print('hypothesis %s, numpy %s, qinfer from %s' % (hypothesis.__version__, boot.np.__version__, boot.SRC))
        return 0
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = argv[2] if len(argv) > 2 else None
    seed0 = int(os.environ.get('VERIF_SEED', '1'))
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    t0 = time.time()
    load(pid)
    subs = [s for s in core.SUBS[pid] if only is None or s.name == only]
    if tier == 'quick':
        scale *= QUICK
    known = known_findings(pid)
    jobs = []
    hard = 420 if tier == 'quick' else 6 * 3600
    for i, s in enumerate(subs):
        if s.known is not None and s.known not in known:
            print('harness error: %s probes an unlisted finding %s' % (s.name, s.known))
            return 2
        total = s.quick if tier == 'quick' else s.thorough
        total = max(1, int(total * scale))
        shards = 1 if s.known else (4 if total >= 240 else 2 if total >= 60 else 1) if tier == 'quick' else min(8, max(1, total // 100))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            seed = (seed0 * 1000003 + i * 7919 + k * 104729 + sum(map(ord, s.name)) * 31) % (2 ** 31)
            jobs.append((pid, s.name, n, seed, hard))
    ctx = multiprocessing.get_context('fork')
    results = []
    nw = min(int(os.environ.get('VERIF_WORKERS', '8')), os.cpu_count() or 1, len(jobs))
    try:
        with cf.ProcessPoolExecutor(max_workers=nw, mp_context=ctx) as ex:
            for r in ex.map(_work, jobs):
                results.append(r)
    except Exception as e:
        print('harness error: %s: %s' % (type(e).__name__, e))
        return 2
    by = {}
    for r in results:
        by.setdefault(r['sub'], []).append(r)

    violations, errors, known_lines = [], [], []
    per_sub, samples = [], []
    rdir = os.path.join(boot.ROOT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for s in subs:
        rs = by[s.name]
        labels = {}
        hashes = set()
        for r in rs:
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
            hashes.update(r['hashes'])
            samples.extend(r['samples'][:2])
            if r['error']:
                errors.append('%s: %s' % (s.name, r['error']))
        per_sub.append(dict(sub=s.name, doc=(s.fn.__doc__ or '').strip(), rule=s.rule,
                            evaluations=sum(r['evaluations'] for r in rs),
                            rejected=sum(r['rejected'] for r in rs),
                            distinct_nontrivial=len(hashes), classes=labels,
                            seeds=[r['seed'] for r in rs],
                            wall_s=round(sum(r['wall_s'] for r in rs), 2),
                            slowest_case_cpu_s=round(max(r['slowest_s'] for r in rs), 2)))
        fails = [r['failure'] for r in rs if r['failure']]
        if s.known:
            if fails:
                known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, known[s.known]['what']))
            continue
        if fails:
            f = min(fails, key=lambda f: (len(f['drawn']), len(repr(f['drawn']))))
            path = os.path.join(rdir, '%s-%s.json' % (pid, s.name))
            with open(path, 'w') as fh:
                json.dump(dict(property=pid, sub=s.name, message=f['message'],
                               drawn=[repr(v) for v in f['drawn']]), fh, indent=1)
            violations.append((s.name, path, f['message']))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed0, level='exploration',
              coverage=dict(
                  evaluations=sum(p['evaluations'] for p in per_sub),
                  distinct_nontrivial=sum(p['distinct_nontrivial'] for p in per_sub),
                  rule='; '.join('%s: %s' % (s.name, s.rule) for s in subs if s.rule) or
                       'a case marks itself non-trivial',
                  samples=samples[:12],
                  sub_checks=per_sub,
                  known_findings=known_lines),
              assumptions=getattr(sys.modules.get('p_%s' % pid.lower()), 'ASSUMPTIONS', []),
              wall_s=round(wall, 2), violations=len(violations))
    edir = os.path.join(boot.ROOT, 'evidence')
    os.makedirs(edir, exist_ok=True)
    if only is None:
        with open(os.path.join(edir, pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    for p in per_sub:
        print('%-34s cases=%-6d nontrivial=%-6d rejected=%-4d %.1fs %s' % (
            p['sub'], p['evaluations'], p['distinct_nontrivial'], p['rejected'], p['wall_s'],
            json.dumps(p['classes']) if os.environ.get('VERIF_VERBOSE') else ''))
    for l in known_lines:
        print(l)
    for name, path, msg in violations:
        print('--- %s / %s\n%s' % (pid, name, msg))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for e in errors:
        print('ERROR ' + e)
    print('%s %s: %d cases, %d distinct non-trivial, %.1f s' % (
        pid, tier, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], wall))
    if violations:
        return 1
    if errors:
        return 2
    vac = [p['sub'] for p, s in zip(per_sub, subs) if p['distinct_nontrivial'] == 0 and not s.known]
    if vac:
        print('ERROR vacuous sub-checks: %s' % vac)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
