"""P01: performance tests report what happened in each trial."""
import math
import time

import numpy as np

from core import sub, req, close, same_shape, raises
import qinfer as qi
from qinfer import perf_testing as pt
import zoo
from p_b01 import posterior

ASSUMPTIONS = ['models under test have integer outcomes, the only ones that the documented record holds']


def col(x):
    """Parameter records with the axis that NumPy drops for single parameters."""
    return x.reshape(len(x), -1)


class Script(object):
    """A heuristic that hands out prepared experiments and notes its updater."""

    def __init__(self, eps):
        self.eps, self.at, self.updaters = eps, 0, []

    def __call__(self, updater):
        self.updaters.append(updater)
        return self.next

    def next(self):
        i = self.at % len(self.eps)
        self.at += 1
        return self.eps[i:i + 1].copy()


FAMS = [zoo.Precession, zoo.Inversion, zoo.T2, zoo.Coin, zoo.NoisyCoin, zoo.RB, zoo.Die, zoo.Binom, zoo.Table, zoo.VarTable]


def setup(d):
    c = d.pick(FAMS)
    fam = c(d, under=zoo.draw_two(d, exclude=(zoo.Tomo,))) if c is zoo.Binom else c(d)
    n = d.int(2, 8)
    T = d.int(1, 6)
    return fam, n, T, fam.mps(d, n), fam.eps(d, T)


def fields_match(rec, eps, fam):
    if eps.dtype.names is None:
        close(rec['experiment'], eps, 'recorded experiments')
    else:
        for name in eps.dtype.names:
            req(np.array_equal(rec[name], eps[name]), 'recorded experiments', field=name, got=rec[name], expected=eps[name])


@sub('P01', 200, rule='at least two experiments')
def record_of_a_trial(d, case):
    """Experiments, outcomes, estimates, losses and true parameters of one trial."""
    fam, n, T, locs, eps = setup(d)
    how = d.int(0, 3)
    kw = {}
    true = fam.mps(d, 1)[0]
    if how == 0:
        kw['true_mps'] = true.copy()
    elif how == 1:
        kw['true_prior'] = zoo.FixedPrior(true[None, :])
    elif how == 2:
        kw['true_mps'] = true[None, :].copy()
    else:
        true = None
    if d.bool():
        kw['true_model'] = fam.model
    h = Script(eps)
    prior = zoo.FixedPrior(locs)
    d.np_seed()
    try:
        rec = pt.perf_test(fam.model, n, prior, T, h, extra_updater_args=dict(resample_thresh=0.0), **kw)
    except RuntimeError as e:
        if 'zero' in str(e).lower():       # every particle was ruled out
            case.label('impossible data')
            return
        raise
    same_shape(rec, (T,), 'record')
    req(len(h.updaters) == 1 and isinstance(h.updaters[0], qi.SMCUpdater), 'the heuristic is built on the updater')
    req(h.at == T, 'one experiment is designed per datum')
    fields_match(rec, eps, fam)
    if true is None:
        true = col(rec['true'])[0]
        req(np.any(np.all(np.isclose(locs, true), axis=1)), 'by default the true parameters are a sample of the prior')
    close(col(rec['true']), np.tile(true, (T, 1)), 'true parameters')
    for o, ep in zip(rec['outcome'], eps):
        req(o in fam.outcomes(ep), 'recorded outcomes are outcomes of the experiment', got=o)
    start = h.updaters[0].particle_locations
    req(len(start) == n, 'number of particles')
    L = np.array([[fam.ref(o, x, ep) for x in start] for o, ep in zip(rec['outcome'], eps)])
    for t in range(T):
        w, _ = posterior(np.ones(n) / n, L[:t + 1])
        mu = w.dot(start)
        close(col(rec['est'])[t], mu, 'estimate after each datum', rtol=1e-6, atol=1e-8, step=t)
        close(rec['loss'][t], np.sum(np.asarray(fam.model.Q) * (mu - true) ** 2), 'loss', rtol=1e-5, atol=1e-9, step=t)
    req(rec['elapsed_time'] >= 0, 'elapsed time')
    req(rec['resample_count'] == 0, 'no resampling was asked for')
    case.hit(when=T > 1)


@sub('P01', 100, rule='a model with a different number of parameters')
def misspecified(d, case):
    """The loss of models with different numbers of parameters is taken over the last ones they share."""
    ka, kb = d.int(1, 3), d.int(1, 3)
    Q = d.floats(ka, 0.1, 3)
    fam = zoo.Table(d, k=3, lo=0, n_mp=ka, Q=Q)
    tm = zoo.TableModel(3, 0, kb)
    n, T = d.int(2, 6), d.int(1, 5)
    eps = fam.eps(d, T)
    true = d.floats(kb, 0, 1)
    h = Script(eps)
    d.np_seed()
    rec = pt.perf_test(fam.model, n, zoo.FixedPrior(fam.mps(d, n)), T, h, true_model=tm, true_mps=true,
                       extra_updater_args=dict(resample_thresh=0.0))
    same_shape(col(rec['true']), (T, kb), 'true parameters')
    same_shape(col(rec['est']), (T, ka), 'estimates')
    k = min(ka, kb)
    for t in range(T):
        delta = col(rec['est'])[t][-k:] - true[-k:]
        close(rec['loss'][t], np.sum(Q[-k:] * delta ** 2), 'loss over the shared last parameters', rtol=1e-7, atol=1e-12,
              est=rec['est'][t], true=true, Q=Q)
    case.hit(when=ka != kb)


class Drift(zoo.TableModel):
    """The true parameter moves by a known amount that depends on the experiment."""

    def update_timestep(self, modelparams, expparams):
        return modelparams[:, :, None] + 0.01 * expparams['e'][None, None, :]


@sub('P01', 60, rule='at least two experiments')
def moving_truth(d, case):
    """The truth is recorded as it was when measured; the loss compares with the truth after the step."""
    fam = zoo.Table(d, k=2, lo=0, n_mp=d.int(1, 2))
    k = fam.model.n_mp
    tm = Drift(2, 0, k)
    n, T = d.int(2, 6), d.int(1, 6)
    eps = fam.eps(d, T)
    true = d.floats(k, 0, 0.5)
    d.np_seed()
    rec = pt.perf_test(fam.model, n, zoo.FixedPrior(fam.mps(d, n)), T, Script(eps), true_model=tm, true_mps=true,
                       extra_updater_args=dict(resample_thresh=0.0))
    x = true.copy()
    for t in range(T):
        close(col(rec['true'])[t], x, 'truth when measured', step=t)
        x = x + 0.01 * eps['e'][t]
        close(rec['loss'][t], np.sum((col(rec['est'])[t] - x) ** 2), 'loss after the step', rtol=1e-7, atol=1e-12, step=t)
    case.hit(when=T > 1)


@sub('P01', 60, rule='resampled at least once')
def resampling_count(d, case):
    """Options reach the updater; the resample count is cumulative and ends at the updater's."""
    fam = zoo.Table(d, k=3, lo=0, n_mp=1)
    n, T = d.int(5, 20), d.int(2, 8)
    h = Script(fam.eps(d, T))
    th = d.pick([0.9, 1.0, 0.99])
    d.np_seed()
    rec = pt.perf_test(fam.model, n, qi.UniformDistribution([0, 1]), T, h,
                       extra_updater_args=dict(resample_thresh=th, resampler=qi.LiuWestResampler(a=0.9)))
    c = rec['resample_count']
    req(np.all(np.diff(c) >= 0) and np.all(np.diff(c) <= 1) and c[-1] == h.updaters[0].resample_count, 'resample count', got=c)
    req(rec['est'][-1] is not None and np.allclose(rec['est'][-1], h.updaters[0].est_mean()), 'last estimate')
    case.hit(when=c[-1] > 0)


class Bar(object):
    log = []

    def start(self, n):
        self.log.append(('start', n))

    def update(self, i):
        self.log.append(('update', i))

    def finished(self):
        self.log.append(('finished',))


class Later(object):
    """An engine that computes its results in a scrambled order, before they are asked for."""

    def __init__(self, order_rng):
        self.rng, self.jobs = order_rng, []

    def __call__(self, fn, *a, **k):
        job = self.Job(self, fn, a, k)
        self.jobs.append(job)
        return job

    class Job(object):
        def __init__(self, eng, fn, a, k):
            self.eng, self.fn, self.a, self.k, self.out = eng, fn, a, k, None

        def get(self):
            for j in self.eng.rng.permutation(len(self.eng.jobs)):
                job = self.eng.jobs[j]
                if job.out is None:
                    job.out = job.fn(*job.a, **job.k)
            return self.out


def strip(rec):
    names = [n for n in rec.dtype.names if n != 'elapsed_time']
    return {n: np.array(rec[n]) for n in names}


def equal(a, b, msg):
    for n in a:
        req(np.array_equal(a[n], b[n]), msg, field=n, got=a[n], expected=b[n])


@sub('P01', 100, rule='at least two trials')
def many_trials(d, case):
    """Many trials are as many single ones, whatever engine runs them."""
    fam, n, T, locs, eps = setup(d)
    m = d.int(1, 4) if d.chance(3, 4) else d.int(5, 12)
    kw = dict(extra_updater_args=dict(resample_thresh=0.0, zero_weight_policy='reset'))
    if d.bool():
        kw['true_mps'] = fam.mps(d, 1)[0]
    s = d.seed()
    prior = qi.ParticleDistribution(particle_locations=locs, particle_weights=np.ones(n) / n)

    def run(**more):
        np.random.seed(s)
        more.update(kw)
        return more
    h = Script(eps)
    rec = pt.perf_test_multiple(m, fam.model, n, prior, T, h, **run(progressbar=None))
    same_shape(rec, (m, T), 'record of many trials')
    h2 = Script(eps)
    opts = run()
    rows = [pt.perf_test(fam.model, n, prior, T, h2, **opts) for _ in range(m)]
    for i in range(m):
        equal(strip(rec[i]), strip(rows[i]), 'trial %d is the single trial of the same random state' % i)
    req(h.at == m * T, 'every trial designs its own experiments')
    Bar.log = []
    rec2 = pt.perf_test_multiple(m, fam.model, n, prior, T, Script(eps), **run(progressbar=Bar, allow_failures=d.bool()))
    equal(strip(np.asarray(rec2)), strip(rec), 'the progress bar and the tolerance of failures change nothing')
    req(Bar.log[0] == ('start', m) and Bar.log[-1] == ('finished',), 'progress', log=Bar.log)
    req([e for e in Bar.log if e[0] == 'update'] == [('update', i) for i in range(m)], 'progress', log=Bar.log)
    # an engine that finishes in another order: trial i is still in row i
    eng = Later(d.rng())
    truths = FreshTruth(fam.mps(d, m))
    rec3 = pt.perf_test_multiple(m, fam.model, n, prior, T, Script(eps), apply=eng, true_prior=truths,
                                 extra_updater_args=kw['extra_updater_args'])
    same_shape(rec3, (m, T), 'record')
    for i, job in enumerate(eng.jobs):
        equal(strip(rec3[i]), strip(job.out), 'row i is the result of job i')
    req(len(eng.jobs) == m, 'one job per trial')
    case.hit(when=m > 1)


class FreshTruth(qi.Distribution):
    def __init__(self, rows):
        self.rows, self.at = rows, 0

    n_rvs = property(lambda s: s.rows.shape[1])

    def sample(self, n=1):
        x = self.rows[[(self.at + i) % len(self.rows) for i in range(n)]]
        self.at += n
        return x.copy()


class Boom(Exception):
    pass


@sub('P01', 100, rule='some trials fail')
def failing_trials(d, case):
    """Failures propagate or are masked, trial by trial; the error policy and the progress bar are closed."""
    fam = zoo.Table(d, k=3, lo=0, n_mp=1)
    m, T, n = d.int(1, 5), d.int(1, 3), 4
    bad = d.ints(m, 0, 1).astype(bool)
    divide = d.bool()
    eps = fam.eps(d, T)

    class Heur(object):
        count = -1

        def __call__(self, up):
            Heur.count += 1
            me = Heur.count

            def design():
                if bad[me]:
                    if divide:
                        np.ones(1) / np.zeros(1)
                    else:
                        raise Boom()
                return eps[:1]
            return design
    before = dict(np.geterr())
    Bar.log = []

    def run(**kw):
        Heur.count = -1
        return pt.perf_test_multiple(m, fam.model, n, qi.UniformDistribution([0, 1]), T, Heur(), progressbar=Bar,
                                     extra_updater_args=dict(resample_thresh=0.0), **kw)
    rec = run(allow_failures=True)
    same_shape(rec, (m, T), 'record')
    for i in range(m):
        for name in rec.dtype.names:
            req(np.all(np.ma.getmaskarray(rec[name])[i]) if bad[i] else not np.any(np.ma.getmaskarray(rec[name])[i]),
                'failed trials are masked, others are not', trial=i, failed=bad, field=name)
        if not bad[i]:
            req(np.all(rec['est'][i] > 0), 'good trials hold their results')
    req(dict(np.geterr()) == before, 'the error policy is restored')
    req(Bar.log.count(('finished',)) == 1, 'progress finishes once', log=Bar.log)
    if bad.any():
        Bar.log = []
        raises((Boom, FloatingPointError), run, 'a failure propagates')
        req(dict(np.geterr()) == before, 'the error policy is restored after a failure', got=np.geterr(), expected=before)
        req(Bar.log.count(('finished',)) == 1, 'progress finishes once', log=Bar.log)
    case.hit(when=bad.any())


@sub('P01', 60, rule='an exception leaves the block')
def contexts(d, case):
    """Timers and error policies are confined to their blocks, whichever way these end."""
    old = {k: d.pick(['ignore', 'warn', 'raise', 'print']) for k in ('divide', 'over', 'under', 'invalid')}
    new = {k: d.pick(['ignore', 'raise']) for k in old if d.bool()}
    fail = d.bool()
    np.seterr(**old)
    try:
        try:
            with pt.numpy_err_policy(**new):
                got = np.geterr()
                req(got == dict(old, **new), 'policy inside of the block', got=got)
                if fail:
                    raise Boom()
        except Boom:
            pass
        req(np.geterr() == old, 'policy after the block', got=np.geterr(), expected=old)
    finally:
        np.seterr(all='ignore')
    t0 = time.time()
    try:
        with pt.timing() as t:
            a = t.delta_t
            time.sleep(0.0005)
            b = t.delta_t
            if fail:
                raise Boom()
    except Boom:
        pass
    x = t.delta_t
    wall = time.time() - t0
    time.sleep(0.0005)
    req(0 <= a <= b <= x + 1e-9 and b - a >= 0.0004, 'a running timer runs', times=(a, b, x))
    req(t.delta_t == x and x <= wall + 1e-6, 'a stopped timer stands still', times=(x, t.delta_t, wall))
    calls = []
    job = pt.apply_serial(lambda *a, **k: calls.append((a, k)) or len(calls), 1, 2, c=3)
    req(job.get() == 1 and job.get() == 1 and calls == [((1, 2), dict(c=3))], 'serial application runs once', calls=calls)
    case.hit(when=fail)


@sub('P01', 80, rule='arrays of different shapes')
def alignment(d, case):
    """Arrays are aligned at the right and cut to their common shape."""
    k = d.int(1, 3)
    arrs = []
    for _ in range(k):
        nd = d.int(1, 3)
        arrs.append(d.rng().randn(*[d.int(1, 4) for _ in range(nd)]))
    out = pt.shorten_right(*arrs)
    nd = max(a.ndim for a in arrs)
    full = [a.reshape((1,) * (nd - a.ndim) + a.shape) for a in arrs]
    shape = tuple(min(a.shape[i] for a in full) for i in range(nd))
    req(len(out) == k, 'number of arrays')
    for o, a in zip(out, full):
        s = tuple(slice(a.shape[i] - shape[i], None) for i in range(nd))
        req(o.shape == shape and np.array_equal(o, a[s]), 'last entries along each axis', got=o, expected=a[s])
    a = np.array(d.rng().randn(*[2] * d.int(0, 3)))
    m = d.int(0, 4)
    p = pt.promote_dims_left(a, m)
    req(np.shape(p) == (1,) * max(0, m - a.ndim) + a.shape, 'axes are added at the left')
    case.hit(when=len(set(a.shape for a in arrs)) > 1)


@sub('P01', 15, rule='more than a hundred experiments')
def long_trials(d, case):
    """Trials of hundreds of experiments, with a thousand particles, are recorded throughout."""
    n, T = d.pick([(20, 150), (50, 400), (1500, 30)])
    m = qi.CoinModel()
    x = d.rng().uniform(0.2, 0.8, size=(n, 1))
    true = float(d.rng().uniform(0.3, 0.7))
    eps = np.zeros(1, dtype=m.expparams_dtype)
    h = Script(eps)
    d.np_seed()
    rec = pt.perf_test(m, n, zoo.FixedPrior(x), T, h, true_mps=np.array([[true]]), extra_updater_args=dict(resample_thresh=0.0))
    same_shape(rec, (T,), 'record')
    o = np.asarray(rec['outcome']).reshape(T)
    req(np.isin(o, [0, 1]), 'recorded outcomes')
    up = h.updaters[0]
    req(np.array_equal(o, np.ravel(up.data_record)), 'recorded outcomes are those that the updater was given')
    l = np.cumsum(np.where(o[:, None] == 0, np.log(x[:, 0]), np.log1p(-x[:, 0])), axis=0)
    w = np.exp(l - l.max(axis=1, keepdims=True))
    w /= w.sum(axis=1, keepdims=True)
    est = w.dot(x[:, 0])
    close(np.ravel(rec['est']), est, 'estimates', rtol=1e-7)
    close(np.ravel(rec['loss']), (est - true) ** 2, 'losses', rtol=1e-5, atol=1e-12)
    close(np.ravel(rec['true']), np.full(T, true), 'true parameters', rtol=1e-12)
    z = ((o == 0).mean() - true) * math.sqrt(T / (true * (1 - true)))
    req(abs(z) < 7.5, 'data follow the true parameters', z=z)
    case.hit(when=T > 100)
