"""M05: models with deliberately approximate likelihoods."""
import math

import numpy as np
import scipy.stats as ss

from core import sub, req, close, same_shape, raises
import qinfer as qi
from qinfer.ale import ALEApproximateModel
import stats
import zoo

ASSUMPTIONS = ['statistical comparisons reject at a per-case probability below 1e-9 under the stated law']


@sub('M05', 200, rule='noise that is partly inside of the interval')
def poisoned(d, case):
    """A poisoned likelihood is the true one plus normal noise of the stated width, cut to [0, 1];
    every entry has its own noise."""
    fam = d.pick([zoo.draw_two, lambda d: zoo.Die(d), lambda d: zoo.Table(d)])(d)
    R = 250
    nm, ne = d.int(1, 2), d.int(1, 3)
    mode = d.pick(['tol', 'mle', 'mle_hedge'])
    kw = {}
    if mode == 'tol':
        kw['tol'] = d.logfl(1e-3, 1.0)
    else:
        kw['n_samples'] = d.pick([1, 2, 3, d.int(1, 200)])
        R = 5000
        if mode == 'mle_hedge':
            kw['hedge'] = d.fl(0, 2)
    m = qi.PoisonedModel(fam.model, **kw)
    mps = fam.mps(d, nm)
    eps = fam.eps(d, ne)
    os = fam.draw_outcomes(d, eps[0], d.int(1, 2))
    d.np_seed()
    L = m.likelihood(os, np.repeat(mps, R, axis=0), eps)
    same_shape(L, (len(os), nm * R, ne), 'poisoned likelihood')
    req((L >= 0) & (L <= 1), 'within [0, 1]', got=L)
    ref = zoo.ref_table(fam, os, mps, eps)
    L = L.reshape(len(os), nm, R, ne).transpose(0, 1, 3, 2)
    cols = []
    for i in range(len(os)):
        for j in range(nm):
            for k in range(ne):
                p, x = float(ref[i, j, k]), L[i, j, k]
                s = kw['tol'] if mode == 'tol' else \
                    math.sqrt(max(p * (1 - p), 0) / (kw['n_samples'] + 2 * kw.get('hedge', 0.0) + 1))
                if s < 1e-6:
                    close(x, np.full(R, p), 'no noise', rtol=0, atol=1e-4)
                    continue
                lo, hi = ss.norm.cdf((0 - p) / s), ss.norm.sf((1 - p) / s)
                stats.freq(np.array([np.sum(x <= 0), np.sum(x >= 1), np.sum((x > 0) & (x < 1))]) + 0,
                           [max(lo, 1e-15), max(hi, 1e-15), max(1 - lo - hi, 1e-15)], 'share cut at 0 and 1', true=p, sigma=s)
                inner = x[(x > 0) & (x < 1)]
                if len(inner) > 30:
                    stats.ks(inner, lambda t: (ss.norm.cdf((t - p) / s) - lo) / (1 - lo - hi),
                             'noise around the true likelihood', true=p, sigma=s, mode=mode)
                    case.hit(mode)
                if lo < 0.3 and hi < 0.3:
                    cols.append(x)
    if len(cols) > 1:
        stats.uncorrelated(np.array(cols).T, 'noise of different entries')


@sub('M05', 60, rule='always')
def poison_settings(d, case):
    """Exactly one of a tolerance and a sample number must be given."""
    fam = zoo.draw_two(d)
    raises(ValueError, lambda: qi.PoisonedModel(fam.model), 'neither tol nor n_samples')
    raises(ValueError, lambda: qi.PoisonedModel(fam.model, tol=d.fl(0, 1), n_samples=d.int(1, 9)), 'both')
    mps, eps = fam.mps(d, 3), fam.eps(d, 2)
    m = qi.PoisonedModel(fam.model, tol=0.0)
    close(m.likelihood(np.array([0, 1]), mps, eps), zoo.ref_table(fam, [0, 1], mps, eps), 'zero tolerance is exact',
          rtol=1e-7, atol=1e-9)
    case.hit()


class Script(zoo.TableModel):
    """Two outcomes with scripted simulations: the records of what was asked for and given."""
    def __init__(self, rng, ps):
        super(Script, self).__init__(2)
        self.rng, self.ps, self.log = rng, ps, []

    def likelihood(self, *a):
        raise RuntimeError('the simulator has no likelihood to call')

    def simulate_experiment(self, mps, eps, repeat=1):
        qi.Simulatable.simulate_experiment(self, mps, eps, repeat)
        req(len(self.log) < 3000, 'the accuracy asked for is never reached')
        data = (self.rng.uniform(size=(repeat, len(mps), len(eps))) < self.ps).astype(int)
        self.log.append(data)
        return data[0, 0, 0] if data.size == 1 else data


def p_est(n, N, h):
    return (n + h) / (N + 2 * h)


@sub('M05', 250, rule='more than one round of samples')
def adaptive(d, case):
    """Adaptive estimation draws samples, min_samp first and then samp_step at a time, until all of its
    estimates are as accurate as asked, and then reports the hedged estimate from all the samples."""
    nm, ne = d.int(1, 4), d.int(1, 3)
    ps = d.arr((nm, ne), 0, 1)
    sim = Script(d.rng(), ps)
    tol = d.logfl(0.03, 1.0)
    mins, step = d.int(1, 60), d.int(1, 60)
    eh, ah = d.pick([0.509, 0.0, 1.3]), d.pick([0.509, 0.1, 2.0])
    kw = {}
    if d.chance(2, 3):
        kw = dict(est_hedge=eh, adapt_hedge=ah)
    else:
        eh = ah = 0.509
    m = ALEApproximateModel(sim, error_tol=tol, min_samp=mins, samp_step=step, **kw)
    os = d.ints(d.int(1, 3), 0, 1)
    mps, eps = d.arr((nm, 1), 0, 1), np.zeros(ne, dtype=sim.expparams_dtype)
    L = m.likelihood(os, mps, eps)
    same_shape(L, (len(os), nm, ne), 'likelihood')
    data = np.concatenate(sim.log)
    N = len(data)
    n = data.sum(axis=0)
    sizes = [len(x) for x in sim.log]
    p1 = p_est(n, N, eh)
    want = np.array([p1 if o == 1 else 1 - p1 for o in os])
    close(L, want, 'the estimate is the hedged frequency of all samples', rtol=1e-9, sizes=sizes, min_samp=mins, samp_step=step)
    req(N >= mins and (N - mins) % step == 0, 'min_samp samples, then samp_step at a time', sizes=sizes)

    def err(K):
        p = p_est(data[:K].sum(axis=0), K, ah)
        return np.sqrt(p * (1 - p) / (K + 2 * ah + 1))
    req(np.all(err(N) < tol), 'the accuracy asked for was reached', errors=err(N), tol=tol)
    for K in range(mins, N, step):
        req(not np.all(err(K) < tol), 'sampling stops once the accuracy is reached', at=K, total=N)
    req(m.sim_count == sim.sim_count == N * nm * ne, 'simulations are counted', got=m.sim_count)
    req(m.call_count == len(os) * nm * ne, 'likelihood calls are counted', got=m.call_count)
    one = m.simulate_experiment(mps, eps)
    same_shape(one if nm * ne > 1 else np.reshape(one, (1, 1, 1)), (1, nm, ne), 'data of one repetition')
    case.hit(when=len(sizes) > 1 and N > mins)


@sub('M05', 60, rule='always')
def adaptive_settings(d, case):
    """Settings out of range and simulators of more than two outcomes are refused."""
    sim = zoo.TableModel(2)
    bad = d.pick([dict(error_tol=0), dict(error_tol=-0.1), dict(error_tol=1.5), dict(min_samp=0), dict(min_samp=-2),
                  dict(samp_step=0), dict(est_hedge=-0.1), dict(adapt_hedge=-1)])
    raises(ValueError, lambda: ALEApproximateModel(sim, **bad), 'accepted %r' % bad)
    raises(ValueError, lambda: ALEApproximateModel(zoo.TableModel(d.int(3, 5))), 'three outcomes')
    raises(TypeError, lambda: ALEApproximateModel(object()), 'not a simulator')
    m = ALEApproximateModel(qi.CoinModel())
    mps = d.arr((2, 1), 0, 1)
    req(m.n_modelparams == 1 and m.are_models_valid(np.array([[0.5], [1.5]])).tolist() == [True, False], 'passes through')
    np.random.seed(5)
    a = m.simulate_experiment(mps, np.zeros(2, dtype=[]), repeat=3)
    np.random.seed(5)
    b = qi.CoinModel().simulate_experiment(mps, np.zeros(2, dtype=[]), repeat=3)
    req(np.array_equal(a, b), 'simulations are those of the simulator')
    case.hit()


@sub('M05', 40, rule='always')
def two_of_a_kind(d, case):
    """The noise of one poisoned model is not that of another one made later."""
    fam = zoo.draw_two(d)
    mps, eps = fam.mps(d, 3), fam.eps(d, 2)
    kws = [dict(tol=0.01), dict(tol=0.2), dict(n_samples=10), dict(n_samples=10, hedge=0.7), dict(n_samples=1000)]
    m = qi.PoisonedModel(fam.model, **d.pick(kws))
    s, out = d.seed(), []
    for _ in range(2):
        np.random.seed(s)
        out.append(m.likelihood(np.array([0, 1]), mps, eps))
        for kw in kws:
            qi.PoisonedModel(fam.model, **kw)
    close(out[1], out[0], 'noise of a poisoned model after others were made', rtol=1e-12)
    case.hit(when=True)
