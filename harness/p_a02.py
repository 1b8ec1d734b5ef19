"""A02: every random result is determined by the state of NumPy's global generator, and by nothing else."""
import random

import numpy as np

from core import sub, req
import qinfer as qi
from qinfer import tomography as tm
from qinfer.ale import ALEApproximateModel
import priors
import zoo
from p_a01 import snap

ASSUMPTIONS = ['results are compared bit for bit within one process on one machine']


def twice(d, f, what, consumes=True):
    """f() under the same seed gives the same; its randomness comes from, and advances, the global state."""
    s = d.seed()
    np.random.seed(s)
    random.seed(1)
    a = f()
    end = np.random.random(4)
    # something else happens in between
    random.seed(2)
    np.random.seed(s ^ 0x5a5a)
    other = f()
    end2 = np.random.random(4)
    np.random.seed(s)
    random.seed(3)
    b = f()
    req(snap(a) == snap(b), what + ': same seed, different result', first=a, second=b)
    req(np.array_equal(end, np.random.random(4)), what + ': same seed, different state of the generator afterwards')
    req(not np.array_equal(end, end2), what + ': the global generator is set to a fixed state', after=end)
    if consumes:
        np.random.seed(s)
        req(not np.array_equal(end, np.random.random(4)), what + ': does not draw from the global generator')
    return a, other


@sub('A02', 250, rule='several models, experiments or repetitions')
def models(d, case):
    """Simulated data, moving particles and noisy likelihoods repeat under the same seed."""
    fam = zoo.draw_any(d)
    m = fam.model
    nm, ne, rep = d.int(1, 4), d.int(1, 3), d.pick([1, 2, 5])
    mps, eps = fam.mps(d, nm), fam.eps(d, ne)
    twice(d, lambda: np.asarray(m.simulate_experiment(mps, eps, repeat=rep)), fam.name + ': simulation',
          consumes=not (fam.name.startswith(('binomial', 'multinomial'))))
    moving = 'walk' in fam.name or 'diffus' in fam.name
    twice(d, lambda: m.update_timestep(mps, eps), fam.name + ': timestep', consumes=moving and False)
    case.hit(fam.name.split('(')[0], when=nm * ne * rep > 1)


@sub('A02', 60, rule='always')
def noisy_likelihoods(d, case):
    """Poisoned and sampled likelihoods repeat under the same seed, and differ under another."""
    fam = zoo.draw_two(d)
    m = d.pick([lambda: qi.PoisonedModel(fam.model, tol=0.1), lambda: qi.PoisonedModel(fam.model, n_samples=10),
                lambda: ALEApproximateModel(fam.model, error_tol=0.2)])()
    mps, eps = fam.mps(d, d.int(1, 4)), fam.eps(d, d.int(1, 3))
    os = fam.draw_outcomes(d, eps[0], d.int(1, 2))
    twice(d, lambda: m.likelihood(os, mps, eps), type(m).__name__)
    case.hit(type(m).__name__)


@sub('A02', 250, rule='a distribution with random samples')
def distributions(d, case):
    """Samples of every prior repeat under the same seed and continue the stream of random numbers otherwise."""
    name, dist, _ = priors.draw_prior(d)
    n = d.pick([1, 3, 8])
    random_ = name not in ('constant', 'product')
    a, b = twice(d, lambda: dist.sample(n), name, consumes=random_)
    if name in ('uniform', 'normal', 'multivariate normal', 'log-normal', 'gamma', 'slanted', 'simplex', 'haar', 'ginibre',
                'bcsz', 'gadfli', 'tensor', 'interpolated', 'hilbert-schmidt', 'ginibre qubit', 'dirichlet', 'beta'):
        req(not np.array_equal(a, b), name + ': different seeds, same samples')
        c = dist.sample(n)
        req(not np.array_equal(c, dist.sample(n)), name + ': the same samples are drawn again')
    case.hit(name, when=random_)


class Flat(qi.DerivedModel):
    """Approximates every likelihood by something flatter."""

    def likelihood(self, o, m, e):
        super(Flat, self).likelihood(o, m, e)
        return 0.2 + 0.5 * self.underlying_model.likelihood(o, m, e)

    def simulate_experiment(self, *args, **kw):
        return self.underlying_model.simulate_experiment(*args, **kw)


@sub('A02', 100, rule='at least one resampling')
def histories(d, case):
    """A whole history of data, resamplings, resets, heuristics and samples repeats under the same seed."""
    k = d.int(1, 3)
    fam = zoo.Table(d, n_mp=k)
    n = d.int(4, 25)
    T = d.int(1, 5)
    ops = [d.pick(['update', 'update', 'resample', 'sample', 'reset', 'batch']) for _ in range(T)]
    eps = fam.eps(d, T)
    thresh = d.pick([0.5, 1.0])
    prior = qi.UniformDistribution([[0, 1]] * k)
    mixed = d.chance(1, 4)
    # which of equally heavy particles get the complete model is random, too
    apx = Flat(fam.model)
    ratio, good = d.pick([0.3, 0.5]), d.pick([0, 3])
    cls = (lambda *a, **kw: qi.MixedApproximateSMCUpdater(a[0], apx, *a[1:], mixture_ratio=ratio, min_good=good, **kw)) \
        if mixed else qi.SMCUpdater
    count = []

    def run():
        up = cls(fam.model, n, prior, resample_thresh=thresh, resampler=qi.LiuWestResampler(a=0.95))
        out = []
        x = prior.sample()
        for t, op in enumerate(ops):
            o = fam.model.simulate_experiment(x, eps[t:t + 1])
            if op == 'update':
                up.update(o, eps[t:t + 1])
            elif op == 'batch':
                up.batch_update(np.array([o, o]), eps[[t, t]], resample_interval=1)
            elif op == 'resample':
                up.resample()
            elif op == 'reset':
                up.reset()
            else:
                out.append(up.sample(3))
            out.append(up.particle_locations.copy())
            out.append(up.particle_weights.copy())
        count.append(up.resample_count)
        return out
    twice(d, run, 'history of an updater')
    case.hit('mixed' if mixed else 'plain', when=count[0] > 0)


@sub('A02', 40, rule='always')
def heuristics(d, case):
    """Heuristics with random choices repeat under the same seed."""
    kind = d.int(0, 4)
    if kind == 0:
        m = qi.SimpleInversionModel()
        up = qi.SMCUpdater(m, 20, qi.UniformDistribution([0, 1]))
        h = qi.PGH(up, inv_field='w_', t_field='t')
    elif kind == 1:
        m = qi.SimplePrecessionModel()
        up = qi.SMCUpdater(m, 20, qi.UniformDistribution([0, 1]))
        h = qi.EnsembleHeuristic([(qi.ExpSparseHeuristic(up, scale=s), 0.25) for s in (1, 2, 3, 4)])
    else:
        b = tm.pauli_basis(d.int(1, 2))
        m = tm.TomographyModel(b)
        up = qi.SMCUpdater(m, 20, tm.GinibreDistribution(b))
        h = (tm.RandomPauliHeuristic if kind == 2 else tm.RandomStabilizerStateHeuristic)(up)
        if kind == 4:
            h = tm.BestOfKMetaheuristic(up, h)
    twice(d, lambda: [h() for _ in range(4)], type(h).__name__)
    case.hit(type(h).__name__)


@sub('A02', 16, rule='always')
def campaigns(d, case):
    """Performance tests and simple estimation repeat under the same seed, up to elapsed times."""
    kind = d.int(0, 2)
    if kind < 2:
        m = qi.SimplePrecessionModel()
        if d.bool():
            m = qi.RandomWalkModel(m, qi.NormalDistribution(0, 1e-5))
        prior = qi.UniformDistribution([0, 1])

        def run():
            if kind == 0:
                p = qi.perf_test(m, 50, prior, 4, qi.ExpSparseHeuristic)
            else:
                p = qi.perf_test_multiple(3, m, 50, prior, 3, qi.ExpSparseHeuristic, allow_failures=d_fail)
            return [np.array(p[f]) for f in ('true', 'est', 'loss', 'resample_count', 'outcome', 'experiment')]
        d_fail = d.bool()
        a, b = twice(d, run, 'performance test')
        req(not np.array_equal(a[0], b[0]), 'true parameters are drawn at random')
        if kind == 1:
            req(len(np.unique(a[0][:, 0])) == 3, 'every trial draws its own true parameters', got=a[0][:, 0])
    else:
        data = priors.prec_data(d)
        twice(d, lambda: [float(x) for x in qi.simple_est_prec(data, 0.0, 1.0, n_particles=200)], 'simple_est_prec')
    case.hit(str(kind))
