"""B02: weights stay a probability distribution; impossible data follow the chosen policy."""
import numpy as np

from core import sub, req, close, raises, caught
import qinfer as qi
from qinfer import ApproximationWarning
import zoo

ASSUMPTIONS = ['likelihoods are finite; impossible means an exactly zero likelihood at every particle']

POLICIES = ['error', 'skip', 'warn', 'ignore', 'reset']


class Support(zoo.TableModel):
    """Two outcomes; outcome 1 is impossible unless the parameter exceeds the experiment's bar."""
    expparams_dtype = property(lambda s: [('e', float), ('bar', float)])
    moves = False

    def likelihood(self, outcomes, modelparams, expparams):
        qi.FiniteOutcomeModel.likelihood(self, outcomes, modelparams, expparams)
        x = modelparams[:, :1]
        p1 = np.where(x > expparams['bar'][None, :], 0.2 + 0.5 * x, 0.0)
        return qi.FiniteOutcomeModel.pr0_to_likelihood_array(outcomes, 1 - p1)

    def update_timestep(self, mps, eps):
        shift = 0.1 if self.moves else 0.0
        return (mps[:, :, None] * (1 - shift)) * np.ones((1, 1, len(eps)))


def make(d, policy, n, **kw):
    m = Support(2, 0, d.int(1, 2))
    m.moves = d.bool()
    rows = d.arr((3 * n, m.n_mp), 0.05, 0.95)
    prior = zoo.FixedPrior(rows)
    if policy == 'error' and not kw and d.bool():
        return m, prior, qi.MixedApproximateSMCUpdater(m, m, n, prior, resample_thresh=0.0,
                                                       mixture_ratio=d.pick([0.0, 0.5, 1.0]))
    return m, prior, qi.SMCUpdater(m, n, prior, zero_weight_policy=policy, resample_thresh=0.0, **kw)


def ep(m, bar):
    e = np.zeros(1, dtype=m.expparams_dtype)
    e['bar'] = bar
    return e


@sub('B02', 200, rule='data were seen before the impossible datum')
def policies(d, case):
    """Each policy does to an impossible datum what it says, and nothing else."""
    policy = d.pick(POLICIES)
    n = d.int(1, 8)
    kw = {}
    if d.bool():
        kw['zero_weight_thresh'] = d.pick([1e-14, 1e-10, 1e-3])
    m, prior, up = make(d, policy, n, **kw)
    T = d.int(0, 3)
    for _ in range(T):
        up.update(0, ep(m, 0.5))
    w, x = up.particle_weights.copy(), up.particle_locations.copy()
    rec, norms, calls = up.data_record, len(up.normalization_record), prior.calls
    bar = 2.0
    with caught() as ws:
        if policy == 'error':
            raises(RuntimeError, lambda: up.update(1, ep(m, bar)), 'policy "error" raises on an impossible datum')
        elif d.bool():
            up.update(1, ep(m, bar))
        else:
            up.batch_update(np.array([1]), ep(m, bar))
    warned = [q for q in ws if issubclass(q.category, ApproximationWarning) and 'zero' in str(q.message).lower()]
    req(bool(warned) == (policy in ('warn', 'reset')), 'a warning is given exactly by "warn" and "reset"',
        policy=policy, warnings=[str(q.message) for q in ws])
    if policy in ('error', 'skip'):
        req(np.array_equal(up.particle_weights, w) and np.array_equal(up.particle_locations, x),
            'the distribution is untouched', policy=policy, weights=up.particle_weights, before=w)
        req(len(up.normalization_record) == norms, 'no normalisation is recorded')
    elif policy == 'reset':
        close(up.particle_weights, np.ones(n) / n, 'weights are reset')
        req(prior.calls == calls + 1, 'the prior was sampled once more', got=prior.calls - calls)
        idx = (np.arange(n) + 7 * calls) % len(prior.rows)
        close(up.particle_locations, prior.rows[idx], 'particles are fresh prior samples')
    else:
        req(up.particle_weights == 0, 'weights are all zero', policy=policy, got=up.particle_weights)
    if policy != 'error':
        req(len(up.data_record) == len(rec) + 1, 'the datum is recorded')
    case.hit(policy, when=T > 0)


@sub('B02', 60, rule='always')
def bad_policy(d, case):
    """An unknown policy is reported when it is needed."""
    m, prior, up = make(d, d.pick(['Skip', 'none', '']), d.int(1, 5))
    raises(ValueError, lambda: up.update(1, ep(m, 2.0)), 'unknown policy')
    case.hit()


@sub('B02', 300, rule='at least one impossible and one possible datum')
def hygiene(d, case):
    """Through any history of possible and impossible data, resampling, resetting and sampling,
    the weights stay non-negative, finite and normalised, one per particle."""
    policy = d.pick(['skip', 'reset', 'error'])
    n = d.int(1, 20)
    m, prior, up = make(d, policy, n)
    up.resample_thresh = d.pick([0.0, 0.3, 0.9, 1.0])
    d.np_seed()
    imp = pos = 0
    for _ in range(d.int(1, 10)):
        op = d.pick(['update', 'update', 'update', 'resample', 'reset', 'batch'])
        if op in ('update', 'batch'):
            bar, o = d.pick([0.2, 0.5, 0.8, 2.0]), d.int(0, 1)
            possible = o == 0 or bool(np.any((up.particle_locations[:, 0] > bar) & (up.particle_weights > 0)))
            try:
                if op == 'update':
                    up.update(o, ep(m, bar), check_for_resample=d.bool())
                else:
                    up.batch_update(np.array([o]), ep(m, bar), resample_interval=1)
            except RuntimeError:
                req(policy == 'error' and not possible, 'an exception only for an impossible datum under "error"')
            pos += possible
            imp += not possible
        elif op == 'resample':
            if n > 1 and np.ptp(up.particle_locations[:, 0]) > 1e-3:
                up.resample()
        else:
            up.reset(d.int(1, 20)) if d.bool() else up.reset()
        w = up.particle_weights
        req(w.shape == (up.n_particles,) and up.particle_locations.shape == (up.n_particles, m.n_mp),
            'one weight per particle', weights=w.shape, locations=up.particle_locations.shape)
        req(np.all(np.isfinite(w)) and np.all(w >= 0) and abs(w.sum() - 1) < 1e-9,
            'weights are a probability distribution after "%s"' % op, weights=w)
        req(np.isfinite(up.particle_locations), 'locations are finite')
        ess = up.n_ess
        req(1 - 1e-9 <= ess <= up.n_particles * (1 + 1e-9), 'effective sample size between 1 and n', got=ess)
        close(ess, 1 / np.sum(w ** 2), 'effective sample size')
    case.hit(policy, when=imp > 0 and pos > 0)


class Signed(zoo.TableModel):
    """An approximate likelihood that dips below zero."""

    def __init__(self, off):
        zoo.TableModel.__init__(self, 2)
        self.off = off

    def likelihood(self, outcomes, modelparams, expparams):
        x = modelparams[:, 0]
        return np.repeat((x - self.off)[None, :, None], len(expparams), axis=2)


@sub('B02', 200, rule='some, not all, approximate likelihoods are negative')
def clipping(d, case):
    """Negative likelihoods of an approximation are clipped to zero with a warning, whatever their sum; particles with
    positive ones keep their relative weights, and when none is positive the zero-weight policy applies."""
    n = d.int(1, 10)
    rows = np.round(d.arr((n, 1), 0.0, 1.0), 3)
    off = d.pick([0.2505, 0.5005, 0.7505, 0.9505, 1.0505])
    m = Signed(off)
    policy = d.pick(['error', 'skip'])
    up = qi.SMCUpdater(m, n, zoo.FixedPrior(rows), resample_thresh=0, zero_weight_policy=policy)
    w0 = d.weights(n)
    up.particle_weights = w0.copy()
    L = rows[:, 0] - off
    neg = (L < 0) & (w0 > 0)
    num = w0 * np.maximum(L, 0)
    failed = False
    with caught() as ws:
        try:
            up.update(0, np.zeros(1, dtype=m.expparams_dtype))
        except RuntimeError:
            failed = True
    warned = any(issubclass(q.category, ApproximationWarning) and 'egative' in str(q.message) for q in ws)
    req(warned == bool(neg.any()), 'warned exactly if a weight was negative')
    w = up.particle_weights
    if num.sum() == 0:
        req(failed == (policy == 'error'), 'no positive likelihood: the zero-weight policy applies')
        close(w, w0, 'weights are left alone', rtol=1e-12)
    else:
        req(not failed, 'some likelihood is positive')
        req(np.all(w >= 0) and abs(w.sum() - 1) < 1e-9, 'weights are a probability distribution', weights=w)
        req(w[neg] == 0, 'negative weights are clipped to zero')
        close(w, num / num.sum(), 'weights', rtol=1e-7)
    case.hit('negative total', when=(w0 * L).sum() < 0 < num.sum())
    case.hit(when=neg.any() and not neg.all())


@sub('B02', 100, rule='a proper subset of the parameters, or a new number of particles')
def reset(d, case):
    """Resets draw fresh particles, of all or of the chosen parameters, and equal weights unless told not to."""
    k = d.int(1, 4)
    n = d.int(1, 6)
    m = zoo.TableModel(2, 0, k)

    def canonicalize(x):
        req(x.ndim == 2 and x.shape[1] == k, 'models canonicalise whole parameter vectors', got=x.shape)
        return np.mod(x, 1.0)
    m.canonicalize = canonicalize
    rows = d.arr((5 * n, k), 0.0, 3.0)
    prior = zoo.FixedPrior(rows)
    can = d.bool()
    up = qi.SMCUpdater(m, n, prior, resample_thresh=0, canonicalize=can)
    f = (lambda x: np.mod(x, 1.0)) if can else (lambda x: x)
    close(up.particle_locations, f(rows[:n]), 'initial particles')
    w = d.weights(n)
    up.particle_weights = w.copy()
    before = up.particle_locations.copy()
    keep = d.bool()
    kind = d.pick(['all', 'size', 'params', 'both'])
    idx = lambda n: (np.arange(n) + 7) % len(rows)
    if kind == 'all':
        up.reset(reset_weights=not keep)
        close(up.particle_locations, f(rows[idx(n)]), 'fresh particles')
    elif kind == 'size':
        n2 = d.int(1, 9)
        keep = False
        up.reset(n2)
        close(up.particle_locations, f(rows[idx(n2)]), 'fresh particles')
        n = n2
    elif kind == 'params':
        a = d.int(0, k - 1)
        sl = np.s_[a:d.int(a + 1, k)]
        up.reset(only_params=sl, reset_weights=not keep)
        want = before.copy()
        want[:, sl] = rows[idx(n)][:, sl]
        close(up.particle_locations, f(want), 'only the chosen parameters are fresh')
        case.hit('params', when=k > 1)
    else:
        raises(ValueError, lambda: up.reset(n, only_params=np.s_[:1]), 'both arguments are refused')
        req(np.array_equal(up.particle_locations, before), 'nothing changed')
        keep = True
    close(up.particle_weights, w if keep else np.ones(n) / n, 'weights after a reset')
    req(prior.calls == (1 if kind == 'both' else 2), 'the prior is sampled once per reset')
    case.hit(when=kind == 'size')


@sub('B02', 30, rule='more than a thousand particles')
def large(d, case):
    """Weights stay a probability distribution for any number of particles, with or without clipping."""
    n = d.pick([30, 1100, 3000, 20000])
    off = d.pick([-0.3, 0.2505, 0.5005, 0.9505])
    m = Signed(off)
    rows = np.round(d.rng().uniform(0, 1, size=(n, 1)), 5)
    up = qi.SMCUpdater(m, n, zoo.FixedPrior(rows), resample_thresh=0)
    w = d.rng().exponential(size=n)
    if d.bool():
        w[d.rng().uniform(size=n) < 0.3] = 0
    w /= w.sum()
    up.particle_weights = w.copy()
    for t in range(d.int(1, 3)):
        w = w * np.maximum(rows[:, 0] - off, 0)
        if w.sum() < 1e-9:
            return
        w /= w.sum()
        with caught():
            up.update(0, np.zeros(1, dtype=m.expparams_dtype))
        got = up.particle_weights
        req(np.all(got >= 0) and np.isfinite(got) & (abs(got.sum() - 1) < 1e-9), 'weights are a probability distribution',
            total=got.sum())
        close(got, w, 'weights', rtol=1e-7, atol=1e-14, n=n)
        close(up.n_ess, 1 / np.sum(w ** 2), 'effective sample size', rtol=1e-6)
    case.hit(when=n > 1000)


@sub('B02', 40, rule='the policies differ')
def two_policies(d, case):
    """The policy of one updater for impossible data is not that of another one made later."""
    model = qi.SimplePrecessionModel()
    n = d.int(2, 8)
    rows = d.arr((n, 1), 0, 1)
    a, b = d.pick(['error', 'skip', 'warn']), d.pick(['error', 'skip', 'warn', 'ignore', 'reset'])
    make = lambda p: qi.SMCUpdater(model, n, zoo.FixedPrior(rows), resample_thresh=0, zero_weight_policy=p)
    up, _ = make(a), make(b)
    w = up.particle_weights.copy()
    error = False
    with caught() as ws:
        try:
            up.update(1, np.array([0.0]))     # impossible at time zero
        except RuntimeError:
            error = True
    warned = any(issubclass(v.category, qi.ApproximationWarning) for v in ws)
    req(error == (a == 'error'), 'an error is raised by the policy of that name only', policy=a, other=b)
    req(error or warned == (a == 'warn'), 'a warning is given by the policy of that name only', policy=a, other=b)
    req(np.array_equal(up.particle_weights, w) or a == 'warn' or error, 'a skipped datum changes nothing', policy=a, other=b)
    case.hit(when=a != b)
