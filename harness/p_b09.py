"""B09: Bayesian information matrices accumulate the Fisher information of the experiments done."""
import numpy as np

from core import sub, req, close, same_shape, raises
import qinfer as qi
import zoo
from p_m07 import ref_score, safe
from p_b01 import posterior

ASSUMPTIONS = ['differentiable two-outcome models at parameters where every outcome has likelihood above 1e-3']


class GradPrior(zoo.FixedPrior):
    def grad_log_pdf(self, x):
        return 1.5 - 2 * x + 0.3 * x[:, ::-1]


def diff_model(d):
    c = d.pick([zoo.Coin, zoo.Precession, zoo.RB, zoo.NoisyCoin, zoo.Softmax, zoo.Softmax])
    fam = c(d)
    if c is zoo.RB or c is zoo.NoisyCoin:
        class M(qi.ScoreMixin, type(fam.model), qi.DifferentiableModel):
            _h = 1e-6
        fam.model = M(interleaved=fam.il) if c is zoo.RB else M()
    return fam


def fisher(fam, x, ep):
    p = len(x)
    F = np.zeros((p, p))
    for o in fam.outcomes(ep):
        l = fam.ref(o, x, ep)
        if l < 1e-3:
            return None
        g = ref_score(fam, o, x, ep)
        F += l * np.outer(g, g)
    return F


def average(fam, w, xs, ep):
    out = 0
    for a, x in zip(w, xs):
        F = fisher(fam, x, ep)
        if F is None:
            return None
        out = out + a * F
    return out


@sub('B09', 200, rule='at least two data, posterior away from the prior')
def accumulate(d, case):
    """The prior-averaged matrix grows by the mean Fisher information under the prior, the adaptive one by
    that under the current posterior, from the same start; updates are otherwise ordinary."""
    fam = diff_model(d)
    n = d.int(2, 6)
    xs, _ = safe(fam, d, n, 1)
    m = fam.model
    p = m.n_modelparams
    prior = GradPrior(np.asarray(xs, float).reshape(n, p))
    T = d.int(1, 4)
    adaptive = d.bool()
    kw = dict(resample_thresh=0.0)
    own = d.bool()
    if own:
        g = d.arr((p, p), -1, 1)
        B0 = g.dot(g.T)
        given = B0.copy()
        kw['initial_bim'] = given
    if adaptive or d.bool():
        kw['adaptive'] = adaptive
    up = qi.SMCUpdaterBCRB(m, n, prior, **kw)
    x = up.particle_locations.copy()
    if not own:
        G = prior.grad_log_pdf(x)
        B0 = G.T.dot(G) / n
    close(up.current_bim, B0, 'initial matrix', rtol=1e-9, atol=1e-12)
    req(up.track_adaptive == adaptive, 'adaptive tracking')
    if adaptive:
        close(up.adaptive_bim, B0, 'initial adaptive matrix', rtol=1e-9, atol=1e-12)
    else:
        raises(ValueError, lambda: up.adaptive_bim, 'no adaptive matrix unless asked for')
    _, eps = safe(fam, d, 1, T)
    outs = np.array([fam.draw_outcomes(d, e, 1)[0] for e in eps])
    w = np.ones(n) / n
    cur, ada = B0.copy(), B0.copy()
    for t in range(T):
        Fp = average(fam, np.ones(n) / n, x, eps[t])
        Fw = average(fam, w, x, eps[t])
        if Fp is None or Fw is None:
            return
        got = up.posterior_bayes_information(eps[t:t + 1])
        same_shape(got, (p, p, 1), 'posterior information')
        tol = dict(rtol=2e-3, atol=1e-4 * max(1e-3, np.abs(Fp).max(), np.abs(Fw).max()))
        close(got[:, :, 0], Fw, 'posterior Bayes information', **tol)
        close(up.prior_bayes_information(eps[t:t + 1])[:, :, 0], Fp, 'prior Bayes information', **tol)
        many = d.int(1, 3 * n)
        rows = prior.rows[(np.arange(many) + 7 * prior.calls) % n]
        Fm = average(fam, np.ones(many) / many, rows, eps[t])
        if Fm is not None:
            close(up.prior_bayes_information(eps[t:t + 1], n_samples=many)[:, :, 0], Fm,
                  'prior Bayes information from another number of samples', n_samples=many, rtol=2e-3,
                  atol=1e-4 * max(1e-3, np.abs(Fm).max()))
        w, _ = posterior(w, np.array([[fam.ref(outs[t], xx, eps[t]) for xx in x]]))
        up.update(int(outs[t]), eps[t:t + 1])
        cur, ada = cur + Fp, ada + Fw
        tol = dict(rtol=2e-3, atol=1e-4 * max(1e-3, np.abs(cur).max(), np.abs(ada).max()))
        close(up.current_bim, cur, 'accumulated matrix', step=t, **tol)
        if adaptive:
            close(up.adaptive_bim, ada, 'accumulated adaptive matrix', step=t, **tol)
        close(up.particle_weights, w, 'the update itself', rtol=1e-6, atol=1e-9)
    if own:
        req(np.array_equal(given, B0), 'the matrix given by the caller is not modified')
    snap = up.current_bim
    snap += 1
    close(up.current_bim, cur, 'the matrix handed out is a copy', **tol)
    case.hit(*(['adaptive'] if adaptive else []), when=T > 1 and np.abs(w - 1.0 / n).max() > 1e-3)


@sub('B09', 100, rule='always')
def options(d, case):
    """The bound-tracking updater honours the options of the ordinary one and refuses models without
    derivatives."""
    kind = d.int(0, 4)
    rows = d.arr((5, 1), 0.1, 0.9)
    prior = GradPrior(rows)
    m = qi.CoinModel()
    e = np.zeros(1, dtype=m.expparams_dtype)
    if kind == 0:
        raises(ValueError, lambda: qi.SMCUpdaterBCRB(zoo.TableModel(2, 0, 1), 5, prior), 'not differentiable')
    elif kind == 1:
        zero = GradPrior(np.zeros((5, 1)))
        for pol in ('skip', 'error'):
            up = qi.SMCUpdaterBCRB(m, 5, zero, zero_weight_policy=pol, initial_bim=np.eye(1))
            # every particle says outcome 0 is impossible
            try:
                up.update(0, e)
            except RuntimeError:
                req(pol == 'error', 'policy "skip" raised')
            else:
                req(pol == 'skip', 'policy "error" did not raise')
    elif kind == 2:
        th = d.fl(0.1, 0.9)
        up = qi.SMCUpdaterBCRB(model=m, n_particles=5, prior=prior, resample_thresh=th,
                               resampler=qi.LiuWestResampler(a=0.9))
        close(up.resample_thresh, th, 'threshold')
        close(up.resampler.a, 0.9, 'resampler')
    elif kind == 3:
        up = qi.SMCUpdaterBCRB(m, 5, prior, track_resampling_divergence=True)
        req(up.resampling_divergences == [], 'divergences are tracked when asked for')
    else:
        class C(qi.CoinModel):
            def canonicalize(self, x):
                return np.mod(x, 0.5)
        close(qi.SMCUpdaterBCRB(C(), 5, prior, canonicalize=False).particle_locations, rows, 'not canonicalised')
        close(qi.SMCUpdaterBCRB(C(), 5, GradPrior(rows)).particle_locations, np.mod(rows, 0.5), 'canonicalised')
    case.hit()


@sub('B09', 60, rule='a dense covariance')
def normal_start(d, case):
    """For a Gaussian prior the initial matrix estimates the inverse covariance."""
    k = d.int(1, 3)
    r = d.rng()
    g = r.randn(k, k)
    C = g.dot(g.T) + 0.3 * np.eye(k)
    mu = r.randn(k)
    prior = qi.MultivariateNormalDistribution(mu, C) if k > 1 else qi.NormalDistribution(mu[0], C[0, 0])
    x = r.randn(7, k)
    close(prior.grad_log_pdf(x), -(x - mu).dot(np.linalg.inv(C)), 'gradient of the log density', rtol=1e-8, atol=1e-9)

    class M(qi.ScoreMixin, zoo.TableModel, qi.DifferentiableModel):
        pass
    d.np_seed()
    n = 4000
    up = qi.SMCUpdaterBCRB(M(2, 0, k), n, prior)
    want = np.linalg.inv(C)
    L = np.linalg.cholesky(C)
    Z = L.T.dot(up.current_bim).dot(L)
    close(Z, np.eye(k), 'initial matrix', rtol=0, atol=9 * np.sqrt(2.0 / n))
    case.hit(when=k > 1)


@sub('B09', 80, rule='a resampling')
def as_ordinary(d, case):
    """Through any history the bound-tracking updater is the ordinary updater."""
    fam = d.pick([zoo.Coin, zoo.Softmax, zoo.Precession])(d)
    m = fam.model
    n = d.pick([4, 12, 30, 1200])
    xs, _ = safe(fam, d, n, 1) if n < 100 else (d.rng().uniform(0.05, 0.95, size=(n, m.n_modelparams)), None)
    rows = np.asarray(xs, float).reshape(n, m.n_modelparams)
    kw = dict(resample_thresh=d.pick([0.3, 0.8, 1.0]), resampler=qi.LiuWestResampler(a=d.pick([0.9, 0.98])),
              zero_weight_policy='skip')
    adaptive = d.bool()
    ordinary = qi.SMCUpdater(m, n, zoo.FixedPrior(rows), **kw)
    up = qi.SMCUpdaterBCRB(m, n, GradPrior(rows), adaptive=adaptive, **kw)
    T = d.int(1, 5)
    _, eps = safe(fam, d, 1, T)
    outs = np.array([fam.draw_outcomes(d, e, 1)[0] for e in eps])
    seed = d.seed()
    want = up.current_bim
    ops = []
    for t in range(T):
        op = d.pick(['update', 'unchecked', 'batch', 'resample'])
        ops.append(op)
        k = d.int(1, 3)
        for v in (ordinary, up):
            np.random.seed((seed + t) % 2 ** 32)
            if op == 'update':
                v.update(outs[t], eps[t:t + 1])
            elif op == 'unchecked':
                v.update(outs[t], eps[t:t + 1], check_for_resample=False)
            elif op == 'batch':
                v.batch_update(outs[t:], eps[t:], resample_interval=k)
            else:
                v.resample()
        if op != 'resample':
            for e in range(t, T if op == 'batch' else t + 1):
                want = want + m.fisher_information(rows, eps[e:e + 1])[:, :, :, 0].mean(axis=2)
        info = dict(op=op, n=n, k=k)
        req(up.resample_count == ordinary.resample_count, 'resamplings', got=up.resample_count,
            want=ordinary.resample_count, **info)
        req(np.array_equal(up.particle_locations, ordinary.particle_locations)
            and np.array_equal(up.particle_weights, ordinary.particle_weights), 'particles', **info)
        req([int(o) for o in up.data_record] == [int(o) for o in ordinary.data_record], 'data', **info)
        req(len(up.normalization_record) == len(ordinary.normalization_record) and up.min_n_ess == ordinary.min_n_ess
            and up.just_resampled == ordinary.just_resampled, 'records', **info)
        if np.all(np.isfinite(want)):
            close(up.current_bim, want, 'information of the experiments performed', rtol=1e-6, atol=1e-9 * (1 + np.abs(want).max()), **info)
    case.hit(*sorted(set(ops)), when=up.resample_count > ops.count('resample'))


@sub('B09', 30, rule='more than two thousand particles or fifty data')
def large(d, case):
    """The matrices are averages over all particles, however many there are, and sums over all data."""
    n, T = d.pick([(2500, 3), (6000, 2), (5, 60), (20, 120)])
    m = qi.CoinModel()
    x = d.rng().uniform(0.2, 0.8, size=(n, 1))
    prior = GradPrior(x)
    adaptive = d.bool()
    up = qi.SMCUpdaterBCRB(m, n, prior, resample_thresh=0, adaptive=adaptive, initial_bim=np.zeros((1, 1)))
    w = np.ones(n) / n
    cur = ada = 0.0
    ep = np.zeros(1, dtype=m.expparams_dtype)
    F = (1 / (x * (1 - x)))[:, 0]
    for t in range(T):
        o = t % 2 if d.chance(9, 10) else 0
        cur, ada = cur + F.mean(), ada + w.dot(F)
        up.update(o, ep)
        w = w * (x[:, 0] if o == 0 else 1 - x[:, 0])
        w /= w.sum()
        close(up.current_bim, [[cur]], 'accumulated matrix', rtol=1e-6, datum=t)
        if adaptive:
            close(up.adaptive_bim, [[ada]], 'accumulated adaptive matrix', rtol=1e-6, datum=t)
    close(up.posterior_bayes_information(ep)[0, 0, 0], w.dot(F), 'posterior Bayes information', rtol=1e-6)
    close(up.prior_bayes_information(ep)[0, 0, 0], F.mean(), 'prior Bayes information', rtol=1e-6)
    case.hit(when=n > 2000 or T > 50)
