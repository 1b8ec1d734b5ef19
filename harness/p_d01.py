"""D01: elementary priors follow the law they name."""
import math

import numpy as np
import scipy.stats as ss
from scipy.special import betaln, gammaln

from core import sub, req, close, same_shape, raises
import qinfer as qi
import stats

ASSUMPTIONS = ['statistical comparisons reject at a per-case probability below 1e-9 under the stated law',
               'LogNormalDistribution(mu, sigma) is mu + sigma exp(Z), as its scipy location and scale and the '
               'existing tests have it']
N = 1500


def take(d, dist, k, n=N, case=None, fine=True):
    """Samples with all the generic obligations of a distribution checked."""
    req(dist.n_rvs == k, 'number of random variables', got=dist.n_rvs, expected=k)
    one = dist.sample()
    same_shape(one, (1, k), 'one sample')
    s = d.seed()
    few = d.int(1, 5)
    np.random.seed(s)
    a = np.array(dist.sample(n=few))
    same_shape(a, (few, k), 'a few samples')
    np.random.seed(s)
    req(np.array_equal(a, dist.sample(few)), 'samples are a function of the global random state')
    np.random.seed(s ^ 5)
    x = dist.sample(n)
    same_shape(x, (n, k), 'samples')
    req(np.isfinite(x), 'samples are finite')
    stats.serial(np.asarray(x, dtype=float), 'samples')
    distinct = len(np.unique(np.asarray(x)[:, 0]))
    if fine and distinct > n / 2 and d.chance(1, 6):
        # a continuous law, up to the few values that round to the ends of its support
        many = np.asarray(dist.sample(30000))
        req(len(np.unique(many[:, 0])) >= 30000 - 40, 'samples of a continuous law repeat', distinct=len(np.unique(many[:, 0])))
    if distinct > n / 2:
        stats.two_at_a_time(dist.sample, 'samples', calls=100, n=d.int(2, 3))
    return np.asarray(x)


def ranges(d, k):
    lo = d.arr(k, -5, 5)
    w = d.arr(k, 0, 4)
    if d.chance(1, 6):
        w = -w       # given the wrong way around
    return np.stack([lo, lo + w], axis=1)


@sub('D01', 120, rule='more than one variable of positive width')
def uniform(d, case):
    """Uniform over the rectangle, in every accepted form of its ranges."""
    k = d.int(1, 4)
    r = ranges(d, k)
    form = r if d.bool() else r.tolist()
    if k == 1 and d.bool():
        form = form[0]
    r0 = np.array(form, copy=True)
    dist = qi.UniformDistribution(form)
    x = take(d, dist, k)
    req(np.array_equal(r0, np.array(form)), 'the ranges are left alone')
    lo, hi = r.min(axis=1), r.max(axis=1)
    req((x >= lo - 1e-12) & (x <= hi + 1e-12), 'samples in range', lo=lo, hi=hi)
    for i in range(k):
        if hi[i] - lo[i] > 1e-6:
            stats.ks(x[:, i], lambda t: (t - lo[i]) / (hi[i] - lo[i]), 'uniform', ranges=r)
    stats.uncorrelated(x, 'uniform', ranges=r)
    if d.chance(1, 5):
        y = qi.UniformDistribution().sample(500)
        stats.ks(y, lambda t: np.clip(t, 0, 1), 'the default is the unit interval')
    case.hit(when=k > 1 and np.sum(hi - lo > 1e-6) > 1)


@sub('D01', 60, rule='more than one variable')
def slanted(d, case):
    """Uniform plus normal noise of the stated width."""
    k = d.int(1, 3)
    r = ranges(d, k)
    r = np.sort(r, axis=1)
    r[:, 1] += 0.1
    kw = {} if d.chance(1, 4) else dict(weight=d.logfl(1e-3, 3))
    w = kw.get('weight', 0.01)
    x = take(d, qi.SlantedNormalDistribution(r if d.bool() else r.tolist(), **kw), k)
    for i in range(k):
        a, b = r[i]

        def H(z):     # integral of the normal cdf
            return z * ss.norm.cdf(z) + ss.norm.pdf(z)
        stats.ks(x[:, i], lambda t: w * (H((t - a) / w) - H((t - b) / w)) / (b - a), 'uniform plus noise', ranges=r, weight=w)
    stats.uncorrelated(x, 'slanted', ranges=r)
    case.hit(when=k > 1)


@sub('D01', 60, rule='always')
def constant(d, case):
    """A constant distribution repeats its values and cannot be changed through its samples."""
    k, n = d.int(1, 4), d.int(1, 6)
    v = d.arr(k, -3, 3)
    v0 = v.copy()
    dist = qi.ConstantDistribution(v if d.bool() else v.tolist())
    req(dist.n_rvs == k, 'number of variables')
    x = dist.sample(n)
    close(x, np.tile(v0, (n, 1)), 'samples are the constant')
    x[:] = 99
    close(dist.sample(n), np.tile(v0, (n, 1)), 'samples stay the constant')
    case.hit()


@sub('D01', 120, rule='a truncated normal')
def normal(d, case):
    """Normal of the stated mean and variance, cut to the stated interval; its score."""
    mu, var = d.fl(-5, 5), d.logfl(1e-3, 50)
    s = math.sqrt(var)
    trunc = None
    if d.chance(2, 3):
        far = d.chance(1, 5)
        a = mu + s * (d.fl(5, 20) if far else d.fl(-3, 2))
        trunc = (a, a + s * d.fl(0.05, 4)) if d.chance(3, 4) else (a, np.inf)
        if far and d.bool():
            trunc = (2 * mu - trunc[1], 2 * mu - trunc[0])
    dist = qi.NormalDistribution(mu, var) if trunc is None else qi.NormalDistribution(mu, var, trunc=trunc)
    x = take(d, dist, 1)[:, 0]
    lo, hi = trunc or (-np.inf, np.inf)
    req((x >= lo - 1e-9 * (1 + s)) & (x <= hi + 1e-9 * (1 + s)), 'within the truncation', trunc=trunc)
    F = (lambda t: ss.norm.cdf((t - mu) / s)) if lo < mu else (lambda t: -ss.norm.sf((t - mu) / s))
    a, b = F(lo), F(hi)
    stats.ks(x, lambda t: (F(t) - a) / (b - a), 'truncated normal', mean=mu, var=var, trunc=trunc)
    stats.uncorrelated(x[:, None], 'normal')
    t = d.arr((3, 1), -9, 9)
    close(dist.grad_log_pdf(t), -(t - mu) / var, 'gradient of the log density', rtol=1e-9, atol=1e-12)
    case.hit(when=trunc is not None)


@sub('D01', 100, rule='a correlated law of at least two variables')
def multinormal(d, case):
    """Multivariate normal of the stated mean and covariance; its score."""
    k = d.int(1, 4)
    mu = d.arr(k, -3, 3)
    g = d.rng().randn(k, k) * d.logfl(0.1, 5)
    C = g.dot(g.T) + 0.05 * np.eye(k)
    dist = qi.MultivariateNormalDistribution(mu if d.bool() else mu[None, :], C)
    x = take(d, dist, k)
    # whitening along the eigenvectors and along random directions
    for v in list(np.linalg.eigh(C)[1].T) + [d.rng().randn(k)]:
        s = math.sqrt(v.dot(C).dot(v))
        stats.ks((x - mu).dot(v) / s, ss.norm.cdf, 'projection', mean=mu, cov=C)
    w = np.linalg.solve(np.linalg.cholesky(C), (x - mu).T).T
    stats.uncorrelated(w, 'whitened', cov=C)
    stats.ks((w ** 2).sum(axis=1), lambda t: ss.chi2.cdf(t, k), 'radius', cov=C)
    t = d.arr((4, k), -5, 5)
    close(dist.grad_log_pdf(t), -np.linalg.solve(C, (t - mu).T).T, 'gradient of the log density', rtol=1e-6, atol=1e-8)
    case.hit(when=k > 1)


@sub('D01', 60, rule='always')
def lognormal(d, case):
    """Log-normal of unit shape with the stated location and scale."""
    mu, s = d.fl(-3, 3), d.logfl(0.01, 10)
    if d.chance(1, 4):
        mu, s = 0.0, d.logfl(1e-8, 1e8)
    kw = d.pick([dict(mu=mu, sigma=s), dict(), dict(sigma=s), dict(mu=mu)])
    x = take(d, qi.LogNormalDistribution(**kw), 1)[:, 0]
    mu, s = kw.get('mu', 0), kw.get('sigma', 1)
    req(x >= mu, 'above the location')
    stats.ks(np.log(np.maximum(x - mu, 1e-300) / s), ss.norm.cdf, 'log-normal', mu=mu, sigma=s)
    case.hit()


@sub('D01', 120, rule='given by mean and variance')
def beta(d, case):
    """Beta law, given by shape or by mean and variance, which agree."""
    a, b = d.logfl(d.pick([0.3, 0.02]), 30), d.logfl(0.3, 30)
    m, v = a / (a + b), a * b / ((a + b) ** 2 * (a + b + 1))
    by = d.bool()
    dist = qi.BetaDistribution(mean=m, var=v) if by else qi.BetaDistribution(alpha=a, beta=b) if d.bool() else \
        qi.BetaDistribution(a, b)
    close([dist.alpha, dist.beta, dist.mean, dist.var], [a, b, m, v], 'parameters', rtol=1e-6)
    x = take(d, dist, 1)
    req((x >= 0) & (x <= 1), 'support')
    stats.ks(x, lambda t: ss.beta.cdf(t, a, b), 'beta', alpha=a, beta=b)
    kw = d.pick([dict(), dict(alpha=a), dict(beta=b), dict(mean=m), dict(var=v), dict(alpha=a, var=v), dict(mean=m, beta=b)])
    raises(ValueError, lambda: qi.BetaDistribution(**kw), 'accepted %r' % kw)
    case.hit(when=by)


@sub('D01', 120, rule='given by mean and variance')
def gamma(d, case):
    """Gamma law, given by shape and rate or by mean and variance, which agree."""
    a, b = d.logfl(0.3, 300), d.logfl(1e-4, 1e4)
    m, v = a / b, a / b ** 2
    if d.chance(1, 5):     # whole numbers
        m, v = d.int(1, 60), d.int(1, 60)
        a, b = m ** 2 / float(v), m / float(v)
        if a < 0.3:
            m, v = v, m
            a, b = m ** 2 / float(v), m / float(v)
    by = d.bool()
    dist = qi.GammaDistribution(mean=m, var=v) if by else qi.GammaDistribution(alpha=a, beta=b)
    close([dist.alpha, dist.beta, dist.mean, dist.var], [a, b, m, v], 'parameters', rtol=1e-6)
    x = take(d, dist, 1)
    stats.ks(x, lambda t: ss.gamma.cdf(t * b, a), 'gamma', alpha=a, beta=b)
    kw = d.pick([dict(), dict(alpha=a), dict(beta=b), dict(mean=m), dict(var=v), dict(alpha=a, var=v), dict(mean=m, beta=b)])
    raises(ValueError, lambda: qi.GammaDistribution(**kw), 'accepted %r' % kw)
    case.hit(when=by)


@sub('D01', 120, rule='given by mean and variance')
def betabinomial(d, case):
    """Beta-binomial law, given by shape or by mean and variance, which agree."""
    n = d.int(2, 40) if d.chance(4, 5) else d.pick([300, 2000, 20000])
    a, b = d.logfl(0.3, 20), d.logfl(0.3, 20)
    m = n * a / (a + b)
    v = n * a * b * (a + b + n) / ((a + b) ** 2 * (a + b + 1))
    by = d.bool()
    dist = qi.BetaBinomialDistribution(n, mean=m, var=v) if by else qi.BetaBinomialDistribution(n, alpha=a, beta=b)
    close([dist.alpha, dist.beta, dist.mean, dist.var], [a, b, m, v], 'parameters', rtol=1e-5)
    x = take(d, dist, 1, fine=False)
    req((x == np.rint(x)) & (x >= 0) & (x <= n), 'support', n=n)
    k = np.arange(n + 1)
    p = np.exp(gammaln(n + 1) - gammaln(k + 1) - gammaln(n - k + 1) + betaln(k + a, n - k + b) - betaln(a, b))
    obs = np.bincount(x.astype(int).reshape(-1), minlength=n + 1)
    if n > 40:
        group = np.minimum(20 * np.cumsum(p) / p.sum(), 19).astype(int)
        obs, p = np.bincount(group, weights=obs, minlength=20).astype(int), np.bincount(group, weights=p, minlength=20)
    stats.freq(obs, p / p.sum(), 'beta-binomial', n_trials=n, alpha=a, beta=b)
    kw = d.pick([dict(), dict(alpha=a), dict(beta=b), dict(mean=m), dict(var=v), dict(alpha=a, var=v)])
    raises(ValueError, lambda: qi.BetaBinomialDistribution(n, **kw), 'accepted %r' % kw)
    case.hit(when=by)


@sub('D01', 100, rule='at least three components')
def dirichlet(d, case):
    """Dirichlet samples are probability vectors with the stated concentrations."""
    k = d.int(2, 5)
    al = np.array([d.logfl(0.3, 20) for _ in range(k)])
    if d.chance(1, 4):
        dist, al = qi.MVUniformDistribution(dim=k), np.ones(k)
    else:
        dist = qi.DirichletDistribution(al if d.bool() else al.tolist())
        close(dist.alpha, al, 'alpha')
    x = take(d, dist, k)
    req(x >= 0, 'non-negative')
    close(x.sum(axis=1), np.ones(len(x)), 'samples sum to one', rtol=0, atol=1e-9)
    for i in range(k):
        stats.ks(x[:, i], lambda t: ss.beta.cdf(t, al[i], al.sum() - al[i]), 'marginal', alpha=al, index=i)
    i, j = 0, k - 1
    if k > 2:
        stats.ks(x[:, i] + x[:, j], lambda t: ss.beta.cdf(t, al[i] + al[j], al.sum() - al[i] - al[j]), 'pair', alpha=al)
    raises(ValueError, lambda: qi.DirichletDistribution(np.ones((2, 2))), 'two-dimensional alpha')
    case.hit(when=k > 2)


@sub('D01', 60, rule='more than one bit')
def discrete_uniform(d, case):
    """Uniform over 0 .. 2^bits - 1."""
    b = d.int(0, 7) if d.chance(2, 3) else d.int(8, 50)
    x = take(d, qi.DiscreteUniformDistribution(b), 1, fine=False)
    req((x == np.rint(x)) & (x >= 0) & (x < 2 ** b), 'support', bits=b)
    if b > 7:
        # the leading, the trailing and some middle bits
        x = x.astype('int64').reshape(-1)
        for shift in (b - 7, 0, d.int(0, b - 7)):
            stats.freq(np.bincount((x >> shift) & 127, minlength=128), np.ones(128) / 128, 'seven of the bits', bits=b, shift=shift)
        case.hit('many')
        return
    stats.freq(np.bincount(x.astype(int).reshape(-1), minlength=2 ** b), np.ones(2 ** b) / 2 ** b, 'uniform', bits=b)
    case.hit(when=b > 1)


@sub('D01', 60, rule='mixed states')
def bloch(d, case):
    """The (deprecated) Haar and Ginibre priors give Bloch vectors of states with the ensemble's law of purity."""
    k = d.int(1, 5)
    haar = d.chance(1, 3)
    hs = not haar and d.chance(1, 3)
    if haar:
        k, dist = 1, qi.HaarUniform()
    elif hs:
        k, dist = 2, qi.HilbertSchmidtUniform(dim=2)
    else:
        dist = qi.GinibreUniform(dim=2, k=k)
    n = 500
    x = take(d, dist, 3, n)
    r = np.sqrt((x ** 2).sum(axis=1))
    req(r <= 1 + 1e-9, 'Bloch vectors lie in the ball')
    if k == 1:
        close(r, np.ones(n), 'pure states', rtol=0, atol=1e-9)
        z = x
    else:
        # density of r: r^2 (1 - r^2)^(k - 2), so r^2 ~ Beta(3/2, k - 1)
        stats.ks(r ** 2, lambda t: ss.beta.cdf(t, 1.5, k - 1), 'length of the Bloch vector', k=k)
        z = x / r[:, None]
    for i in range(3):
        stats.ks(z[:, i], lambda t: (t + 1) / 2, 'directions are uniform', axis=i)
    stats.uncorrelated(z, 'directions')
    case.hit(when=k > 1)


@sub('D01', 20, rule='always')
def hilbert_schmidt_two_qubits(d, case):
    """The Hilbert-Schmidt prior of two qubits gives Pauli coefficients of states of the right mean purity."""
    dist = qi.HilbertSchmidtUniform(dim=4)
    req(dist.n_rvs == 15, 'number of variables')
    d.np_seed()
    n = 150
    x = dist.sample(n)
    same_shape(x, (n, 15), 'samples')
    s = [np.eye(2), np.diag([1, -1]), np.array([[0, -1j], [1j, 0]]), np.array([[0, 1], [1, 0]])]
    P = np.array([np.kron(s[i], s[j]) for i in range(4) for j in range(4)])[1:]
    rho = (np.eye(4) + np.einsum('ni,ijk->njk', x, P)) / 4
    req(np.linalg.eigvalsh(rho) > -1e-9, 'samples are states')
    pur = (1 + (x ** 2).sum(axis=1)) / 4
    # mean purity of the Hilbert-Schmidt measure: 2 D / (D^2 + 1)
    m = pur.mean()
    req(abs(m - 8 / 17) < 8 * pur.std() / math.sqrt(n) + 1e-9, 'mean purity', got=m, expected=8 / 17)
    case.hit()
