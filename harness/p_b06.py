"""B06: estimates, expectations and samples of a weighted particle cloud."""
import math

import numpy as np
import scipy.stats as st

from core import sub, req, close, same_shape, raises
import qinfer as qi
from qinfer import utils
import stats
import zoo

ASSUMPTIONS = ['statistical comparisons reject at a per-case probability below 1e-9 under the stated law']


def cloud(d, nmax=12, kmax=4, zeros=True):
    n, k = d.int(1, nmax), d.int(1, kmax)
    x = d.arr((n, k), -2, 2)
    if d.chance(1, 4):
        x = x * 10.0 ** d.arr((1, k), -3, 3) + 10 * d.arr((1, k), -2, 2)
    w = d.weights(n, zeros=zeros)
    return n, k, x, w


def holder(d, x, w):
    n, k = x.shape
    if d.bool():
        return qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    up = qi.SMCUpdater(zoo.TableModel(2, 0, k), n, zoo.FixedPrior(x), resample_thresh=0)
    up.particle_weights = w.copy()
    return up


def ref_moments(x, w):
    mu = np.array([math.fsum(wi * xi for wi, xi in zip(w, c)) for c in x.T])
    c = x - mu
    cov = np.array([[math.fsum(w * c[:, i] * c[:, j]) for j in range(x.shape[1])] for i in range(x.shape[1])])
    return mu, cov


@sub('B06', 80, rule='light particles make up most of the entropy')
def light_particles(d, case):
    """However light, and however many, particles count by their weight in entropy, mean and sample size."""
    n = d.pick([2, 3, 10, 400, 5000])
    q = 10.0 ** -d.int(2, 17) / n
    x = d.rng().uniform(-1, 1, size=(n, 2))
    w = np.full(n, q) * d.rng().uniform(0.5, 1.5, size=n)
    i = d.int(0, n - 1)
    w[i] = 0
    w[i] = 1 - math.fsum(w)
    p = holder(d, x, w)
    w = p.particle_weights
    want = -math.fsum(a * math.log(a) for a in w)
    close(p.est_entropy(), want, 'entropy of one heavy and many light particles', rtol=1e-6, atol=4e-16, light=q, n=n)
    x[:, 1] = 1 / (n * q)
    x[i, 1] = 0
    p.particle_locations = x
    close(p.est_mean()[1], math.fsum(w * x[:, 1]), 'mean with far light particles', rtol=1e-9)
    close(p.est_meanfn(lambda y: y[:, 1:] ** 2)[0], math.fsum(w * x[:, 1] ** 2), 'expectation with far light particles', rtol=1e-9)
    case.hit(when=n * q < 0.1)


@sub('B06', 400, rule='two particles of different weight')
def moments(d, case):
    """Mean, covariance, correlation and expectations are the weighted sums over particles."""
    n, k, x, w = cloud(d)
    p = holder(d, x, w)
    x0, w0 = p.particle_locations.copy(), p.particle_weights.copy()
    mu, cov = ref_moments(x, w)
    big = np.abs(x).max() + 1e-3
    close(p.est_mean(), mu, 'mean', rtol=1e-9, atol=1e-12 * big)
    got = p.est_covariance_mtx()
    same_shape(got, (k, k), 'covariance')
    close(got, cov, 'covariance', rtol=1e-8, atol=1e-12 * big ** 2)
    close(utils.particle_covariance_mtx(w, x), cov, 'covariance (utility)', rtol=1e-8, atol=1e-12 * big ** 2)
    close(utils.particle_meanfn(w, x), mu, 'mean (utility)', rtol=1e-9, atol=1e-12 * big)
    sd = np.sqrt(np.diag(cov))
    if np.all(sd > 1e-4 * big):
        close(p.est_covariance_mtx(corr=True), cov / np.outer(sd, sd), 'correlation', rtol=1e-5, atol=1e-6)
    f = lambda y: np.stack([np.cos(y[:, 0]), y.sum(axis=1) ** 2, np.ones(len(y))], axis=1)
    want = w.dot(f(x))
    close(p.est_meanfn(f), want, 'expectation of a function', rtol=1e-8, atol=1e-10 * big ** 2)
    close(utils.particle_meanfn(w, x, f), want, 'expectation (utility)', rtol=1e-8, atol=1e-10 * big ** 2)
    g = lambda y: np.stack([y[:, :1] * y, np.ones_like(y)], axis=1) * np.array([2.0, 1.0])[:, None]
    want = np.array([[math.fsum(w * v) for v in c.T] for c in np.moveaxis(g(x), 1, 0)])
    got = p.est_meanfn(g)
    same_shape(got, want.shape, 'expectation of a matrix')
    close(got, want, 'expectation of a matrix', rtol=1e-8, atol=1e-10 * big ** 2)
    close(p.est_meanfn(lambda y: y[:, 0]), mu[0], 'expectation of a number', rtol=1e-8, atol=1e-10 * big)
    close(p.est_entropy(), -math.fsum(a * math.log(a) for a in w if a > 0), 'entropy', rtol=1e-9, atol=1e-10)
    close(p.n_ess, 1 / math.fsum(w ** 2), 'effective sample size', rtol=1e-9)
    req(p.n_particles == n and p.n_rvs == k, 'sizes')
    req(np.array_equal(p.particle_locations, x0) and np.array_equal(p.particle_weights, w0), 'queries change nothing')
    case.hit(when=n > 1 and np.ptp(w) > 1e-6)


@sub('B06', 150, rule='at least two particles')
def transforms(d, case):
    """Estimates follow affine maps, reordering, splitting and dropping of particles."""
    n, k, x, w = cloud(d)
    p = qi.ParticleDistribution(particle_locations=x, particle_weights=w)
    A, b = d.arr((k, k), -1, 1), d.arr(k, -2, 2)
    q = qi.ParticleDistribution(particle_locations=x.dot(A.T) + b, particle_weights=w)
    big = (np.abs(x).max() + 3) * k
    close(q.est_mean(), A.dot(p.est_mean()) + b, 'mean of an affine image', rtol=1e-8, atol=1e-11 * big)
    close(q.est_covariance_mtx(), A.dot(p.est_covariance_mtx()).dot(A.T), 'covariance of an affine image', rtol=1e-7,
          atol=1e-11 * big ** 2)
    perm = d.rng().permutation(n)
    split = np.concatenate([perm, perm[:1]])
    ww = w[split].copy()
    ww[0] *= 0.25
    ww[-1] *= 0.75
    r = qi.ParticleDistribution(particle_locations=x[split], particle_weights=ww)
    close(r.est_mean(), p.est_mean(), 'mean after reordering and splitting', rtol=1e-8, atol=1e-11 * big)
    close(r.est_covariance_mtx(), p.est_covariance_mtx(), 'covariance after reordering and splitting', rtol=1e-7,
          atol=1e-11 * big ** 2)
    if (w > 0).sum() < n:
        s = qi.ParticleDistribution(particle_locations=x[w > 0], particle_weights=w[w > 0])
        close(s.est_mean(), p.est_mean(), 'mean without weightless particles', rtol=1e-8, atol=1e-11 * big)
        close(s.est_entropy(), p.est_entropy(), 'entropy without weightless particles', rtol=1e-8, atol=1e-10)
    case.hit(when=n > 1)


@sub('B06', 200, rule='two particles of positive, different weight')
def sampling(d, case):
    """Samples are particles, drawn independently with frequency equal to their weights."""
    n, k, x, w = cloud(d, nmax=8)
    x[:, 0] = x[:, 0] + 100.0 * np.arange(n)
    p = holder(d, x, w)
    d.np_seed()
    N = 3000
    s = p.sample(n=N)
    same_shape(s, (N, k), 'samples')
    idx = np.array([int(np.argmin(np.abs(x[:, 0] - v))) for v in s[:, 0]])
    req(np.array_equal(s, x[idx]), 'samples are particles')
    stats.freq(np.bincount(idx, minlength=n), w, 'frequencies are weights')
    stats.uncorrelated(idx[:, None], 'samples')
    pair = np.zeros((n, n), dtype=int)
    size = d.int(2, 4)
    for _ in range(300):
        s = p.sample(size)
        i, j = [int(np.argmin(np.abs(x[:, 0] - v))) for v in s[[0, -1], 0]]
        pair[i, j] += 1
    stats.jointly(pair, w, 'samples')
    same_shape(p.sample(), (1, k), 'one sample by default')
    m = d.int(1, 5)
    same_shape(p.sample(m), (m, k), 'samples')
    case.hit(when=np.sum(w > 0.01) > 1 and np.ptp(w) > 1e-6)


@sub('B06', 80, rule='weights that needed normalising')
def construct(d, case):
    """Weights given to a particle distribution are made non-negative and normalised; missing or
    contradictory arguments are refused."""
    n, k, x, w = cloud(d)
    c = d.logfl(1e-3, 1e3)
    sgn = np.where(d.ints(n, 0, 1) == 1, 1.0, -1.0)
    p = qi.ParticleDistribution(particle_locations=x, particle_weights=c * w * sgn)
    close(p.particle_weights, w, 'normalised weights', rtol=1e-9)
    q = qi.ParticleDistribution(n_mps=k)
    req(q.n_particles == 1 and q.n_rvs == k, 'a single particle at the origin')
    close(q.particle_locations, np.zeros((1, k)), 'at the origin')
    raises((ValueError, TypeError), lambda: qi.ParticleDistribution(n_mps=k, particle_locations=x, particle_weights=w),
           'both ways of construction')
    case.hit(when=abs(c - 1) > 1e-3 or (sgn < 0).any())


@sub('B06', 120, rule='two particles each')
def divergence(d, case):
    """The divergence estimate of two clouds does not depend on how their particles are listed, and
    its distances are the scale-weighted Euclidean ones."""
    k = d.int(1, 3)
    n, m = d.int(1, 7), d.int(1, 7)
    Q = d.arr(k, 0.2, 3)
    model = zoo.TableModel(2, 0, k, Q=Q)
    x, y = d.arr((n, k), 0, 0.05), d.arr((m, k), 0, 0.05)
    wx, wy = d.weights(n, zeros=False), d.weights(m, zeros=False)

    def mk(x, w):
        u = qi.SMCUpdater(model, len(x), zoo.FixedPrior(x), resample_thresh=0)
        u.particle_weights = w.copy()
        return u
    D = qi.metrics.rescaled_distance_mtx(mk(x, wx), mk(y, wy))
    want = np.sqrt((((x[:, None, :] - y[None]) ** 2) * Q).sum(axis=2))
    close(D, want, 'scaled distances', rtol=1e-9, atol=1e-13)
    close(qi.metrics.rescaled_distance_mtx(mk(x, wx), y), want, 'scaled distances to locations', rtol=1e-9, atol=1e-13)
    plain = np.sqrt(((x[:, None, :] - y[None]) ** 2).sum(axis=2))
    pd = lambda z, w: qi.ParticleDistribution(particle_locations=z.copy(), particle_weights=w.copy())
    for a, b in [(x, y), (pd(x, wx), y), (pd(x, wx), pd(y, wy)), (x, pd(y, wy)), (x, mk(y, wy))]:
        close(qi.metrics.rescaled_distance_mtx(a, b), plain, 'plain distances', rtol=1e-9, atol=1e-13)
    kl = mk(x, wx).est_kl_divergence(mk(y, wy))
    a, b = d.rng().permutation(n), d.rng().permutation(m)
    kl2 = mk(x[a], wx[a]).est_kl_divergence(mk(y[b], wy[b]))
    close(kl2, kl, 'divergence after reordering', rtol=1e-8, atol=1e-8)
    far = d.arr((1, k), -5, 5)
    kl2 = mk(x, wx).est_kl_divergence(mk(np.concatenate([y, y[:1], far]), np.concatenate([wy[:1] / 4, wy[1:], 3 * wy[:1] / 4, [0.0]])))
    close(kl2, kl, 'divergence after splitting and padding the other cloud', rtol=1e-8, atol=1e-8)
    kl2 = mk(np.concatenate([x, far]), np.concatenate([wx, [0.0]])).est_kl_divergence(mk(y, wy), delta=2.0)
    close(kl2, mk(x, wx).est_kl_divergence(mk(y, wy), delta=2.0), 'divergence after padding the cloud itself', rtol=1e-8, atol=1e-8)
    delta = d.logfl(0.02, 20)
    K = st.norm.pdf(want / delta)
    close(mk(x, wx).est_kl_divergence(mk(y, wy), delta=delta),
          wx.dot(np.log(wx)) - wx.dot(np.log(K.dot(wy))) / delta, 'divergence with the width given', rtol=1e-7, atol=1e-7, delta=delta)
    calls = []

    def kernel(z):
        calls.append(1)
        return st.norm.pdf(z)
    close(mk(x, wx).est_kl_divergence(mk(y, wy), kernel=kernel, delta=1e-2), kl, 'divergence with the default kernel and width', rtol=1e-9, atol=1e-9)
    req(len(calls) > 0, 'the kernel given is used')
    t = 0.3
    kl3 = mk(x + t, wx).est_kl_divergence(mk(y + t, wy))
    close(kl3, kl, 'divergence after translation', rtol=1e-6, atol=1e-6)
    case.hit(when=n > 1 and m > 1)


@sub('B06', 40, rule='more than two thousand particles')
def large(d, case):
    """Estimates and samples take in all of thousands of particles."""
    n = d.pick([300, 2500, 5000, 30000])
    k = d.int(1, 3)
    x = d.rng().uniform(-1, 1, size=(n, k))
    w = d.rng().exponential(size=n)
    if d.chance(1, 3):
        w[:n // 2] *= 1e-3
    w /= w.sum()
    p = holder(d, x, w)
    mu, cov = ref_moments(x, w)
    close(p.est_mean(), mu, 'mean', rtol=1e-9, atol=1e-12, n=n)
    close(p.est_covariance_mtx(), cov, 'covariance', rtol=1e-8, atol=1e-11, n=n)
    close(p.est_meanfn(lambda y: np.cos(y)), w.dot(np.cos(x)), 'expectation of a function', rtol=1e-9, atol=1e-12, n=n)
    close(p.n_ess, 1 / math.fsum(w * w), 'effective sample size', rtol=1e-9, n=n)
    close(p.est_entropy(), -math.fsum(w * np.log(w)), 'entropy', rtol=1e-9, n=n)
    d.np_seed()
    m = d.pick([100, 4000, 40000])
    y = p.sample(m)
    same_shape(y, (m, k), 'samples')
    s = np.argsort(x[:, 0])
    j = s[np.minimum(np.searchsorted(x[s, 0], y[:, 0]), n - 1)]
    req(x[j] == y, 'samples are particles')
    c = np.cumsum(w)
    pb = np.bincount(np.minimum((c - w / 2) * 10, 9).astype(int), weights=w, minlength=10)
    stats.freq(np.bincount(np.minimum((c[j] - w[j] / 2) * 10, 9).astype(int), minlength=10), pb / pb.sum(),
               'every stretch of the list is drawn by its weight', n=n, samples=m)
    case.hit(when=n > 2000)


@sub('B06', 80, rule='the particles or weights changed')
def changing_cloud(d, case):
    """Estimates are those of the present particles and weights, whichever way these changed since the last question."""
    def make(x, w):
        return qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    p, change, fresh, moved = zoo.changed_cloud(d, make if d.bool() else zoo.table_updater)

    def ask(q):
        return [q.est_mean(), q.est_covariance_mtx(), q.est_meanfn(lambda y: y ** 2), q.n_ess, q.est_entropy()]
    for q in (p, fresh):
        ask(q)
        if q is p:
            change()
    for a, b, what in zip(ask(p), ask(fresh), ('mean', 'covariance', 'expectation', 'effective sample size', 'entropy')):
        close(a, b, what + ' after the cloud changed', rtol=1e-12)
    case.hit(when=moved)
