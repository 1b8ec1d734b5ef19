"""R01: Liu-West resampling."""
import math

import numpy as np

from core import sub, req, close, same_shape, raises, caught
import qinfer as qi
from qinfer import ResamplerWarning
import stats
import zoo

ASSUMPTIONS = ['statistical comparisons reject at a per-case probability below 1e-9 under the stated law']


class Region(zoo.TableModel):
    """Parameters are valid where the first one is at least `bar` (and others at least -1e6)."""
    bar = -1e9

    def are_models_valid(self, mps):
        return mps[:, 0] >= self.bar


class Anywhere(zoo.TableModel):
    def are_models_valid(self, mps):
        return np.ones(len(mps), dtype=bool)


def dist(x, w):
    return qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())


def moments(x, w):
    mu = w.dot(x)
    return mu, (x - mu).T.dot((x - mu) * w[:, None])


class Kernel(object):
    def __init__(self, rng, zero=False):
        self.rng, self.zero, self.log = rng, zero, []

    def __call__(self, *shape):
        z = np.zeros(shape) if self.zero else self.rng.randn(*shape)
        self.log.append(z.copy())
        return z


def psd_sqrt(C):
    v, U = np.linalg.eigh(C)
    return (U * np.sqrt(np.maximum(v, 0))).dot(U.T)


@sub('R01', 300, rule='several particles of different weight and a non-zero kernel')
def formula(d, case):
    """Every new particle is a drawn particle, contracted towards the mean, plus scaled kernel noise."""
    n, k = d.int(1, 8), d.int(1, 3)
    x = d.rng().uniform(-2, 2, size=(n, k))
    w = d.weights(n)
    p = dist(x, w)
    a = d.pick([1.0, 0.98, 0.9, 0.5, 0.0])
    h = d.pick([None, 0.0, 0.3])
    kern = Kernel(d.rng(), zero=d.chance(1, 3))
    m_new = d.int(1, 12)
    how = d.pick(['same', 'default', 'call', 'both'])
    r = qi.LiuWestResampler(a=a, h=h, kernel=kern, default_n_particles=m_new if how in ('default', 'both') else None)
    kw = {}
    n_new = {'same': n, 'default': m_new, 'call': m_new, 'both': m_new + 3}[how]
    if how in ('call', 'both'):
        kw['n_particles'] = n_new
    mu, C = moments(x, w)
    if d.chance(1, 3):
        mu = d.arr(k, -2, 2)
        kw['precomputed_mean'] = mu
    if d.chance(1, 3):
        g = d.arr((k, k), -1, 1)
        C = g.dot(g.T) + 0.1 * np.eye(k) if d.chance(5, 6) else np.zeros((k, k))
        kw['precomputed_cov'] = C.copy()
    zero = np.linalg.norm(C) == 0
    heff = math.sqrt(1 - a * a) if h is None else h
    d.np_seed()
    model = Region(2, 0, k)
    with caught() as ws:
        q = r(model, p, **kw)
    req(isinstance(q, qi.ParticleDistribution), 'a particle distribution is returned')
    same_shape(q.particle_locations, (n_new, k), 'new locations')
    close(q.particle_weights, np.ones(n_new) / n_new, 'equal weights')
    req(len(kern.log) == 1 and kern.log[0].shape == (k, n_new), 'one noise vector per new particle')
    if np.linalg.norm(C) < 1e-12 and not zero:
        return
    S = 0 if zero else psd_sqrt(C)
    noise = heff * np.dot(S, kern.log[0]).T if not zero else np.zeros((n_new, k))
    cand = a * x + (1 - a) * mu
    resid = q.particle_locations - noise
    dd = np.abs(resid[:, None, :] - cand[None]).max(axis=2)
    tol = 1e-3 if zero else 1e-6
    if not zero and np.linalg.eigvalsh(C)[0] < 1e-7 * max(np.linalg.norm(C), 1e-3):
        tol = 2e-4       # the root of a nearly singular covariance is not accurate to rounding
    req(dd.min(axis=1) < tol, 'new particles are contracted particles plus noise', residual=dd.min(axis=1), a=a, h=h)
    if a > 0:
        js = dd.argmin(axis=1)
        amb = (dd < 10 * tol).sum(axis=1) > 1
        req((w[js] > 0) | amb, 'weightless particles are never drawn')
    zero_warned = any('zero norm' in str(v.message) for v in ws)
    req(zero_warned == zero, 'a zero covariance is warned about, and only that')
    req(np.array_equal(p.particle_locations, x) and np.array_equal(p.particle_weights, w / w.sum()),
        'the given distribution is unchanged')
    case.hit(when=n > 1 and np.ptp(w) > 1e-6 and not kern.zero and heff > 0)


@sub('R01', 150, rule='a scale below 1e-4 or above 1e4')
def scale(d, case):
    """Resampling commutes with a change of units: a cloud of any width is resampled like its enlarged picture."""
    n, k = d.int(2, 8), d.int(1, 3)
    x = d.rng().uniform(-2, 2, size=(n, k))
    w = d.weights(n)
    if np.linalg.norm(moments(x, w)[1]) < 1e-3:
        return
    a, h = d.pick([0.98, 0.9, 0.5, 0.0]), d.pick([None, None, 0.3])
    z = d.rng().randn(k, 60)
    n_new = d.pick([None, 5, 40])
    e = d.int(-40, 40) if d.bool() else d.int(-60, 60)
    seed, out = d.seed(), []
    for f in (1.0, 2.0 ** e):
        r = qi.LiuWestResampler(a=a, h=h, kernel=lambda *shape: np.resize(z, shape))
        np.random.seed(seed)
        with caught() as ws:
            q = r(Anywhere(2, 0, k), dist(x * f, w), n_particles=n_new)
        req(not any(issubclass(v.category, ResamplerWarning) for v in ws), 'a resampling of a cloud with spread warns', warnings=[str(v.message) for v in ws], factor=f)
        out.append(q.particle_locations / f)
    close(out[1], out[0], 'resampling a cloud in other units', rtol=0, atol=2e-4, factor=2.0 ** e, a=a, h=h)
    case.hit(when=abs(e) > 13)


@sub('R01', 120, rule='two particles of sizeable, different weight')
def frequencies(d, case):
    """Particles are drawn independently with probability equal to their weight."""
    n = d.int(1, 8)
    x = np.arange(n, dtype=float)[:, None] * 10
    w = d.weights(n)
    d.np_seed()
    q = qi.LiuWestResampler(a=1.0)(Region(2, 0, 1), dist(x, w), n_particles=3000)
    idx = np.rint(q.particle_locations[:, 0] / 10).astype(int)
    close(q.particle_locations[:, 0], idx * 10.0, 'particles are copies when a is one', rtol=0, atol=1e-3)
    stats.freq(np.bincount(idx, minlength=n), w, 'frequencies are weights')
    stats.uncorrelated(idx[:, None], 'draws')
    stats.serial(idx[:, None], 'draws')
    case.hit(when=np.sum(w > 0.02) > 1 and np.ptp(w) > 1e-3)


@sub('R01', 150, rule='a dense covariance or unequal weights')
def preserves_moments(d, case):
    """With the default width, mean and covariance are preserved in expectation."""
    k = d.int(1, 3)
    n = d.int(20, 60)
    g = d.rng().randn(k, k)
    x = d.rng().uniform(-1, 1, size=(n, k)).dot(g) + d.arr(k, -3, 3)
    w = d.rng().dirichlet(np.ones(n))
    mu, C = moments(x, w)
    if np.linalg.eigvalsh(C)[0] < 1e-6:
        return
    a = d.pick([0.98, 0.9, 0.6, 0.2])
    N = 4000
    d.np_seed()
    q = qi.LiuWestResampler(a=a)(Region(2, 0, k), dist(x, w), n_particles=N)
    y = q.particle_locations
    L = np.linalg.cholesky(C)
    z = np.linalg.solve(L, (y - mu).T).T
    stats.mean(z, 0.0, 1.0, 'the mean is preserved', a=a)
    # fourth moments of the standardised new particles
    sq = z[:, :, None] * z[:, None, :]
    m2 = sq.mean(axis=0)
    se = sq.reshape(N, -1).std(axis=0).reshape(k, k) / math.sqrt(N)
    req(np.abs(m2 - np.eye(k)) < 8 * se + 1e-9, 'the covariance is preserved', got=m2, standard_error=se, a=a)
    stats.uncorrelated(z[:, :1], 'new particles')
    stats.serial(z, 'new particles')
    case.hit(when=True)


@sub('R01', 150, rule='some redraws were needed')
def postselection(d, case):
    """Invalid proposals are redrawn around the same particle until valid: results are valid, and no
    mass moves between well-separated groups."""
    model = Region(2, 0, 1)
    model.bar = 0.0
    w0 = d.fl(0.1, 0.9)
    far = d.fl(5, 20)
    x = np.array([[0.0], [far]])
    p = dist(x, np.array([w0, 1 - w0]))
    N = 2500
    s = math.sqrt(w0 * (1 - w0)) * far
    h = 0.2 / s
    kern = Kernel(d.rng())
    d.np_seed()
    with caught() as ws:
        q = qi.LiuWestResampler(a=1.0, h=h, kernel=kern)(model, p, n_particles=N)
    y = q.particle_locations[:, 0]
    req(np.all(y >= 0), 'all particles are valid')
    req(not [v for v in ws if 'failed to find valid' in str(v.message)], 'no warning when all are valid')
    near = y < far / 2
    stats.freq(np.array([near.sum(), N - near.sum()]), [w0, 1 - w0], 'mass of two separate groups after redrawing')
    # the near group is a half-normal of width 0.2
    if near.sum() > 50:
        from scipy.stats import halfnorm
        stats.ks(y[near], lambda t: halfnorm.cdf(t, scale=0.2), 'redrawn particles follow the kernel cut at the boundary')
    case.hit(when=len(kern.log) > 1)


class Shy(object):
    """Noise that is absurdly large in the first rounds (for all or some proposals), then zero."""

    def __init__(self, rng, rounds, share):
        self.rng, self.rounds, self.share, self.calls = rng, rounds, share, 0

    def __call__(self, *shape):
        self.calls += 1
        if self.calls > self.rounds:
            return np.zeros(shape)
        return np.zeros(shape) - 1e9 * (self.rng.uniform(size=(1, shape[1])) < self.share)


class Box(zoo.TableModel):
    def are_models_valid(self, mps):
        return np.all(np.abs(mps) < 1e4, axis=1)


@sub('R01', 100, rule='unequal weights and a rejected first round')
def rejections(d, case):
    """Rounds in which all or some proposals are invalid do not change which particles are copied."""
    n, k = d.int(2, 6), d.int(1, 2)
    x = np.zeros((n, k)) + (np.arange(n) ** 1.3)[:, None]
    x[:, 1:] = d.arr((n, k - 1), -2, 2)
    w = d.weights(n)
    a = d.pick([1.0, 0.9])
    share, rounds, m = d.pick([1.0, 1.0, 0.7, 0.3]), d.int(0, 4), d.pick([1, 2, 3, 20])
    reps = 600 // m
    rng = d.rng()
    mu, C = moments(x, w)
    if np.linalg.norm(C) < 1e-6:
        return
    cand = a * x + (1 - a) * mu
    d.np_seed()
    js = []
    for _ in range(reps):
        q = qi.LiuWestResampler(a=a, h=1.0, kernel=Shy(rng, rounds, share))(Box(2, 0, k), dist(x, w), n_particles=m)
        dd = np.abs(q.particle_locations[:, None] - cand[None]).max(axis=2)
        req(dd.min(axis=1) < 1e-6, 'contracted particles', got=q.particle_locations)
        js.extend(dd.argmin(axis=1))
    stats.freq(np.bincount(js, minlength=n), w, 'frequencies are weights whatever was rejected', rounds=rounds, share=share)
    case.hit(when=rounds > 0 and np.ptp(w) > 0.05)


@sub('R01', 80, rule='always')
def giving_up(d, case):
    """Without postselection proposals stay as drawn; with it, at most maxiter rounds are made, and
    remaining invalid particles are warned about."""
    n = d.int(2, 10)
    x = d.rng().uniform(-1, 1, size=(n, 1))
    x[0] = -1
    model = Region(2, 0, 1)
    model.bar = 5.0
    kern = Kernel(d.rng())
    mi = d.int(1, 6)
    post = d.bool()
    with caught() as ws:
        q = qi.LiuWestResampler(a=0.9, kernel=kern, maxiter=mi, postselect=post)(model, dist(x, np.ones(n) / n))
    warned = any('failed to find valid' in str(v.message) and issubclass(v.category, ResamplerWarning) for v in ws)
    same_shape(q.particle_locations, (n, 1), 'new locations')
    req(np.isfinite(q.particle_locations), 'locations are finite')
    if post:
        req(warned and len(kern.log) == mi, 'maxiter rounds, then a warning', rounds=len(kern.log), maxiter=mi)
    else:
        req(not warned and len(kern.log) == 1, 'one round', rounds=len(kern.log))
    case.hit()


@sub('R01', 60, rule='the weights sum to less than one')
def rounding(d, case):
    """Weights that fall short of one by rounding never make resampling fail."""
    n = d.int(1, 6)
    x = np.arange(n, dtype=float)[:, None]
    p = dist(x, np.ones(n))
    short = d.pick([0.0, 1e-12, 0.2])
    p.particle_weights = p.particle_weights * (1 - short)
    d.np_seed()
    q = qi.LiuWestResampler(a=1.0, h=0.0)(Region(2, 0, 1), p, n_particles=200,
                                          precomputed_mean=np.zeros(1), precomputed_cov=np.eye(1))
    req(np.isin(q.particle_locations[:, 0], x[:, 0]), 'copies of particles', got=q.particle_locations[:, 0])
    case.hit(when=short > 0)


@sub('R01', 60, rule='always')
def parameters(d, case):
    """Changing a changes the width with it, unless the width was set."""
    a, b, h = d.fl(0, 1), d.fl(0, 1), d.fl(0, 1)
    outs = []
    for kw in ({}, {'h': h}):
        z = Kernel(np.random.RandomState(3))
        r = qi.LiuWestResampler(a=a, kernel=z, **kw)
        r.a = b
        close(r.a, b, 'a')
        np.random.seed(1)
        x = np.array([[0.0], [1.0]])
        q = r(Region(2, 0, 1), dist(x, np.array([0.5, 0.5])), n_particles=50)
        width = math.sqrt(1 - b * b) if not outs else h
        resid = q.particle_locations - width * 0.5 * z.log[0].T
        cand = b * x[:, 0] + (1 - b) * 0.5
        req(np.min(np.abs(resid - cand[None]), axis=1) < 1e-9, 'contraction and width', a=b, width=width)
        outs.append(q)
    case.hit()


@sub('R01', 60, rule='a covariance component other than the default')
def point_clouds(d, case):
    """Particles that all coincide are spread by the stated small covariance, with a warning."""
    k, n = d.int(1, 3), d.int(1, 6)
    x = np.repeat(d.arr((1, k), -2, 2), n, axis=0)
    x = np.round(x * 8) / 8       # so that the mean is exact
    w = np.ones(n) if d.bool() else 2.0 ** d.ints(n, -2, 2)
    a = d.pick([0.98, 0.5, 0.0])
    comp = d.pick([None, 1e-10, 1e-4, 0.25, 4.0])
    kern = Kernel(d.rng())
    r = qi.LiuWestResampler(a=a, kernel=kern, **({} if comp is None else dict(zero_cov_comp=comp)))
    comp = 1e-10 if comp is None else comp
    m = d.int(1, 10)
    d.np_seed()
    with caught() as ws:
        q = r(Anywhere(2, 0, k), dist(x, w), n_particles=m, precomputed_cov=np.zeros((k, k)))
    req(any('zero norm' in str(v.message) for v in ws), 'a zero covariance is warned about')
    want = x[:1] + math.sqrt(1 - a * a) * math.sqrt(comp) * kern.log[0].T
    close(q.particle_locations, want, 'spread of a point cloud', rtol=0, atol=1e-6 * math.sqrt(comp) * 10 + 1e-13, component=comp, a=a)
    case.hit(when=comp != 1e-10)


@sub('R01', 30, rule='more than a thousand particles')
def large(d, case):
    """Thousands of particles are resampled by the same formula and law as few."""
    n = d.pick([300, 1600, 4000, 20000])
    n_new = d.pick([n, n, 50, 5000])
    x = np.sort(d.rng().uniform(-2, 2, size=(n, 1)), axis=0)[d.rng().permutation(n)]
    w = d.rng().exponential(size=n)
    if d.bool():
        w[d.rng().uniform(size=n) < 0.5] = 0
    w /= w.sum()
    a = d.pick([1.0, 0.98, 0.7])
    h = d.pick([0.0, 0.0, 0.2])
    kern = Kernel(d.rng())
    d.np_seed()
    p = dist(x, w)
    q = qi.LiuWestResampler(a=a, h=h, kernel=kern)(Anywhere(2, 0, 1), p, n_particles=n_new)
    same_shape(q.particle_locations, (n_new, 1), 'new locations')
    close(q.particle_weights, np.ones(n_new) / n_new, 'equal weights', rtol=1e-9)
    mu, C = moments(x, w)
    y = q.particle_locations[:, 0] - h * math.sqrt(C[0, 0]) * kern.log[0][0]
    cand = a * x[:, 0] + (1 - a) * mu[0]
    s = np.argsort(cand)
    j = np.searchsorted(cand[s], y)
    lo, hi = s[np.clip(j - 1, 0, n - 1)], s[np.clip(j, 0, n - 1)]
    near = np.where(np.abs(cand[lo] - y) < np.abs(cand[hi] - y), lo, hi)
    req(np.abs(cand[near] - y) < 1e-7, 'new particles are contracted particles plus noise', worst=np.abs(cand[near] - y).max(), n=n)
    if n <= 4000 or h == 0:
        gap = np.diff(cand[s]).min()
        if gap > 1e-9:
            req(w[near] > 0, 'weightless particles are never drawn')
    # which particles: by blocks of positions in the list, of equal weight
    c = np.cumsum(w)
    b = np.minimum((c[near] - w[near] / 2) * 10, 9).astype(int)
    pb = np.bincount(np.minimum((c - w / 2) * 10, 9).astype(int), weights=w, minlength=10)
    stats.freq(np.bincount(b, minlength=10), pb / pb.sum(), 'every stretch of the list is drawn by its weight', n=n)
    case.hit(when=n > 1000)


@sub('R01', 60, rule='clouds of different width')
def reused(d, case):
    """A resampler used before, on other clouds or settings, resamples as a new one."""
    k = d.int(1, 3)
    a, h = d.pick([0.98, 0.9, 0.5]), d.pick([None, None, 0.3])
    kw = dict(default_n_particles=d.pick([None, None, 7]))
    model = Region(2, 0, k)
    model.bar = 0.0
    r = qi.LiuWestResampler(a=a, h=h, **kw)
    n = d.int(4, 9)
    p = None
    for i in range(d.int(2, 4)):
        x = d.rng().uniform(-1, 1, size=(n, k)) * d.pick([1.0, 1.0, 1e-3, 1e-5, 10.0])
        x[:, 0] = np.abs(x[:, 0])
        w = d.weights(n, zeros=False)
        if p is not None and d.bool():
            p.particle_locations[...] = x
            p.particle_weights[...] = w
        else:
            p = dist(x, w)
        if d.chance(1, 3):
            a = d.pick([0.98, 0.9, 0.5])
            r.a = a
        other = qi.LiuWestResampler(a=d.pick([0.7, 0.2]), h=d.pick([None, 0.9]), maxiter=3, postselect=False, zero_cov_comp=0.1, default_n_particles=3)
        with caught():
            other(model, dist(x[:2] + 1, np.array([0.5, 0.5])))
        s = d.seed()
        np.random.seed(s)
        with caught():
            got = r(model, p)
        np.random.seed(s)
        with caught():
            want = qi.LiuWestResampler(a=a, h=h, **kw)(model, dist(x, w))
        scale = np.abs(x).max()
        close(got.particle_locations / scale, want.particle_locations / scale, 'a used resampler', rtol=1e-9, atol=1e-9, call=i, a=a, h=h)
        close(got.particle_weights, want.particle_weights, 'weights of a used resampler')
    case.hit(when=True)
