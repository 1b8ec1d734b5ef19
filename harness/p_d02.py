"""D02: composed priors (mixtures, products, postselection, constrained sums, interpolation)."""
import math

import numpy as np
import scipy.stats as ss

from core import sub, req, close, same_shape, raises
import qinfer as qi
import priors
import stats
from p_d01 import take

ASSUMPTIONS = ['statistical comparisons reject at a per-case probability below 1e-9 under the stated law']
N = 1500


class Recorder(qi.Distribution):
    """Samples are distinct labelled rows; what was asked for is recorded."""

    def __init__(self, label, k):
        self.label, self.k, self.asked, self.count = label, k, [], 0

    @property
    def n_rvs(self):
        return self.k

    def sample(self, n=1):
        self.asked.append(n)
        out = self.label * 10000 + self.count + np.arange(n)[:, None] + np.arange(self.k)[None, :] / 16
        self.count += n
        return out


def mix_weights(d, k):
    w = d.weights(k)
    return w if d.bool() else w.tolist()


@sub('D02', 150, rule='at least two components of positive weight')
def mixture_of_instances(d, case):
    """A mixture draws from its components in multinomial proportions and returns their very samples."""
    m, k = d.int(1, 5), d.int(1, 3)
    w = d.weights(m)
    shuffle = d.bool()
    comps = [Recorder(i + 1, k) for i in range(m)]
    dist = qi.MixtureDistribution(w if d.bool() else w.tolist(), comps, **({} if shuffle and d.bool() else dict(shuffle=shuffle)))
    req(dist.n_rvs == k and dist.n_dist == m, 'sizes')
    n = d.int(1, 60)
    d.np_seed()
    x = dist.sample(n) if n > 1 or d.bool() else dist.sample()
    same_shape(x, (n, k), 'samples')
    lab = np.floor(x[:, 0] / 10000).astype(int)
    close(x - x[:, :1], np.tile(np.arange(k) / 16, (n, 1)), 'rows are whole samples of one component', atol=1e-9)
    req(len(set(x[:, 0].tolist())) == n, 'no sample is used twice', x=x)
    for i, c in enumerate(comps):
        req(c.count == np.sum(lab == i + 1), 'every sample drawn from a component is returned', component=i, asked=c.asked)
        req(w[i] > 0 or c.count == 0, 'a component of weight zero is never used', component=i)
    if not shuffle:
        req(np.all(np.diff(x[:, 0]) > 0), 'unshuffled samples are ordered by component and as drawn', x=x[:, 0])
    d.np_seed()
    big = 3000
    x = dist.sample(big)
    lab = np.floor(x[:, 0] / 10000).astype(int)
    stats.freq(np.bincount(lab, minlength=m + 1)[1:], w, 'proportions', weights=w)
    if shuffle and m > 1:
        # the order is random: positions of the heaviest component
        i = int(np.argmax(w)) + 1
        half = np.sum(lab[:big // 2] == i)
        tot = np.sum(lab == i)
        req(half >= 0 and abs(half - tot / 2) < 8 * math.sqrt(big) / 2, 'shuffled samples come in random order', half=half, total=tot)
    case.hit(when=np.sum(w > 0) > 1)


@sub('D02', 80, rule='at least two components of positive weight')
def mixture_shares_vary(d, case):
    """Component counts of repeated draws are multinomial, not rounded shares."""
    m = d.int(2, 4)
    w = d.weights(m)
    dist = qi.MixtureDistribution(w, [qi.ConstantDistribution([float(i)]) for i in range(m)], shuffle=d.bool())
    d.np_seed()
    n = d.int(1, 4)
    firsts = np.zeros(m, dtype=int)
    allc = np.zeros(m, dtype=int)
    var = []
    for _ in range(400):
        x = dist.sample(n).astype(int).reshape(-1)
        c = np.bincount(x, minlength=m)
        var.append(c)
        allc += c
    stats.freq(allc, w, 'proportions over repeated draws', weights=w, n=n)
    var = np.array(var)
    for i in range(m):
        v = n * w[i] * (1 - w[i])
        got = np.mean((var[:, i] - n * w[i]) ** 2)
        # fourth central moment of the binomial bounds the fluctuation
        mu4 = v * (1 + 3 * (n - 2) * w[i] * (1 - w[i])) if n >= 2 else w[i] * (1 - w[i]) * (1 - 3 * w[i] * (1 - w[i]))
        sd = math.sqrt(max(mu4 - v * v, 0) / 400 + 1e-6)
        req(abs(got - v) < 8 * sd + 0.02, 'variance of component counts', got=got, expected=v, n=n, weights=w)
    case.hit(when=np.sum(w > 1e-3) > 1)


@sub('D02', 120, rule='at least two components of positive weight')
def mixture_of_class(d, case):
    """A mixture of one class takes row k of every argument array for its k-th component."""
    m = d.int(1, 4) if d.chance(3, 4) else d.int(5, 9)
    w = d.weights(m)
    kind = d.int(0, 5)
    kw = {}
    mu = d.floats(m, -5, 5)
    var = np.array([d.logfl(0.05, 4) for _ in range(m)])
    if kind == 0:
        dist = qi.MixtureDistribution(w, qi.NormalDistribution, np.stack([mu, var], axis=1), **kw)
        cdfs = [lambda t, i=i: ss.norm.cdf((t - mu[i]) / math.sqrt(var[i])) for i in range(m)]
    elif kind == 1:
        lo = mu - np.sqrt(var) * d.floats(m, 0, 2)
        hi = mu + np.sqrt(var) * d.floats(m, 0.2, 2)
        dist = qi.MixtureDistribution(w, qi.NormalDistribution, np.stack([mu, var], axis=1),
                                      dict(trunc=np.stack([lo, hi], axis=1)))

        def tn(t, i):
            F = lambda y: ss.norm.cdf((y - mu[i]) / math.sqrt(var[i]))
            return (F(np.clip(t, lo[i], hi[i])) - F(lo[i])) / (F(hi[i]) - F(lo[i]))
        cdfs = [lambda t, i=i: tn(t, i) for i in range(m)]
    elif kind == 2:
        dist = qi.MixtureDistribution(w, qi.UniformDistribution, np.stack([mu, mu + var], axis=1)[:, None, :])
        cdfs = [lambda t, i=i: np.clip((t - mu[i]) / var[i], 0, 1) for i in range(m)]
    elif kind == 3:
        a, b = 1 + var, 1 + var[::-1]
        dist = qi.MixtureDistribution(w, qi.BetaDistribution, dist_args=None,
                                      dist_kw_args=dict(alpha=a[:, None], beta=b[:, None]))
        cdfs = [lambda t, i=i: ss.beta.cdf(t, a[i], b[i]) for i in range(m)]
    elif kind == 4:
        a, b = 1 + var, 1 + var[::-1]
        dist = qi.MixtureDistribution(w, qi.GammaDistribution, np.stack([a, b], axis=1))
        cdfs = [lambda t, i=i: ss.gamma.cdf(t * b[i], a[i]) for i in range(m)]
    else:
        dist = qi.MixtureDistribution(w, qi.UniformDistribution, None, None)
        cdfs = [lambda t: np.clip(t, 0, 1)] * m
    req(dist.n_dist == m, 'number of components')
    x = take(d, dist, 1, N)
    stats.ks(x, lambda t: sum(w[i] * cdfs[i](t) for i in range(m)), 'mixture law', weights=w, kind=kind, mu=mu, var=var)
    stats.serial(np.reshape(x, (N, 1)), 'mixture')
    case.hit(when=np.sum(w > 0) > 1)


@sub('D02', 120, rule='at least two factors')
def product(d, case):
    """A product concatenates one sample of every factor, in order, drawing them independently."""
    m = d.int(1, 4) if d.chance(4, 5) else d.int(5, 12)
    ks = [d.int(1, 3) for _ in range(m)]
    form = d.int(0, 3)

    def build(fs):
        return qi.ProductDistribution(*fs) if form == 0 else qi.ProductDistribution(fs) if form == 1 else \
            qi.ProductDistribution(iter(fs)) if form == 2 else qi.ProductDistribution(tuple(fs))
    comps = [Recorder(i + 1, k) for i, k in enumerate(ks)]
    dist = build(comps)
    req(dist.n_rvs == sum(ks), 'number of variables')
    n = d.int(1, 8)
    for rep in range(2):
        x = dist.sample(n)
        same_shape(x, (n, sum(ks)), 'samples')
        at = 0
        for i, k in enumerate(ks):
            want = (i + 1) * 10000 + rep * n + np.arange(n)[:, None] + np.arange(k)[None, :] / 16
            close(x[:, at:at + k], want, 'columns of factor %d' % i, rtol=0, atol=1e-9)
            at += k
    facs = [qi.NormalDistribution(0, 1) if d.bool() else qi.UniformDistribution([[0, 1]] * k) for k in ks]
    dist = build(facs)
    d.np_seed()
    x = dist.sample(N)
    stats.uncorrelated(x, 'factors are independent')
    stats.serial(x, 'product')
    # one and the same distribution as two factors: independent draws
    f = qi.NormalDistribution(0, 1)
    stats.uncorrelated(qi.ProductDistribution(f, f).sample(N), 'a repeated factor is drawn independently')
    case.hit(when=m > 1)


class Region(object):
    """A model that accepts a half space."""

    def __init__(self, c, t):
        self.c, self.t, self.calls = np.asarray(c), t, 0

    def are_models_valid(self, x):
        self.calls += 1
        return x.dot(self.c) <= self.t


@sub('D02', 120, rule='samples were redrawn')
def postselected(d, case):
    """Postselection keeps the law conditional on validity, and fails loudly when it cannot."""
    k = d.int(1, 3)
    c = np.zeros(k)
    j = d.int(0, k - 1)
    c[j] = 1
    t = d.fl(0.05, 1.2)
    model = Region(c, t)
    base = qi.UniformDistribution([[0, 1]] * k)
    big = d.bool()
    dist = qi.PostselectedDistribution(base, model, **(dict(maxiters=1000) if big or t < 0.4 else {}))
    x = take(d, dist, k)
    req(x.dot(c) <= t, 'all samples are valid')
    for i in range(k):
        hi = min(t, 1) if i == j else 1
        stats.ks(x[:, i], lambda y: y / hi, 'conditional law', axis=i, limit=t, selected=j)
    stats.uncorrelated(x, 'postselected')
    stats.serial(x, 'postselected')
    nothing = qi.PostselectedDistribution(base, Region(c, -1), maxiters=d.int(1, 5))
    raises(RuntimeError, lambda: nothing.sample(d.int(1, 4)), 'no valid sample exists')
    g = qi.PostselectedDistribution(qi.NormalDistribution(1, 2), model)
    close(g.grad_log_pdf(np.array([[3.], [0.]])), [[-1.], [0.5]], 'gradient of the log density of the base')
    case.hit(when=t < 1)


class Rows(qi.Distribution):
    """Hands out the rows of a fixed array, in order."""

    def __init__(self, rows):
        self.rows, self.at = rows, 0

    @property
    def n_rvs(self):
        return self.rows.shape[1]

    def sample(self, n=1):
        x = self.rows[self.at:self.at + n]
        self.at += n
        assert len(x) == n
        return x.copy()


@sub('D02', 120, rule='rejections in more than one round')
def postselection_bookkeeping(d, case):
    """Exactly the invalid samples are redrawn; an allowance of rounds that just suffices suffices."""
    n = d.int(1, 6)
    rows, pend, rounds = [], n, 0
    out = []
    accept = []
    while pend and rounds < 5:
        r = d.ints(pend, 0, 1)
        if rounds == 4:
            r[:] = 1
        for v in r:
            rows.append([float(len(rows)), float(v)])
        pend = int(np.sum(r == 0))
        rounds += 1
    rows = np.array(rows)
    model = Region([0, -1], -0.5)
    x = qi.PostselectedDistribution(Rows(rows), model, maxiters=rounds + d.int(0, 2)).sample(n)
    same_shape(x, (n, 2), 'samples')
    good = rows[rows[:, 1] == 1]
    req(np.array_equal(x[np.argsort(x[:, 0])], good), 'every valid sample that was drawn is returned', got=x, rows=rows)
    if rounds > 1:
        raises(RuntimeError, lambda: qi.PostselectedDistribution(Rows(rows), model, maxiters=rounds - 1).sample(n),
               'one round fewer than needed')
    case.hit(when=rounds > 2)


@sub('D02', 100, rule='totals of both signs or a total other than one')
def constrained_sum(d, case):
    """Every sample is the underlying sample rescaled to the desired total."""
    k, n = d.int(1, 5), d.int(1, 6)
    s = d.arr((n, k), -2, 3)
    tot = s.sum(axis=1)
    if np.any(np.abs(tot) < 0.05):
        s = s + 1
        s[np.abs(s.sum(axis=1)) < 0.05] = 1
        tot = s.sum(axis=1)
    if d.chance(1, 4):
        s = s * d.logfl(1e-8, 1e8)
        tot = s.sum(axis=1)
    want = d.pick([1, 1, d.fl(-3, 3), d.logfl(0.01, 100), d.logfl(1e-12, 1e12)])
    dist = qi.distributions.ConstrainedSumDistribution(Rows(s), want) if want != 1 or d.bool() else \
        qi.distributions.ConstrainedSumDistribution(Rows(s))
    req(dist.n_rvs == k, 'number of variables')
    req(isinstance(dist.underlying_distribution, Rows), 'underlying distribution')
    x = dist.sample(n)
    same_shape(x, (n, k), 'samples')
    close(x.sum(axis=1), np.full(n, float(want)), 'samples have the desired total', rtol=1e-9, atol=1e-9 * abs(want), underlying=s, desired=want)
    close(x * tot[:, None], want * s, 'samples are rescaled underlying samples', rtol=1e-8, atol=1e-8 * np.abs(s).max() * abs(want))
    case.hit(when=want != 1 or np.any(tot < 0))


@sub('D02', 60, rule='an asymmetric or unnormalised density')
def interpolated(d, case):
    """Samples follow the given density, normalised or not."""
    kind = d.int(0, 3)
    c = d.logfl(1e-2, 1e2)
    mu, s = d.fl(-1.5, 1.5), d.fl(0.3, 1)
    if kind == 0:
        pdf, cdf = (lambda t: c * ss.norm.pdf(t, mu, s)), (lambda t: ss.norm.cdf(t, mu, s))
    elif kind == 1:
        pdf, cdf = (lambda t: c * ss.gumbel_r.pdf(t, mu, s)), (lambda t: ss.gumbel_r.cdf(t, mu, s))
    elif kind == 2:
        pdf, cdf = (lambda t: c * ss.t.pdf(t, 4, mu, s)), (lambda t: ss.t.cdf(t, 4, mu, s))
    else:
        pdf, cdf = (lambda t: c * (0.3 * ss.norm.pdf(t, -1, s) + 0.7 * ss.norm.pdf(t, 2, s))), \
            (lambda t: 0.3 * ss.norm.cdf(t, -1, s) + 0.7 * ss.norm.cdf(t, 2, s))
    kw = d.pick([dict(), dict(compactification_scale=d.fl(0.7, 3)), dict(n_interp_points=d.int(1000, 3000))])
    dist = qi.InterpolatedUnivariateDistribution(pdf, **kw)
    x = take(d, dist, 1, N)
    # interpolation error: the grid has at least a thousand points over a few scales
    xs = np.sort(x.reshape(-1))
    F = cdf(xs)
    i = np.arange(1, N + 1)
    D = max(np.max(i / N - F), np.max(F - (i - 1) / N))
    req(D < 3.5 / math.sqrt(N) + 0.01, 'interpolated law', D=D, kind=kind, options=kw, mu=mu, s=s)
    case.hit(when=kind > 0 or abs(c - 1) > 0.1)


@sub('D02', 80, rule='nested twice')
def nested(d, case):
    """Compositions compose: the shapes, counts and ranges of nested priors are those of their parts."""
    def make(depth):
        kind = d.int(0, 3) if depth else 0
        if kind == 0:
            lo = d.fl(-2, 2)
            return qi.UniformDistribution([[lo, lo + 1]]), np.array([[lo, lo + 1]])
        if kind == 1:
            parts = [make(depth - 1) for _ in range(d.int(1, 3))]
            return qi.ProductDistribution([p[0] for p in parts]), np.vstack([p[1] for p in parts])
        if kind == 2:
            a, r = make(depth - 1)
            b = qi.UniformDistribution(r + 10)
            return qi.MixtureDistribution(np.array([0.5, 0.5]), [a, b]), np.stack([r[:, 0], r[:, 1] + 10], axis=1)
        a, r = make(depth - 1)
        m = Region(np.eye(len(r))[0], 1e9)
        return qi.PostselectedDistribution(a, m), r
    dist, r = make(d.int(1, 3))
    req(dist.n_rvs == len(r), 'number of variables')
    d.np_seed()
    for n in (1, d.int(1, 7)):
        x = dist.sample(n=n)
        same_shape(x, (n, len(r)), 'samples')
        req((x >= r[:, 0]) & (x <= r[:, 1]), 'ranges')
    case.hit(when=len(r) > 1)


@sub('D02', 80, rule='the distribution has more than one column')
def two_of_a_kind(d, case):
    """Making and sampling other distributions leaves the law of a distribution alone."""
    dist = priors.draw_prior(d)[1]
    s = d.seed()
    np.random.seed(s)
    first = np.array(dist.sample(4))
    for _ in range(4):
        priors.draw_prior(d)[1].sample(3)
    np.random.seed(s)
    close(dist.sample(4), first, 'samples after other distributions were made', rtol=1e-12, distribution=repr(dist))
    case.hit(type(dist).__name__, when=dist.n_rvs > 1)
