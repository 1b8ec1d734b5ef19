"""U02: numerical helpers compute the documented quantities."""
import math

import numpy as np
import scipy.stats as ss
from scipy.special import gammaln, xlogy

from core import sub, req, close, same_shape, raises
import qinfer as qi
import stats
from qinfer import utils as u
from qinfer import rb

ASSUMPTIONS = ['simplex coordinates are compared away from the boundary of the simplex',
               'statistical comparisons reject at a per-case probability below 1e-9 under the stated law']


def simplex(d, shape, lo=1e-3):
    x = d.arr(shape, lo, 1)
    return x / x.sum(axis=-1, keepdims=True)


@sub('U02', 150, rule='at least three components')
def simplex_coordinates(d, case):
    """Simplex points and unconstrained coordinates are inverse; the centre is zero; stick breaking."""
    k = d.int(2, 7)
    lead = tuple(d.int(1, 3) for _ in range(d.int(0, 2)))
    x = simplex(d, lead + (k,), d.logfl(1e-7, 0.5))
    x0 = x.copy()
    y = u.from_simplex(x)
    req(np.array_equal(x, x0), 'the input is left alone')
    same_shape(y, x.shape, 'coordinates')
    req(y[..., -1] == 0, 'the last coordinate is zero', y=y)
    close(u.to_simplex(y), x, 'coordinates determine the point', rtol=1e-7, atol=1e-9)
    # the documented formula
    rest = 1 - np.concatenate([np.zeros(lead + (1,)), np.cumsum(x, axis=-1)[..., :-1]], axis=-1)
    z = (x / rest)[..., :-1]
    want = np.log(z / (1 - z)) + np.log(k - 1 - np.arange(k - 1.))
    close(y[..., :-1], want, 'coordinates of stick breaking', rtol=1e-5, atol=1e-5)
    close(u.from_simplex(np.full(k, 1 / k)), np.zeros(k), 'the centre is the origin', atol=1e-9)
    y = d.arr(lead + (k,), -8, 8)
    y0 = y.copy()
    x = u.to_simplex(y)
    req(np.array_equal(y, y0), 'the coordinates are left alone')
    req(x >= 0, 'non-negative')
    close(x.sum(axis=-1), np.ones(lead), 'points sum to one', rtol=0, atol=1e-12)
    if np.max(np.abs(y)) < 5:
        y[..., -1] = 0
        close(u.from_simplex(x), y, 'the point determines the coordinates', rtol=1e-5, atol=1e-5)
    case.hit(when=k > 2)


@sub('U02', 150, rule='at least three sides')
def multinomial_probabilities(d, case):
    """multinomial_pdf for every batch, with all or all but the last probability, zeros included."""
    k = d.int(2, 5)
    batch = tuple(d.int(1, 3) for _ in range(d.int(0, 2)))
    big = d.chance(1, 5)
    n = d.ints(int(np.prod((k,) + batch)), 0, 200 if big else 6).reshape((k,) + batch)
    p = d.arr((k,) + batch, 0, 1)
    if d.chance(1, 2):
        p[d.ints(int(np.prod(p.shape)), 0, 3).reshape(p.shape) == 0] = 0
    if d.chance(1, 4):
        # rare sides
        p = p ** d.pick([8, 20])
    p[0] += (p.sum(axis=0) == 0)
    p = p / p.sum(axis=0)
    if d.chance(1, 4):
        # an impossible last side, up to rounding
        p[-1] = 0
        p[0] += (p.sum(axis=0) == 0)
        p = p / p.sum(axis=0)
    n0, p0 = n.copy(), p.copy()
    got = u.multinomial_pdf(n, p)
    same_shape(got, batch, 'probabilities')
    req(np.array_equal(n, n0) and np.array_equal(p, p0), 'the arguments are left alone')
    want = np.empty(batch)
    for i in np.ndindex(*batch):
        nn, pp = n[(slice(None),) + i], p[(slice(None),) + i]
        if np.any((pp == 0) & (nn > 0)):
            want[i] = 0
        else:
            m = pp > 0
            want[i] = math.exp(gammaln(nn.sum() + 1) - gammaln(nn + 1).sum() + (nn[m] * np.log(pp[m])).sum())
    close(got, want, 'multinomial probability', rtol=1e-8, atol=1e-300, counts=n, p=p)
    got = u.multinomial_pdf(n, p[:-1])
    last = 1 - p[:-1].sum(axis=0)
    near = (last < 1e-12) & (n[-1] > 0)
    req(np.isfinite(got) & (got >= 0), 'probabilities are finite', got=got, p=p)
    close(np.where(near, want, got), want, 'the last probability is implied', rtol=1e-6, atol=1e-12, counts=n, p=p)
    case.hit(when=k > 2)


@sub('U02', 60, rule='always')
def binomial(d, case):
    """binomial_pdf and the estimates of its parameter."""
    N = d.int(0, 60)
    p = d.fl(0, 1)
    k = np.arange(N + 1)
    want = np.array([math.comb(N, int(i)) * p ** int(i) * (1 - p) ** int(N - i) for i in k])
    close(u.binomial_pdf(N, k, p), want, 'binomial probabilities', rtol=1e-8, atol=1e-14)
    N = int(d.logfl(100, 1e6))
    k = np.unique(np.clip(np.rint(N * p + math.sqrt(N) * d.arr(6, -3, 3)), 0, N)).astype(int)
    lp = gammaln(N + 1) - gammaln(k + 1) - gammaln(N - k + 1) + xlogy(k, p) + xlogy(N - k, 1 - p)
    close(u.binomial_pdf(N, k, p), np.exp(lp), 'binomial probabilities of many trials', rtol=1e-6, atol=1e-14, N=N, p=p, k=k)
    N = d.int(1, 60)
    n = d.ints(3, 0, N)
    b = d.pick([0, d.fl(0, 3)])
    kw = dict(hedge=b) if b or d.bool() else {}
    close(u.binom_est_p(n, N, **kw), (n + b) / (N + 2 * b), 'hedged estimate')
    p = d.fl(0, 1)
    close(u.binom_est_error(p, N, **kw), math.sqrt(p * (1 - p) / (N + 2 * b + 1)), 'error of the estimate')
    case.hit()


@sub('U02', 100, rule='a batch of distributions and a shape of two axes')
def multinomial_sampling(d, case):
    """sample_multinomial has shape p.shape + size and draws every entry from its own distribution."""
    k = d.int(2, 4)
    batch = tuple(d.int(1, 3) for _ in range(d.int(0, 2)))
    N = d.int(0, 5)
    p = simplex(d, batch + (k,), 1e-2)
    p = np.moveaxis(p, -1, 0)
    form = d.int(0, 3)
    size = None if form == 0 else d.int(1, 5) if form == 1 else tuple(d.int(1, 4) for _ in range(d.int(1, 3)))
    tail = () if size is None else (size,) if form == 1 else size
    d.np_seed()
    x = u.sample_multinomial(N, p, size) if d.bool() else u.sample_multinomial(N, p, size=size)
    same_shape(x, (k,) + batch + tail, 'samples')
    req((x >= 0) & (x == np.rint(x)), 'counts')
    close(x.sum(axis=0), np.full(batch + tail, N), 'every sample holds the number of trials')
    if N:
        m = 800
        x = u.sample_multinomial(N, p, size=(m // 40, 40) if d.bool() else m).reshape((k,) + batch + (m,))
        for i in np.ndindex(*batch):
            s = (slice(None),) + i
            stats.freq(x[s].sum(axis=1), p[s], 'proportions', which=i, trials=N)
        rows = x.reshape(k, -1, m)[0]
        if len(rows) > 1:
            stats.uncorrelated(rows.T + 1e-3 * np.random.rand(m, len(rows)), 'distributions are sampled independently')
    case.hit(when=len(batch) > 0 and len(tail) > 1)


@sub('U02', 120, rule='a matrix of at least two rows')
def psd_square_roots(d, case):
    """The square root of a positive semidefinite matrix; negative eigenvalues are cut."""
    k = d.int(1, 5)
    g = d.rng()
    cplx = d.bool()
    q = np.linalg.qr(g.randn(k, k) + (1j * g.randn(k, k) if cplx else 0))[0]
    sc = d.logfl(1e-4, 1e4) if d.bool() else d.logfl(1e-18, 1e18)
    w = d.arr(k, 0, 1) * sc
    if d.chance(1, 3):
        w[d.int(0, k - 1)] = 0
    neg = d.chance(1, 3)
    if neg:
        w[d.int(0, k - 1)] *= -1
    A = (q * w).dot(q.conj().T)
    A = (A + A.conj().T) / 2
    A0 = A.copy()
    S, err = u.sqrtm_psd(A)
    S2 = u.sqrtm_psd(A, est_error=False)
    req(np.array_equal(A, A0), 'the matrix is left alone')
    close(S, S2, 'with and without error', rtol=1e-9, atol=1e-12 * sc)
    close(S, S.conj().T, 'Hermitian', rtol=1e-9, atol=1e-8 * math.sqrt(sc))
    req(np.linalg.eigvalsh(S) > -1e-6 * math.sqrt(sc), 'positive semidefinite')
    pos = (q * np.maximum(w, 0)).dot(q.conj().T)
    close(S.dot(S), pos, 'squares to the matrix', rtol=1e-6, atol=1e-9 * sc)
    close(err, np.linalg.norm(pos - A), 'estimated error', rtol=1e-6, atol=1e-8 * sc)
    case.hit(when=k > 1)


@sub('U02', 100, rule='at least two dimensions')
def ellipsoids(d, case):
    """Volumes and membership of ellipsoids."""
    k = d.int(1, 4)
    g = d.rng()
    m = g.randn(k, k) + np.eye(k) * 2
    C = m.dot(m.T) + 0.1 * np.eye(k)
    unit = {1: 2, 2: math.pi, 3: 4 * math.pi / 3, 4: math.pi ** 2 / 2}[k]
    vol = unit * math.sqrt(np.linalg.det(C))
    close(u.ellipsoid_volume(invA=C), vol, 'volume by the inverse matrix', rtol=1e-6)
    close(u.ellipsoid_volume(A=np.linalg.inv(C)), vol, 'volume by the matrix', rtol=1e-6)
    close(u.ellipsoid_volume(np.linalg.inv(C)), vol, 'volume by position', rtol=1e-6)
    raises(ValueError, u.ellipsoid_volume, 'no matrix')
    c = g.randn(k)
    L = np.linalg.cholesky(C)
    z = g.randn(d.int(1, 6), k)
    z /= np.linalg.norm(z, axis=1)[:, None]
    r = np.where(d.ints(len(z), 0, 1) == 1, d.fl(0, 0.999), d.fl(1.001, 4))
    x = c + (z * r[:, None]).dot(L.T)
    got = u.in_ellipsoid(x, C, c)
    same_shape(got, (len(z),), 'membership')
    req(got == (r <= 1), 'membership', got=got, radii=r)
    for xi, ri in zip(x, r):
        req(bool(u.in_ellipsoid(xi, C, c)) == (ri <= 1), 'membership of a single point', radius=ri)
    case.hit(when=k > 1)


@sub('U02', 60, rule='always')
def small_tools(d, case):
    """uniquify, significant figures, compact grids, outer products, shapes, moments."""
    s = d.ints(d.int(0, 10), 0, 4).tolist()
    want = []
    for v in s:
        if v not in want:
            want.append(v)
    req(u.uniquify(s) == want, 'unique elements in order', got=u.uniquify(s), expected=want)
    n, sc = d.int(2, 40), d.logfl(0.1, 10)
    x = u.compactspace(sc, n)
    same_shape(x, (n,), 'compact grid')
    req(np.diff(x) > 0, 'increasing')
    close(1 / (1 + np.exp(-x / sc)), np.arange(1, n + 1) / (n + 1.), 'linearly spaced in the compact coordinate', rtol=1e-9)
    v = d.arr(d.int(1, 4), -3, 3)
    close(u.outer_product(v), v[:, None] * v[None, :], 'outer product')
    a = np.zeros(tuple(d.int(1, 4) for _ in range(d.int(1, 3))))
    i = d.int(0, 3)
    req(u.safe_shape(a, i) == (a.shape[i] if i < a.ndim else 1), 'safe shape')
    req(u.safe_shape(a, 7, default=5) == 5 and u.safe_shape(3.0) == 1, 'safe shape of missing axes')
    k, m = d.int(1, 3), d.int(1, 6)
    loc, w = d.arr((m, k), -3, 3), d.weights(m)
    mu = (w[:, None] * loc).sum(axis=0)
    close(u.particle_meanfn(w, loc), mu, 'mean', rtol=1e-9, atol=1e-10)
    close(u.particle_meanfn(w, loc, lambda y: y ** 2), (w[:, None] * loc ** 2).sum(axis=0), 'mean of a function', rtol=1e-9, atol=1e-10)
    cov = np.einsum('i,ij,ik->jk', w, loc - mu, loc - mu)
    close(u.particle_covariance_mtx(w, loc), cov, 'covariance', rtol=1e-7, atol=1e-9)
    case.hit()


@sub('U02', 100, rule='always')
def significant_figures(d, case):
    """Numbers agree to a number of figures when their scaled difference is below 1.5 of the last one."""
    k = d.int(1, 4)
    sf = d.int(1, 6)
    x = np.array([d.logfl(1e-6, 1e6) for _ in range(k)]) * (d.ints(k, 0, 1) * 2 - 1)
    mag = 10 ** np.floor(np.log10(np.abs(x)))
    eps = d.floats(k, -1, 1) * 10. ** -sf
    u.assert_sigfigs_equal(x, x + mag * eps, sf)
    j = d.int(0, k - 1)
    eps[j] = d.pick([-1, 1]) * d.fl(2, 50) * 10. ** -sf
    raises(AssertionError, lambda: u.assert_sigfigs_equal(x, x + mag * eps, sf), 'numbers that differ')
    case.hit()


@sub('U02', 60, rule='always')
def rb_fidelities(d, case):
    """Fidelity and depolarising parameter of randomized benchmarking are inverse."""
    dim = d.int(2, 16)
    Fd = d.arr(3, 1. / dim, 1)
    kw = dict(d=dim) if dim != 2 or d.bool() else {}
    p = rb.p(Fd, **kw)
    close(p, (dim * Fd - 1) / (dim - 1.), 'depolarising parameter', rtol=1e-9, atol=1e-12)
    req((p > -1e-9) & (p < 1 + 1e-9), 'range')
    close(rb.F(p, **kw), Fd, 'inverse')
    case.hit()


@sub('U02', 80, rule='at least three points')
def weighted_distances(d, case):
    """Pairwise distances divided by (N^2 w_i w_j)^p; heavy points are closer."""
    n, k = d.int(1, 6), d.int(1, 3)
    X, w = d.arr((n, k), -3, 3), d.weights(n, zeros=False) + 1e-3
    metric = d.pick(['euclidean', 'cityblock', 'sqeuclidean'])
    diff = X[:, None, :] - X[None, :, :]
    base = {'euclidean': np.sqrt((diff ** 2).sum(-1)), 'cityblock': np.abs(diff).sum(-1), 'sqeuclidean': (diff ** 2).sum(-1)}[metric]
    kw = {}
    if metric != 'euclidean' or d.bool():
        kw['metric'] = metric
    wp = d.pick([0.5, 0, 1, d.fl(0, 2)])
    if wp != 0.5 or d.bool():
        kw['w_pow'] = wp
    got = qi.metrics.weighted_pairwise_distances(X, w, **kw)
    close(got, base / (np.outer(w, w) * n ** 2) ** wp, 'weighted distances', rtol=1e-6, atol=1e-6)
    case.hit(when=n > 2)
