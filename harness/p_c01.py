"""C01: clusters of particles and their moments."""
import contextlib
import io
import warnings

import numpy as np

from core import sub, req, close, same_shape, raises, caught, Reject
import qinfer as qi
from qinfer.clustering import particle_clusters, NOISE

ASSUMPTIONS = ['clusters are those of the density-based algorithm (DBSCAN) that the module names',
               'distances differ from eps by more than rounding; weights are positive']


def blobs(d, q=None):
    q = q or d.int(1, 3)
    if d.chance(1, 25):     # many clusters
        k, per = d.pick([(12, 60), (60, 12), (2, 400)])
        c = d.rng().uniform(-30, 30, size=(k, 1, q))
        x = (c + d.rng().uniform(-0.6, 0.6, size=(k, per, q))).reshape(-1, q)
        return x[d.rng().permutation(len(x))]
    k = d.int(1, 4)
    rows = []
    for i in range(k):
        c = d.arr((1, q), -4, 4)
        rows.append(c + d.arr((d.int(1, 12), q), -0.6, 0.6))
    x = np.concatenate(rows)
    if d.bool():
        x = np.concatenate([x, d.arr((d.int(1, 4), q), -12, 12)])
    return x


def dist_mtx(x, metric):
    diff = np.abs(x[:, None, :] - x[None, :, :])
    return {'euclidean': lambda: np.sqrt((diff ** 2).sum(axis=-1)), 'cityblock': lambda: diff.sum(axis=-1),
            'chebyshev': lambda: diff.max(axis=-1)}[metric]()


def reference(D, eps, minp):
    """Core points, their components, and for border points the components they touch."""
    near = D <= eps
    core = near.sum(axis=1) >= minp
    comp = -np.ones(len(D), dtype=int)
    c = 0
    for i in np.flatnonzero(core):
        if comp[i] >= 0:
            continue
        stack = [i]
        comp[i] = c
        while stack:
            j = stack.pop()
            for l in np.flatnonzero(near[j] & core & (comp < 0)):
                comp[l] = c
                stack.append(l)
        c += 1
    touch = [set(comp[np.flatnonzero(near[i] & core)]) for i in range(len(D))]
    return core, comp, touch, c


def setup(d, weighted_ok=True):
    x = blobs(d)
    n = len(x)
    w = d.weights(n, zeros=False)
    w = np.maximum(w, 1e-6)
    w = w / w.sum()
    kw, metric, eps, minp = {}, 'euclidean', 0.5, 5
    if d.chance(2, 3):
        metric = kw['metric'] = d.pick(['euclidean', 'cityblock', 'chebyshev'])
    if d.chance(3, 4):
        eps = kw['eps'] = d.fl(0.05, 2.5)
    if d.chance(3, 4):
        minp = kw['min_particles'] = d.int(1, 6)
    weighted = weighted_ok and d.chance(1, 3)
    D = dist_mtx(x, metric)
    if weighted:
        kw['weighted'] = True
        p = 0.5
        if d.bool():
            p = kw['w_pow'] = d.pick([0.25, 0.5, 1.0, 0.0])
        D = D / (n ** 2 * np.outer(w, w)) ** p
        eps *= 2
        kw['eps'] = eps
    if np.min(np.abs(D - eps)) < 1e-7 * (1 + eps):
        raise Reject()
    return x, w, kw, D, eps, minp, weighted


@sub('C01', 250, rule='two clusters, or noise')
def clusters(d, case):
    """Particles are split into the density-connected clusters and the noise, each reported once."""
    x, w, kw, D, eps, minp, weighted = setup(d)
    n = len(x)
    x0, w0 = x.copy(), w.copy()
    core, comp, touch, nc = reference(D, eps, minp)
    noise = ~core & np.array([len(t) == 0 for t in touch])
    if not weighted and d.chance(1, 4):
        args = (x,) if d.bool() else (x, None)
    else:
        args = (x, w)
    out = io.StringIO()
    if d.chance(1, 3):
        kw['quiet'] = d.bool()
    with caught() as ws, contextlib.redirect_stdout(out):
        got = list(particle_clusters(*args, **kw))
    close(x, x0, 'locations after clustering', rtol=0, atol=0)
    close(w, w0, 'weights after clustering', rtol=0, atol=0)
    labels = [l for l, m in got]
    want = ([NOISE] if noise.any() else []) + list(range(nc))
    req(sorted(labels) == sorted(want), 'labels of clusters', got=labels, want=want)
    total = np.zeros(n, dtype=int)
    lab = np.zeros(n, dtype=int)
    for l, m in got:
        req(m.dtype == bool and m.shape == (n,), 'cluster masks are boolean, one entry per particle')
        total += m
        lab[m] = l
    req(total == 1, 'every particle is in exactly one cluster', counts=total)
    req((lab == NOISE) == noise, 'noise', got=lab == NOISE, want=noise)
    # core points: same label iff same component; border points: label of a component they touch
    rep = {}
    for i in np.flatnonzero(core):
        rep.setdefault(comp[i], lab[i])
        req(rep[comp[i]] == lab[i], 'density-connected particles are in the same cluster', labels=lab, components=comp)
    req(len(set(rep.values())) == len(rep), 'different components are different clusters', labels=lab, components=comp)
    for i in np.flatnonzero(~core & ~noise):
        req(lab[i] in [rep[c] for c in touch[i]], 'a border particle belongs to a cluster that it touches')
    frac = noise.mean()
    warned = any(issubclass(v.category, qi.ResamplerWarning) for v in ws)
    if frac > 0.1:
        req(warned, 'no warning about %g noise' % frac)
    elif frac < 0.1:
        req(not warned, 'a warning about %g noise' % frac)
    req(bool(out.getvalue()) == (not kw.get('quiet', True)), 'debugging output exactly when asked', got=out.getvalue())
    case.hit('weighted' if weighted else 'plain', 'noise' if noise.any() else 'no noise',
             'no weights' if len(args) < 2 or args[1] is None else 'weights', when=nc > 1 or noise.any())


@sub('C01', 150, rule='two clusters or more')
def moments(d, case):
    """Every cluster is reported with its weight and its own mean and covariance; within- and between-cluster
    covariance add up to the covariance of the whole cloud; the metric is the share explained by clusters."""
    x, w, kw, D, eps, minp, weighted = setup(d)
    n, q = x.shape
    dist = qi.ParticleDistribution(particle_locations=x, particle_weights=w)
    w = dist.particle_weights
    opts = dict(cluster_opts=dict(kw))
    masks = dict(particle_clusters(x, w, **kw))
    got = list(dist.est_cluster_moments(**opts))
    req(sorted(g[0] for g in got) == sorted(masks), 'labels', got=[g[0] for g in got])
    W = B = np.zeros((q, q))
    mu = w.dot(x)
    for label, weight, mean, cov in got:
        m = masks[label]
        wt = float(w[m].sum())
        close(float(weight), wt, 'weight of a cluster', rtol=1e-9)
        p = w[m] / wt
        mc = p.dot(x[m])
        dx = x[m] - mc
        cc = (p[:, None] * dx).T.dot(dx)
        close(np.asarray(mean), mc, 'mean of a cluster', rtol=1e-7, atol=1e-7)
        close(np.asarray(cov), cc, 'covariance of a cluster', rtol=1e-6, atol=1e-6)
        W = W + wt * cc
        B = B + wt * np.outer(mc - mu, mc - mu)
    wcv, bcv, tv = dist.est_cluster_covs(**opts)
    close(wcv, W, 'within-cluster covariance', rtol=1e-6, atol=1e-6)
    close(bcv, B, 'between-cluster covariance', rtol=1e-6, atol=1e-6)
    close(tv, dist.est_covariance_mtx(), 'total covariance', rtol=1e-6, atol=1e-6)
    with np.errstate(all='ignore'):
        share = np.asarray(dist.est_cluster_metric(**opts))
    same_shape(share, (q,), 'share of variance')
    big = np.diag(W + B) > 1e-4
    close(share[big], (np.diag(B) / np.diag(W + B))[big], 'share of variance explained by clusters', rtol=1e-2, atol=1e-2)
    case.hit('q=%d' % q, when=len(got) > 1)
    if kw == {}:
        case.label('defaults')


@sub('C01', 20, rule='always')
def refusals(d, case):
    """Weighted clustering needs weights."""
    x = blobs(d)
    raises(ValueError, lambda: list(particle_clusters(x, weighted=True)), 'weighted clustering without weights')
    dist = qi.ParticleDistribution(particle_locations=np.concatenate([x, x + 50]),
                                   particle_weights=np.ones(2 * len(x)) / (2 * len(x)))
    a = dist.est_cluster_covs()
    b = dist.est_cluster_covs(cluster_opts={'eps': 0.5, 'min_particles': 5, 'metric': 'euclidean'})
    for u, v in zip(a, b):
        close(u, v, 'default options')
    case.hit()
