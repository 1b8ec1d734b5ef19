"""B08: marginals and density meshes of the posterior."""
import math

import numpy as np

from core import sub, req, close, same_shape
import qinfer as qi
import zoo

ASSUMPTIONS = ['particle positions are distinct, as after sampling a continuous prior or resampling']


def updater(d, kmin, nmin=2, sizes=(300, 2000, 5000)):
    n, k = d.int(nmin, 25) if not d.chance(1, 12) else d.pick(sizes), d.int(kmin, 3)
    x = d.rng().uniform(-1, 1, size=(n, k)) * 10.0 ** d.arr((1, k), -1, 1) + d.arr((1, k), -2, 2)
    w = d.weights(n)
    up = qi.SMCUpdater(zoo.TableModel(2, 0, k), n, zoo.FixedPrior(x), resample_thresh=0)
    up.particle_weights = w.copy()
    return n, k, x, w, up


def cdf(t, x, w):
    s = np.argsort(x)
    return np.interp(t, x[s], np.cumsum(w[s]), left=0.0)


@sub('B08', 300, rule='at least three particles')
def marginal(d, case):
    """A marginal is the derivative of the interpolated cumulative weight of its parameter."""
    n, k, x, w, up = updater(d, 1)
    j = d.int(0, k - 1)
    xs = x[:, j]
    res = d.int(3, 120)
    kw = dict(idx_param=j, res=res)
    lo, hi = xs.min(), xs.max()
    span = hi - lo
    if d.bool():
        lo = lo - span * d.fl(0, 1) if d.bool() else lo + span * d.fl(0, 0.4)
        kw['range_min'] = lo
    if d.bool():
        hi = hi + span * d.fl(0, 1) if d.bool() else hi - span * d.fl(0, 0.4)
        kw['range_max'] = hi
    ps, pr = up.posterior_marginal(**kw)
    grid = np.linspace(lo, hi, res)
    close(ps, grid, 'axis', rtol=1e-9, atol=1e-9 * span)
    F = cdf(grid, xs, w)
    want = np.empty(res)
    dx = grid[1] - grid[0]
    want[0], want[-1] = (F[1] - F[0]) / dx, (F[-1] - F[-2]) / dx
    want[1:-1] = (F[2:] - F[:-2]) / (2 * dx)
    # grid points that coincide with a particle up to rounding may fall on either side
    near = np.min(np.abs(grid[:, None] - xs.min()), axis=1) < 1e-9 * span
    bad = np.convolve(near.astype(int), [1, 1, 1], 'same') > 0
    if 'range_min' not in kw:
        bad[:] = False
    close(pr[~bad], want[~bad], 'marginal density', rtol=1e-6, atol=1e-7 / span, parameter=j)
    req(pr >= -1e-9 / span, 'densities are not negative')
    req(np.array_equal(up.particle_weights, w), 'nothing is changed')
    case.hit(when=n > 2)


@sub('B08', 120, rule='a smoothing wider than three grid steps')
def smoothing(d, case):
    """Smoothing keeps the mass and the mean, and adds the stated variance."""
    n, k, x, w, up = updater(d, 1, nmin=4)
    j = d.int(0, k - 1)
    xs = x[:, j]
    span = np.ptp(xs)
    s = span * d.fl(0.05, 0.4)
    kw = dict(idx_param=j, res=d.int(200, 500), range_min=xs.min() - 3 * span, range_max=xs.max() + 3 * span)
    ps, p0 = up.posterior_marginal(**kw)
    ps1, p1 = up.posterior_marginal(smoothing=s, **kw)
    close(ps1, ps, 'axis')
    dx = ps[1] - ps[0]
    close(p1.sum() * dx, p0.sum() * dx, 'mass', rtol=1e-6)
    m0, m1 = [np.sum(ps * p) / p.sum() for p in (p0, p1)]
    v0, v1 = [np.sum((ps - m) ** 2 * p) / p.sum() for m, p in ((m0, p0), (m1, p1))]
    close(m1, m0, 'mean', rtol=0, atol=1e-3 * span)
    close(v1 - v0, s ** 2, 'variance added', rtol=0.06, atol=(0.6 * dx) ** 2)
    case.hit(when=s > 3 * dx)


@sub('B08', 250, rule='a mesh with different resolutions, or off-diagonal density')
def mesh(d, case):
    """A density mesh is, at each of its points, the kernel density estimate there."""
    n, k, x, w, up = updater(d, 2)
    a = d.int(0, k - 1)
    b = d.pick([i for i in range(k) if i != a])
    r1, r2 = d.int(2, 9), d.int(2, 9)
    s = d.logfl(0.05, 1)
    kw = dict(idx_param1=a, idx_param2=b, res1=r1, res2=r2, smoothing=s)
    if d.chance(1, 5) and n <= 200:
        # the documented defaults, some of them
        for f, v in dict(idx_param1=0, idx_param2=1, res1=100, res2=100, smoothing=0.01).items():
            if d.bool():
                del kw[f]
        a, b = kw.get('idx_param1', 0), kw.get('idx_param2', 1)
        r1, r2, s = kw.get('res1', 100), kw.get('res2', 100), kw.get('smoothing', 0.01)
    X, Y, P = up.posterior_mesh(**kw)
    for g in (X, Y, P):
        same_shape(g, (r2, r1), 'mesh')
    close(X[0], np.linspace(x[:, a].min(), x[:, a].max(), r1), 'first axis', rtol=1e-9, atol=1e-9)
    close(Y[:, 0], np.linspace(x[:, b].min(), x[:, b].max(), r2), 'second axis', rtol=1e-9, atol=1e-9)
    want = np.zeros((r2, r1))
    for i in range(r2):
        q = ((X[i, :, None] - x[:, a]) ** 2 + (Y[i, :, None] - x[:, b]) ** 2) / (2 * s * s)
        want[i] = np.sum(w * np.exp(-q), axis=1) / (2 * math.pi * s * s)
    close(P, want, 'density on the mesh', rtol=1e-8, atol=1e-12)
    case.hit(when=n > 2)


@sub('B08', 60, rule='the particles or weights changed')
def changing_cloud(d, case):
    """Marginals and meshes are those of the present particles and weights."""
    p, change, fresh, moved = zoo.changed_cloud(d, zoo.table_updater)
    k = p.particle_locations.shape[1]

    def ask(q):
        out = [v for j in range(k) for v in q.posterior_marginal(idx_param=j, res=30)]
        return out + (list(q.posterior_mesh(0, k - 1, res1=5, res2=4)) if k > 1 else [])
    ask(p)
    change()
    for a, b in zip(ask(p), ask(fresh)):
        close(a, b, 'marginal or mesh after the cloud changed', rtol=1e-12)
    case.hit(when=moved)
