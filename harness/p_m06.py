"""M06: models that move between measurements."""
import math

import numpy as np

from core import sub, req, close, same_shape, raises
import qinfer as qi
import zoo

ASSUMPTIONS = ['statistical comparisons reject at a per-case probability below 1e-9 under the stated law']


class Steps(qi.Distribution):
    """A step distribution that hands out recognisable steps and remembers them."""

    def __init__(self, k, rng):
        self.k, self.rng, self.log = k, rng, []

    n_rvs = property(lambda s: s.k)

    def sample(self, n=1):
        x = self.rng.randn(n, self.k)
        self.log.append(x)
        return x.copy()


@sub('M06', 200, rule='several models and several experiments')
def random_walk(d, case):
    """A random walk adds one drawn step per model and experiment, each drawn step used once."""
    fam = zoo.draw_two(d)
    k = fam.model.n_modelparams
    st = Steps(k, d.rng())
    m = qi.RandomWalkModel(fam.model, st)
    nm, ne = d.int(1, 5), d.int(1, 4)
    mps, eps = fam.mps(d, nm), fam.eps(d, ne)
    before = mps.copy()
    new = m.update_timestep(mps, eps)
    same_shape(new, (nm, k, ne), 'update_timestep')
    req(np.array_equal(mps, before), 'update_timestep leaves its argument unchanged')
    got = (new - mps[:, :, None]).transpose(0, 2, 1).reshape(-1, k)
    log = np.concatenate(st.log)
    req(len(log) == nm * ne, 'one step is drawn per model and experiment', got=len(log), expected=nm * ne)
    key = lambda a: np.round(a[np.lexsort(np.round(a, 6).T)], 6)
    close(key(got), key(log), 'the steps taken are the steps drawn', rtol=1e-5, atol=1e-5)
    case.hit(when=nm > 1 and ne > 1)


@sub('M06', 40, rule='always')
def mismatch(d, case):
    """A step distribution of the wrong dimension is refused."""
    fam = zoo.draw_two(d)
    k = fam.model.n_modelparams
    raises((TypeError, ValueError), lambda: qi.RandomWalkModel(fam.model, Steps(k + d.int(1, 2), None)),
           'a step distribution of the wrong dimension is refused')
    case.hit()


def std_normal(z, case, what, **info):
    """z: (samples, dims) should be iid standard normal."""
    n = z.shape[0]
    req(np.isfinite(z), what + ': finite', **info)
    m = z.mean(axis=0) * math.sqrt(n)
    req(np.abs(m) < 7.2, what + ': zero mean', standard_scores=m, **info)
    c = z.T.dot(z) / n
    k = z.shape[1]
    for i in range(k):
        for j in range(k):
            if i == j:
                s = (c[i, i] - 1) / math.sqrt(2.0 / n)
                req(-7.5 < s < 8.5, what + ': covariance', score=s, component=i, **info)
            else:
                s = c[i, j] * math.sqrt(n)
                req(abs(s) < 7.5, what + ': correlation', score=s, components=(i, j), **info)


@sub('M06', 150, rule='a proper subset walks, or the covariance is dense or learned')
def gaussian_walk(d, case):
    """Gaussian walks move the chosen parameters by noise of the stated covariance and scale,
    particle by particle, and leave every other parameter alone."""
    base = zoo.Table(d, k=2, lo=0, n_mp=d.int(1, 5))
    k = base.model.n_modelparams
    sel = d.pick(['all', 'slice', 'list'])
    if sel == 'all':
        idxs, arg = list(range(k)), 'all'
    elif sel == 'slice':
        a = d.int(0, k - 1)
        idxs, arg = list(range(a, k)), np.s_[a:k]
    else:
        idxs = sorted(set(d.ints(d.int(1, k), 0, k - 1).tolist()))
        if d.bool():
            d.rng().shuffle(idxs)
        arg = list(idxs) if d.bool() else np.array(idxs)
    w = len(idxs)
    fixed, diag = d.bool(), d.bool()
    r = d.rng()
    kw = dict(random_walk_idxs=arg, diagonal=diag)
    if fixed:
        if diag:
            cov = 10 ** r.uniform(d.pick([-3, -3, -14]), 1, size=w)
            kw['fixed_covariance'] = cov
            chol = np.diag(np.sqrt(cov))
        else:
            g = r.randn(w, w) + 0.3 * np.eye(w)
            kw['fixed_covariance'] = g.dot(g.T) + 0.01 * np.eye(w)
            chol = np.linalg.cholesky(kw['fixed_covariance'])
    sm = d.pick([None, 'e', 'fn'])
    if sm == 'e':
        kw['scale_mult'] = 'e'
        scale = lambda ep: ep['e']
    elif sm == 'fn':
        kw['scale_mult'] = lambda ep: 0.5 + ep['e'] ** 2
        scale = kw['scale_mult']
    else:
        scale = lambda ep: 1.0
    tr = d.bool()
    if tr:
        kw['model_transformation'] = (lambda x: 2 * x + 1, lambda y: (y - 1) / 2)
    m = qi.GaussianRandomWalkModel(base.model, **kw)
    extra = 0 if fixed else (w if diag else w * (w + 1) // 2)
    req(m.n_modelparams == k + extra, 'number of model parameters', got=m.n_modelparams, expected=k + extra)
    req(len(m.modelparam_names) == m.n_modelparams and len(set(m.modelparam_names)) == m.n_modelparams,
        'distinct parameter names', got=m.modelparam_names)
    ne = d.int(1, 3)
    eps = base.eps(d, ne)
    eps['e'] = 0.2 + eps['e'] + np.arange(ne)
    nm = 500
    mps = r.uniform(0, 1, size=(nm, k + extra))
    if extra:
        mps[:, k:] = r.uniform(0.1, 2, size=(nm, extra))
    before = mps.copy()
    d.np_seed()
    new = m.update_timestep(mps, eps)
    same_shape(new, (nm, k + extra, ne), 'update_timestep')
    req(np.array_equal(before, mps), 'update_timestep leaves its argument unchanged')
    others = [i for i in range(k + extra) if i not in idxs]
    for i in others:
        close(new[:, i, :], np.repeat(mps[:, i:i + 1], ne, axis=1), 'a parameter that does not walk stays put',
              rtol=1e-12, atol=1e-12, index=i)
    if not fixed:
        chol_p = np.zeros((nm, w, w))
        if diag:
            for i in range(w):
                chol_p[:, i, i] = mps[:, k + i]
        else:
            c = k
            for i in range(w):
                for j in range(i + 1):
                    chol_p[:, i, j] = mps[:, c]
                    c += 1
        cov_ref = np.mean([L.dot(L.T) for L in chol_p], axis=0)
    else:
        chol_p = np.repeat(chol[None], nm, axis=0)
        cov_ref = chol.dot(chol.T)
    close(m.est_update_covariance(mps), cov_ref, 'est_update_covariance', rtol=1e-8, atol=1e-10 * np.abs(cov_ref).min() if fixed and diag else 1e-10)
    zs = []
    for e in range(ne):
        step = (new[:, idxs, e] - mps[:, idxs]) * (2 if tr else 1)
        z = np.array([np.linalg.solve(chol_p[i], step[i]) for i in range(nm)]) / float(scale(eps[e:e + 1])[0]
                                                                                     if sm else 1.0)
        zs.append(z)
    zs = np.concatenate(zs, axis=1)        # independence across experiments included
    std_normal(zs, case, 'standardised steps', fixed=fixed, diagonal=diag, idxs=idxs, scale_mult=sm, transform=tr)
    lag = (zs[1:] * zs[:-1]).mean(axis=0) * math.sqrt(nm)
    req(np.abs(lag) < 7.5, 'steps of different particles are independent', scores=lag)
    case.hit(*(['fixed'] if fixed else ['learned']) + (['diag'] if diag else ['dense']),
             when=(w < k) or not diag or not fixed)


@sub('M06', 80, rule='the invalid row is not the only row')
def gaussian_walk_valid(d, case):
    """Learned standard deviations must be non-negative, and the underlying parameters valid."""
    fam = d.pick([zoo.Coin, zoo.T2, zoo.RB])(d)
    m = qi.GaussianRandomWalkModel(fam.model, diagonal=True)
    k = fam.model.n_modelparams
    n = d.int(1, 5)
    mps = np.concatenate([fam.mps(d, n), d.arr((n, k), 0.0, 1.0)], axis=1)
    bad = d.ints(n, 0, 2)
    mps[bad == 1, k + d.int(0, k - 1)] = -0.5
    mps[bad == 2, d.int(0, k - 1)] = -0.5
    v = m.are_models_valid(mps)
    req(np.asarray(v) == (bad == 0), 'validity of walking models', got=v, mps=mps)
    case.hit(when=n > 1 and (bad > 0).any())


@sub('M06', 60, rule='always')
def gaussian_walk_args(d, case):
    """Inconsistent covariance arguments are refused."""
    base = zoo.TableModel(2, 0, 3)
    kind = d.int(0, 4)
    w = d.int(1, 3)
    bad = dict([(0, dict(fixed_covariance=np.ones(w + 1), diagonal=True, random_walk_idxs=np.s_[:w])),
                (1, dict(fixed_covariance=np.eye(w), diagonal=True, random_walk_idxs=np.s_[:w])),
                (2, dict(fixed_covariance=np.eye(w + 1), diagonal=False, random_walk_idxs=np.s_[:w])),
                (3, dict(fixed_covariance=np.ones(w), diagonal=False, random_walk_idxs=np.s_[:w])),
                (4, dict(random_walk_idxs=np.s_[3:]))])[kind]
    raises((ValueError, IndexError), lambda: qi.GaussianRandomWalkModel(base, **bad), 'refused: %r' % (bad,))
    # indices that mean something else once the learned parameters are appended
    n = d.int(1, 4)
    idxs = d.pick([[-1], [-d.int(1, n)], np.s_[-1:], np.s_[d.int(0, n - 1):], np.s_[::-1], [n], np.s_[:n + 2],
                   np.array([0, -1][:n]), [-1, 0][:n], np.s_[::2]])
    try:
        m = qi.GaussianRandomWalkModel(zoo.TableModel(2, 0, n), random_walk_idxs=idxs, diagonal=d.bool())
    except (ValueError, IndexError):
        pass
    else:
        walks = set(np.arange(n)[idxs])
        x = np.ones((3, m.n_modelparams))
        d.np_seed()
        y = m.update_timestep(x, np.zeros(2, dtype=m.expparams_dtype))
        moved = set(np.flatnonzero((y != x[:, :, None]).any(axis=(0, 2))))
        req(moved == walks, 'the parameters that walk', got=sorted(moved), expected=sorted(walks), idxs=repr(idxs))
    case.hit()


@sub('M06', 100, rule='a state at the boundary or more than one experiment')
def diffusion(d, case):
    """Diffusing states remain states (unit trace, positive), diffuse at the stated rate, and keep
    their diffusion strength."""
    fam = zoo.Tomo(d, basis=d.pick(['p1', 'g3', 'p2']), diffusive=True)
    m = fam.model
    D = fam.basis.dim
    r = d.rng()
    ne = d.int(1, 3)
    eps = fam.eps(d, ne)
    interior = d.bool()
    if interior:
        nm = 600
        mps = np.zeros((nm, D * D + 1))
        mps[:, 0] = 1 / math.sqrt(D)
        mps[:, 1:-1] = 1e-3 * r.randn(nm, D * D - 1)
        mps[:, -1] = r.uniform(1e-4, 2e-3, size=nm)
        eps['t'] = 0.05 + eps['t']
        if d.chance(1, 3):     # strong diffusion over short times
            mps[:, -1] *= 1e4
            eps['t'] *= 1e-8
    else:
        nm = d.int(1, 6)
        mps = fam.mps(d, nm)
        mps[:, -1] = d.arr(nm, 0.001, 1.0)
    before = mps.copy()
    d.np_seed()
    new = m.update_timestep(mps, eps)
    same_shape(new, (nm, D * D + 1, ne), 'update_timestep')
    req(np.array_equal(before, mps), 'update_timestep leaves its argument unchanged')
    for e in range(ne):
        close(new[:, -1, e], mps[:, -1], 'diffusion strength is kept')
        close(new[:, 0, e], np.full(nm, 1 / math.sqrt(D)), 'trace stays one', rtol=0, atol=1e-9)
        if interior:
            z = (new[:, 1:-1, e] - mps[:, 1:-1]) / (mps[:, -1:] * math.sqrt(eps['t'][e]))
            std_normal(z, case, 'diffusion steps', t=eps['t'][e])
        else:
            for i in range(nm):
                rho = np.tensordot(new[i, :-1, e], fam.basis.data, 1)
                req(np.linalg.eigvalsh(rho).min() > -1e-8, 'states stay positive',
                    eigenvalues=np.linalg.eigvalsh(rho))
    case.hit(when=not interior or ne > 1)


@sub('M06', 120, rule='the decorated model moves')
def passes_through(d, case):
    """Binomial, amplified and poisoned models move exactly as the model they decorate."""
    class Drift(zoo.TableModel):
        def update_timestep(self, mps, eps):
            return mps[:, :, None] * 0.5 + eps['e'][None, None, :]

    class ScalarDrift(qi.SimplePrecessionModel):
        def update_timestep(self, mps, eps):
            return mps[:, :, None] * 0.5 + eps[None, None, :]
    scalar = d.bool()
    u = ScalarDrift() if scalar else Drift(2, 0, d.int(1, 3))
    kind = d.pick(['binom', 'mle', 'poison', 'hyper', 'mult', 'nest'])
    if kind == 'mult' and scalar:
        kind = 'binom'
    m = {'binom': lambda: qi.BinomialModel(u), 'mle': lambda: qi.MLEModel(u, 2),
         'poison': lambda: qi.PoisonedModel(u, tol=0.1), 'hyper': lambda: qi.GaussianHyperparameterizedModel(u),
         'mult': lambda: qi.MultinomialModel(u), 'nest': lambda: qi.MLEModel(qi.BinomialModel(u), 2)}[kind]()
    n, ne = d.int(1, 4), d.int(1, 3)
    mps = d.arr((n, m.n_modelparams), 0.1, 1)
    e = d.arr(ne, 0, 3)
    if m.expparams_dtype == 'float':
        eps = e
    else:
        eps = np.zeros(ne, dtype=m.expparams_dtype)
        eps['x' if scalar else 'e'] = e
    new = m.update_timestep(mps, eps)
    want = np.repeat(mps[:, :, None], ne, axis=2)
    k = u.n_modelparams
    want[:, :k, :] = mps[:, :k, None] * 0.5 + e[None, None, :]
    close(new, want, 'time step of a decorated model', kind=kind)
    case.hit(kind)


@sub('M06', 30, rule='more than a thousand models or experiments')
def large(d, case):
    """Each of thousands of models moves by noise of its own."""
    nm, ne = d.pick([(1200, 1), (5000, 1), (20000, 1), (1500, 3), (2, 1500), (70, 70)])
    base = zoo.TableModel(2, 0, d.int(1, 3))
    k = base.n_modelparams
    mps = d.rng().uniform(0.3, 0.7, size=(nm, k))
    eps = np.zeros(ne, dtype=base.expparams_dtype)
    d.np_seed()
    how = d.pick(['steps', 'normal', 'gaussian', 'learned'])
    if how == 'steps':
        m = qi.RandomWalkModel(base, qi.MultivariateNormalDistribution(np.zeros(k), np.eye(k)))
    elif how == 'normal':
        m = qi.RandomWalkModel(base, qi.ProductDistribution(*[qi.NormalDistribution(0, 1) for _ in range(k)]))
    elif how == 'gaussian':
        m = qi.GaussianRandomWalkModel(base, fixed_covariance=np.ones(k), diagonal=True)
    else:
        m = qi.GaussianRandomWalkModel(base)
        mps = np.concatenate([mps, np.ones((nm, k))], axis=1)
    new = m.update_timestep(mps, eps)
    same_shape(new, (nm, mps.shape[1], ne), 'update_timestep')
    step = new - mps[:, :, None]
    z = step[:, :k, :].reshape(-1)
    req(np.all(step[:, k:, :] == 0), 'other parameters stay')
    req(len(np.unique(z)) > z.size - 5, 'every step is drawn anew', distinct=len(np.unique(z)), steps=z.size, how=how)
    req(abs(z.mean()) * math.sqrt(z.size) < 7.5, 'steps have mean zero', mean=z.mean())
    req(abs((z ** 2).mean() - 1) * math.sqrt(z.size / 2) < 9, 'steps have variance one', var=(z ** 2).mean())
    case.hit(how, when=max(nm, ne) > 1000)


@sub('M06', 40, rule='always')
def two_of_a_kind(d, case):
    """The steps of one walking model are not those of another one made later."""
    fam = zoo.Table(d, n_mp=3)

    def make():
        diag, w = d.bool(), d.int(1, 3)
        kw = dict(random_walk_idxs=list(range(w)) if d.bool() else np.s_[3 - w:3], diagonal=diag)
        if d.bool():
            g = d.rng().randn(w, w)
            kw['fixed_covariance'] = d.arr(w, 0.1, 2) if diag else g.dot(g.T) + np.eye(w)
        kw['scale_mult'] = d.pick([None, 'e', lambda ep: 2 + ep['e']])
        if d.bool():
            c = d.fl(1, 3)
            kw['model_transformation'] = (lambda x: c * x, lambda x: x / c)
        return qi.GaussianRandomWalkModel(fam.model, **kw)
    m = make()
    mps = d.arr((4, m.n_modelparams), 0, 1)
    eps = fam.eps(d, 2)
    s, out = d.seed(), []
    for _ in range(2):
        np.random.seed(s)
        out.append((m.update_timestep(mps, eps), m.est_update_covariance(mps), m.are_models_valid(mps - 0.2)))
        for _ in range(3):
            make()
    for a, b in zip(*out):
        close(np.asarray(a, dtype=float), np.asarray(b, dtype=float), 'a walking model after others were made', rtol=1e-12)
    case.hit(when=True)
