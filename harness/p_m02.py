"""M02: likelihoods equal the documented formulas."""
import numpy as np

from core import sub, close, same_shape
import zoo

ASSUMPTIONS = ['model parameters are valid for the model']


def make(name, n, cls, **kw):
    def f(d, case):
        fam = cls(d)
        nm, ne = d.int(1, 6), d.int(1, 6)
        if fam.name.startswith('multinomial'):
            # the number of measurements of a multinomial likelihood call is that of its outcomes
            mps, eps = fam.mps(d, nm), fam.eps(d, ne, n_meas=d.int(1, 5))
        else:
            mps, eps = fam.mps(d, nm), fam.eps(d, ne)
        outs = fam.outcomes(eps[d.int(0, ne - 1)])
        no = d.int(1, 6)
        os = fam.draw_outcomes(d, eps[d.int(0, ne - 1)], no) if (outs is None or d.bool()) else outs
        if fam.name.startswith('binomial') and d.chance(1, 4):
            # more successes than measurements
            os = np.append(os, int(np.max(eps['n_meas'])) + d.int(1, 3))
        if fam.scalar and fam.name == 'precession' and d.chance(1, 4):
            # the documented record-array form of the scalar control
            e2 = np.zeros(ne, dtype=[('t', float)])
            e2['t'] = eps
            L = fam.model.likelihood(os, mps, e2)
        else:
            L = fam.model.likelihood(os, mps, eps)
        same_shape(L, (len(os), nm, ne), 'likelihood tensor')
        close(L, zoo.ref_table(fam, os, mps, eps), 'likelihood equals its documented formula',
              rtol=1e-7, atol=1e-10 if getattr(fam, 'power', 1) >= 1 else 1e-6, model=fam.name, outcomes=os, modelparams=mps, expparams=eps)
        case.hit(fam.name.split('(')[0], when=nm * ne * len(os) > 2)
    f.__name__ = name
    f.__doc__ = 'Likelihood of the %s model against a scalar reference.' % name
    sub('M02', n, rule='more than two tensor entries')(f)


make('precession', 60, zoo.Precession)
make('inversion', 80, zoo.Inversion)
make('unknown_t2', 80, zoo.T2)
make('coin', 50, zoo.Coin)
make('noisy_coin', 80, zoo.NoisyCoin)
make('die', 80, zoo.Die)
make('benchmarking', 150, zoo.RB)
make('tomography', 120, zoo.Tomo)
make('binomial', 200, zoo.Binom)
make('multinomial', 150, zoo.Multinom)
make('mle', 100, zoo.MLE)
make('gaussian_hyper', 120, zoo.GHyper)
make('random_walk', 60, zoo.Walk)
make('gaussian_walk', 80, zoo.GWalk)
make('nested_mle_binomial', 80, lambda d: zoo.MLE(d, under=zoo.Binom(d)))
make('nested_gwalk_binomial', 80, lambda d: zoo.GWalk(d, under=zoo.Binom(d)))


@sub('M02', 150, rule='at least one valid and one invalid row')
def validity_region(d, case):
    """The set of valid model parameters is the documented one, row by row."""
    import qinfer as qi
    fam = d.pick([zoo.Precession, zoo.T2, zoo.Coin, zoo.NoisyCoin, zoo.Die, zoo.RB, zoo.Binom, zoo.GHyper,
                  zoo.GHyper, zoo.GWalk, zoo.GWalk, zoo.Walk, zoo.MLE])(d)
    n = d.int(1, 5)
    good = fam.mps(d, n)
    v = fam.model.are_models_valid(good)
    same_shape(v, (n,), 'are_models_valid')
    base = fam
    while hasattr(base, 'u'):
        base = base.u
    from core import req
    req(v, 'valid parameter vectors are reported valid', model=fam.name, mps=good)
    bad = good.copy()
    rows = d.ints(n, 0, 1).astype(bool)
    if base.name in ('tomography', 'tomography_diffusive'):
        return
    col = d.int(0, base.model.n_modelparams - 1)
    bad[rows, col] = -0.01 - d.arr(n, 0, 2)[rows]
    v = fam.model.are_models_valid(bad)
    req(np.asarray(v) == ~rows, 'a negative parameter makes exactly its own row invalid', model=fam.name, mps=bad,
        got=v, expected=~rows)
    if base.name in ('coin', 'noisy_coin', 'rb', 'rb_interleaved', 'die'):
        bad = good.copy()
        bad[rows, col] = 1.001 + d.arr(n, 0, 2)[rows]
        v = fam.model.are_models_valid(bad)
        req(np.asarray(v) == ~rows, 'a probability above one makes exactly its own row invalid', model=fam.name,
            mps=bad, got=v)
    nb, nx = base.model.n_modelparams, fam.model.n_modelparams
    if fam.name.startswith('gaussian_') and nx > nb:
        # variances, and deviations of a diagonal walk, must not be negative, each of them
        hyper = fam.name.startswith('gaussian_hyper')
        lo = nb + 2 if hyper else nb
        if hyper or fam.diag:
            bad2 = good.copy()
            bad2[:, lo:] += d.pick([0, 5])
            neg = -0.01 - d.arr(n, 0, 2)[rows] if d.bool() else -d.logfl(1e-9, 1)
            for c in (range(lo, nx) if d.bool() else [d.int(lo, nx - 1)]):
                bad2[rows, c] = neg
            req(np.asarray(fam.model.are_models_valid(bad2)) == ~rows, 'a negative spread makes exactly its own row invalid',
                model=fam.name, mps=bad2)
        free = good.copy()
        if hyper:
            free[:, nb:nb + 2] *= -1
            req(fam.model.are_models_valid(free), 'any mean is valid', model=fam.name, mps=free)
    for i in range(n):
        req(bool(fam.model.is_model_valid(bad[i])) == bool(v[i]), 'is_model_valid agrees with are_models_valid',
            model=fam.name)
    case.hit(base.name, when=rows.any() and not rows.all())


@sub('M02', 100, rule='the sum of the die probabilities is off')
def die_threshold(d, case):
    """A die is valid exactly when its side probabilities sum to one within the threshold."""
    import qinfer as qi
    from core import req
    k = d.int(2, 6)
    th = d.pick([1e-7, 1e-3, 0.05])
    m = qi.NDieModel(n=k, threshold=th)
    x = zoo.simplex_points(d, 3, k)
    off = d.pick([0.0, 0.5, 0.9, 1.1, 2.0, 10.0]) * th * d.pick([1, -1])
    x[:, int(np.argmax(x[0]))] += 0
    y = x * (1 + off)
    v = m.are_models_valid(y)
    inb = ((y >= 0) & (y <= 1)).all(axis=1)
    req(np.asarray(v) == (inb & (abs(off) < th * 1.0000001)), 'die validity threshold', off=off, th=th, got=v)
    case.hit(when=off != 0)


@sub('M02', 120, rule='A + B or A p + B over one')
def rb_valid(d, case):
    """Benchmarking parameters are valid exactly when every survival probability is one."""
    import qinfer as qi
    from core import req
    il = d.bool()
    m = qi.RandomizedBenchmarkingModel(interleaved=il)
    n = d.int(1, 6)
    mps = d.arr((n, 4 if il else 3), 0.0, 1.0)
    A, B = mps[:, -2], mps[:, -1]
    if np.any(np.abs(A + B - 1) < 1e-9):
        return
    v = m.are_models_valid(mps)
    req(np.asarray(v) == (A + B <= 1), 'benchmarking validity', mps=mps, got=v)
    case.hit(when=(A + B > 1).any())


@sub('M02', 80, rule='a component narrower than 0.01')
def narrow_gaussians(d, case):
    """Gaussian components of any width have the normal density of their mean and variance."""
    import math
    import qinfer as qi
    u = zoo.draw_two(d)
    m = qi.GaussianHyperparameterizedModel(u.model)
    nm, ne = d.int(1, 4), d.int(1, 3)
    k = u.model.n_modelparams
    mu = d.arr((nm, 2), -3, 3)
    s2 = np.array([[d.logfl(1e-14, 1e6) for _ in (0, 1)] for _ in range(nm)])
    mps, eps = np.concatenate([u.mps(d, nm), mu, s2], axis=1), u.eps(d, ne)
    js, bs = d.ints(5, 0, nm - 1), d.ints(5, 0, 1)
    os = mu[js, bs] + np.sqrt(s2[js, bs]) * d.arr(5, -3, 3)
    L = m.likelihood(os, mps, eps)
    same_shape(L, (5, nm, ne), 'likelihood tensor')
    want = np.zeros(L.shape)
    for j in range(nm):
        for e in range(ne):
            for b in (0, 1):
                want[:, j, e] += u.ref(b, mps[j, :k], eps[e]) * np.exp(-(os - mu[j, b]) ** 2 / (2 * s2[j, b])) / math.sqrt(2 * math.pi * s2[j, b])
    for j in range(nm):
        close(L[:, j], want[:, j], 'density', rtol=1e-6, atol=1e-9 / math.sqrt(s2[j].min()), mps=mps[j], outcomes=os)
    case.hit(when=s2.min() < 1e-4)


@sub('M02', 80, rule='an outcome of more than a hundred and twenty-seven')
def many_counts(d, case):
    """Binomial likelihoods of hundreds of measurements, for counts of any integer type."""
    import qinfer as qi
    fam = zoo.draw_two(d)
    m = qi.BinomialModel(fam.model)
    n = d.pick([130, 200, 255, 300, 400])
    eps0 = fam.eps(d, 1)
    eps = np.zeros(1, dtype=m.expparams_dtype)
    if fam.scalar:
        eps['x'] = eps0
    else:
        for f in eps0.dtype.names:
            eps[f] = eps0[f]
    eps['n_meas'] = n
    mps = fam.mps(d, 3)
    t = d.pick([int, np.int64, np.uint, np.int32, np.uint32, np.int16])
    os = np.array(sorted(set(d.ints(12, 0, n).tolist())), dtype=t)
    p1 = fam.model.likelihood(np.array([1]), mps, eps0)[0, :, 0]
    import scipy.stats as ss
    want = np.array([[ss.binom.pmf(int(o), n, min(max(p, 0), 1)) for p in p1] for o in os])
    close(m.likelihood(os, mps, eps)[:, :, 0], want, 'binomial likelihood of many measurements', rtol=1e-7, atol=1e-13,
          type=str(np.dtype(t)), n=n)
    case.hit(when=os.max() > 127)
