"""S01: the simple estimation functions report the posterior of the data they are given."""
import io
import math
import os
import tempfile

import numpy as np
from scipy.special import gammaln

from core import sub, req, close, same_shape, raises
import qinfer as qi
from qinfer import simple_est as se

ASSUMPTIONS = ['posterior moments are compared with a dense grid or a large importance sample, up to eight standard '
               'errors of the particle approximation with half the particles effective',
               'data are mild enough for the posterior to be covered by prior particles']


def lbinom(n, k, p):
    p = np.clip(p, 1e-300, 1)
    q = np.clip(1 - p, 1e-300, 1)
    return gammaln(n + 1) - gammaln(k + 1) - gammaln(n - k + 1) + k * np.log(p) + (n - k) * np.log(q)


def give(d, cols, names, rows):
    """The same data in one of the accepted forms."""
    form = d.int(0, 4)
    if form == 0:
        return np.array(rows, dtype=float), 'array'
    if form == 1:
        t = [(n, float if c == 'f' else int) for n, c in zip(names, cols)]
        extra = d.bool()
        order = list(d.rng().permutation(len(t)))
        t2 = [t[i] for i in order] + ([('comment', float)] if extra else [])
        a = np.zeros(len(rows), dtype=t2)
        for i, n in enumerate(names):
            a[n] = [r[i] for r in rows]
        if extra:
            a['comment'] = 99
        return a, 'records'
    text = ''.join(','.join(('%.17g' % v) if c == 'f' else '%d' % v for c, v in zip(cols, r)) + '\n' for r in rows)
    if form in (2, 3):
        return io.StringIO(text), 'file-like'
    fd, path = tempfile.mkstemp(suffix='.csv', dir=os.environ.get('VERIF_SCRATCH'))
    with os.fdopen(fd, 'w') as f:
        f.write(text)
    return path, 'file'


def done(data):
    if isinstance(data, str):
        os.unlink(data)


def moments(lw, x):
    w = np.exp(lw - lw.max())
    w /= w.sum()
    mu = w.dot(x)
    return mu, np.einsum('i,ij,ik->jk', w, x - mu, x - mu), 1 / np.sum(w ** 2)


@sub('S01', 60, rule='a lower bound above zero or at least two rows')
def precession(d, case):
    """Posterior mean and variance of a precession frequency, for every form of the data."""
    lo = d.pick([0.0, 0.0, d.fl(0.05, 0.6)])
    hi = lo + d.fl(0.2, 1.5)
    kw = {}
    if lo or d.bool():
        kw['freq_min'] = lo
    if d.chance(1, 5) and lo == 0:
        hi = 1.0
    else:
        kw['freq_max'] = hi
    n = d.pick([1000, 2000])
    R = d.int(1, 6) if d.chance(5, 6) else d.int(7, 150)
    g = d.rng()
    w = g.uniform(lo, hi)
    rows = []
    for _ in range(R):
        t = g.uniform(0.2, 3.0) / hi
        shots = g.randint(1, 25) if R <= 6 else g.randint(1, 3)
        rows.append((g.binomial(shots, math.sin(w * t / 2) ** 2), t, shots))
    data, form = give(d, 'ifi', ('counts', 't', 'n_shots'), rows)
    copy = data.copy() if isinstance(data, np.ndarray) else None
    d.np_seed()
    ret = d.bool()
    out = se.simple_est_prec(data, n_particles=n, return_all=ret, **kw)
    done(data)
    if copy is not None:
        req(np.array_equal(copy, data), 'the data are left alone')
    req(len(out) == (3 if ret else 2), 'number of results')
    mean, var = out[:2]
    req(np.ndim(mean) == 0 and np.ndim(var) == 0, 'scalar results', got=out[:2])
    x = np.linspace(lo, hi, 20001)
    lw = sum(lbinom(s, c, np.sin(x * t / 2) ** 2) for c, t, s in rows)
    mu, C, _ = moments(lw, x[:, None])
    v = C[0, 0]
    neff = min(n, n * moments(lw, x[:, None])[2] / len(x)) / 2 + 5
    tol = 8 * math.sqrt(v / neff)
    req(abs(mean - mu[0]) < tol + 1e-9, 'posterior mean', got=mean, expected=mu[0], tolerance=tol, rows=rows, form=form, options=kw)
    req(abs(var - v) < 8 * v * math.sqrt(3. / neff) + 1e-12, 'posterior variance', got=var, expected=v, rows=rows, form=form, options=kw)
    if ret:
        up = out[2]['updater']
        req(isinstance(up, qi.SMCUpdater) and up.n_particles == n, 'updater')
        close([up.est_mean()[0], up.est_covariance_mtx()[0, 0]], [mean, var], 'moments of the updater', rtol=1e-9, atol=1e-12)
        req(sorted(int(np.ravel(o)[0]) for o in up.data_record) == sorted(r[0] for r in rows), 'every row is used once',
            got=up.data_record, rows=rows)
        if up.resample_count == 0:
            locs = up.particle_locations
            req((locs >= lo) & (locs <= hi), 'frequencies between the bounds', bounds=(lo, hi))
    case.hit(form, when=lo > 0 or R > 1)


@sub('S01', 40, rule='always')
def benchmarking(d, case):
    """Posterior moments of (interleaved) randomized benchmarking."""
    il = d.bool()
    lo, hi = d.pick([(0.0, 1.0), (d.fl(0, 0.5), 1.0), (d.fl(0.3, 0.6), d.fl(0.7, 1))])
    kw = {}
    if lo or d.bool():
        kw['p_min'] = lo
    if hi < 1 or d.bool():
        kw['p_max'] = hi
    if il or d.bool():
        kw['interleaved'] = il
    R = d.int(1, 5) if d.chance(5, 6) else d.int(6, 90)
    g = d.rng()
    true = g.uniform([lo] * (2 if il else 1) + [0.3, 0.1], [hi] * (2 if il else 1) + [0.5, 0.4])

    def pr(x, m, ref):
        p = (np.where(ref, x[..., 1], x[..., 0] * x[..., 1]) if il else x[..., 0])
        return x[..., -2] * p ** m + x[..., -1]
    rows = []
    for _ in range(R):
        m, ref, shots = g.randint(1, 20), g.randint(0, 2), g.randint(1, 12 if R <= 5 else 3)
        c = g.binomial(shots, pr(true, m, ref))
        rows.append((c, m, shots) + ((ref,) if il else ()))
    names = ('counts', 'm', 'n_shots') + (('reference',) if il else ())
    data, form = give(d, 'iii' + ('i' if il else ''), names, rows)
    d.np_seed()
    n = 1500
    out = se.simple_est_rb(data, n_particles=n, return_all=True, **kw)
    done(data)
    mean, cov, extra = out
    k = 4 if il else 3
    same_shape(mean, (k,), 'mean')
    same_shape(cov, (k, k), 'covariance')
    up = extra['updater']
    req(up.n_particles == n and sorted(int(np.ravel(o)[0]) for o in up.data_record) == sorted(r[0] for r in rows), 'every row is used once',
        got=up.data_record, rows=rows)
    close(up.est_mean(), mean, 'mean of the updater')
    close(up.est_covariance_mtx(), cov, 'covariance of the updater', rtol=1e-9, atol=1e-12)
    x = g.uniform([lo] * (k - 2) + [0, 0], [hi] * (k - 2) + [1, 1], size=(40000, k))
    A, B = x[:, -2], x[:, -1]
    x = x[A + B <= 1]
    lw = sum(lbinom(r[2], r[0], np.clip(pr(x, r[1], r[3] if il else 1), 0, 1)) for r in rows)
    mu, C, ess = moments(lw, x)
    frac = ess / len(x)
    neff = 1 / (1 / (n * frac / 2 + 2) + 1 / ess)
    if frac < 0.05:
        return       # data that hardly any prior sample explains
    slack = 0.5 if up.resample_count else 0     # resampling keeps moments, not the shape
    sd = np.sqrt(np.diag(C))
    req(np.abs(mean - mu) < (8 / math.sqrt(neff) + slack) * sd, 'posterior mean', got=mean, expected=mu, tolerance=8 * sd / math.sqrt(neff),
        rows=rows, form=form, options=kw)
    req(np.abs(cov - C) < (8 * math.sqrt(6 / neff) + 2 * slack) * np.outer(sd, sd), 'posterior covariance', got=cov, expected=C, rows=rows, options=kw)
    if not up.resample_count:
        req((up.particle_locations[:, :k - 2] >= lo) & (up.particle_locations[:, :k - 2] <= hi), 'parameters between the bounds')
        req(up.model.are_models_valid(up.particle_locations), 'parameters are valid')
    case.hit(form, 'interleaved' if il else 'plain', 'resampled' if slack else 'not resampled')


@sub('S01', 60, rule='at least two rows')
def forms_agree(d, case):
    """All the forms of the same data give the same result."""
    R = d.int(1, 5)
    il = d.bool()
    g = d.rng()
    rows = []
    for _ in range(R):
        s = g.randint(1, 4)
        rows.append((g.randint(0, s + 1), g.randint(1, 9), s, g.randint(0, 2)))
    s = d.seed()
    names, cols = ('counts', 'm', 'n_shots', 'reference'), 'iiii'
    if not il:
        rows, names, cols = [r[:3] for r in rows], names[:3], cols[:3]
    outs = []
    for _ in range(2):
        data, form = give(d, cols, names, rows)
        np.random.seed(s)
        outs.append((form, se.simple_est_rb(data, interleaved=il, n_particles=300)))
        done(data)
    close(outs[0][1][0], outs[1][1][0], 'means', rtol=1e-7, atol=1e-9, forms=(outs[0][0], outs[1][0]))
    close(outs[0][1][1], outs[1][1][1], 'covariances', rtol=1e-6, atol=1e-9, forms=(outs[0][0], outs[1][0]))
    rows = [(r[0], float(r[1]) / 3, r[2]) for r in rows]
    outs = []
    for _ in range(2):
        data, form = give(d, 'ifi', ('counts', 't', 'n_shots'), rows)
        np.random.seed(s)
        outs.append((form, se.simple_est_prec(data, n_particles=300)))
        done(data)
    close(outs[0][1], outs[1][1], 'precession', rtol=1e-6, atol=1e-9, forms=(outs[0][0], outs[1][0]))
    raises(TypeError, lambda: se.simple_est_prec(d.pick([3, None, object()]), n_particles=10), 'no data')
    case.hit(when=R > 1)


@sub('S01', 100, rule='records')
def columns(d, case):
    """Columns are picked by position in plain arrays and by name in records."""
    R = d.int(1, 5)
    g = d.rng()
    k = d.int(2, 5)
    perm = list(g.permutation(k))
    raw = g.randint(0, 50, size=(R, k)) * 1.0
    names = ['c%d' % i for i in range(k)]
    rec = d.bool()
    if rec:
        data = np.zeros(R, dtype=[(n, float) for n in names])
        for i, n in enumerate(names):
            data[n] = raw[:, i]
    else:
        data = raw.copy()
    out = (perm[0], names[perm[0]])
    if k == 2 or d.bool():
        o, e = se.data_to_params(data, float, col_outcomes=out, cols_expparams=(perm[1], names[perm[1]]))
        close(e, raw[:, perm[1]], 'scalar experiments')
    else:
        fields = {'f%d' % j: (perm[j], names[perm[j]]) for j in range(1, k)}
        dt = [(f, d.pick([float, 'uint', int])) for f in fields]
        o, e = se.data_to_params(data, dt, col_outcomes=out, cols_expparams=fields)
        for f, (i, _) in fields.items():
            close(e[f], raw[:, i], 'field of the experiments', field=f)
    req(o.dtype.kind == 'i', 'integer outcomes')
    close(o, raw[:, perm[0]].astype(int), 'outcomes')
    case.hit(when=rec)
