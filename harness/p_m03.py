"""M03: simulated data follow the likelihood."""
import math

import numpy as np
import scipy.stats as ss

from core import sub, req, close, same_shape
import qinfer as qi
import zoo

ASSUMPTIONS = ['statistical comparisons reject at a per-case probability below 1e-9 under the stated law']


def draw_sim(d):
    c = d.pick(zoo.TWO + [zoo.Die, zoo.Binom, zoo.Multinom, zoo.Walk, zoo.GWalk, zoo.Table, zoo.VarTable,
                          zoo.GHyper, 'nest1', 'nest2', zoo.MLE, 'poison'])
    if c == 'nest1':
        return zoo.Walk(d, under=d.pick([zoo.Die, zoo.Table, zoo.VarTable, zoo.Binom])(d))
    if c == 'nest2':
        return zoo.GWalk(d, under=zoo.Binom(d))
    if c == 'poison':
        import qinfer as qi
        u = zoo.draw_two(d)
        u.model = qi.PoisonedModel(u.model, tol=0.3)
        u.name = 'poisoned(%s)' % u.name
        return u
    return c(d)


def datum(fam, o):
    return o


def true_ref(fam):
    """Data of an MLE model come from the model it amplifies."""
    return fam.u.ref if isinstance(fam, zoo.MLE) else fam.ref


def prepare(d, fam, nm, ne, small=True):
    if isinstance(fam, zoo.Binom):
        eps = fam.eps(d, ne, n_meas=d.ints(ne, 1, 4))
    else:
        eps = fam.eps(d, ne)
    return fam.mps(d, nm), eps


@sub('M03', 600, rule='more than one axis longer than one')
def shape_and_domain(d, case):
    """Shape (repetition, model, experiment), scalar for one datum; every datum possible in its experiment."""
    fam = draw_sim(d)
    nm, ne, rep = d.int(1, 4), d.int(1, 4), d.int(1, 5)
    mps, eps = fam.mps(d, nm), fam.eps(d, ne)
    mps0, eps0 = mps.copy(), eps.copy()
    d.np_seed()
    data = fam.model.simulate_experiment(mps, eps, repeat=rep) if (rep > 1 or d.bool()) else \
        fam.model.simulate_experiment(mps, eps)
    req(np.array_equal(mps, mps0) and np.array_equal(eps, eps0), 'simulation leaves its arguments unchanged')
    if (nm, ne, rep) == (1, 1, 1):
        req(np.ndim(data) == 0, 'one datum is a scalar', model=fam.name, got=data)
        data = np.asarray(data).reshape(1, 1, 1)
    else:
        same_shape(data, (rep, nm, ne), 'simulated data of %s' % fam.name)
    ref = true_ref(fam)
    for k in range(ne):
        dom = fam.model.domain(eps[k:k + 1])[0]
        req(dom.in_domain(np.ascontiguousarray(data[:, :, k]).reshape(-1)), 'data lie in the domain', model=fam.name,
            data=data[:, :, k])
        for j in range(nm):
            for r in range(rep):
                req(ref(data[r, j, k], mps[j], eps[k]) > 1e-13, 'a datum of zero probability was produced',
                    model=fam.name, datum=data[r, j, k], mps=mps[j], eps=eps[k])
    case.hit(fam.name.split('(')[0], when=(nm > 1) + (ne > 1) + (rep > 1) >= 2)


def chi2_ok(obs, p, n):
    """Pool cells expected below 8; exact binomial tail for two cells."""
    order = np.argsort(p)[::-1]
    obs, p = np.asarray(obs)[order], np.asarray(p, float)[order]
    cells, co, cp = [], 0, 0.0
    for o, q in zip(obs, p):
        co += o
        cp += q
        if cp * n >= 8:
            cells.append((co, cp))
            co, cp = 0, 0.0
    if cells and cp > 0:
        o, q = cells.pop()
        cells.append((o + co, q + cp))
    if len(cells) < 2:
        return True, 1.0
    e = np.array([q * n for _, q in cells])
    e = e * n / e.sum()
    stat = sum((o - x) ** 2 / x for (o, _), x in zip(cells, e))
    # generous: chi-square tail with a floor for discreteness
    return stat < ss.chi2.isf(1e-12, len(cells) - 1) + 12, stat


@sub('M03', 220, rule='an experiment with at least two outcomes of sizeable probability')
def frequencies(d, case):
    """Outcome frequencies for each model and experiment are those of the likelihood."""
    fam = draw_sim(d)
    nm, ne = d.int(1, 3), d.int(1, 3)
    mps, eps = prepare(d, fam, nm, ne)
    rep = 1500
    d.np_seed()
    data = fam.model.simulate_experiment(mps, eps, repeat=rep)
    same_shape(data, (rep, nm, ne), 'simulated data of %s' % fam.name)
    ref = true_ref(fam)
    for k in range(ne):
        outs = fam.outcomes(eps[k])
        for j in range(nm):
            x = data[:, j, k]
            if outs is None:
                kk = fam.u.model.n_modelparams
                p = [fam.u.ref(b, mps[j][:kk], eps[k]) for b in (0, 1)]

                def cdf(t):
                    return sum(p[b] * ss.norm.cdf(t, mps[j][kk + b], math.sqrt(mps[j][kk + 2 + b])) for b in (0, 1))
                dn = ss.kstest(x, cdf).statistic
                req(dn * math.sqrt(rep) < 3.4, 'simulated outcomes follow the density', model=fam.name, D=dn,
                    mps=mps[j], eps=eps[k], data=x)
                case.hit('continuous')
                continue
            keys = [str(np.asarray(o).tolist()) for o in outs]
            pos = {s: i for i, s in enumerate(keys)}
            obs = np.zeros(len(outs))
            for v in x:
                s = str(np.asarray(v).tolist())
                req(s in pos, 'datum outside of the domain', model=fam.name, got=v)
                obs[pos[s]] += 1
            p = [max(ref(o, mps[j], eps[k]), 0) for o in outs]
            req(not np.any(obs[np.array(p) == 0]), 'data of probability zero', model=fam.name, counts=obs, probabilities=p)
            ok, stat = chi2_ok(obs, p, rep)
            req(ok, 'outcome frequencies follow the likelihood', model=fam.name, chi2=stat, counts=obs,
                probabilities=p, mps=mps[j], eps=eps[k])
            case.hit(fam.name.split('(')[0], when=sorted(p)[-2:][0] > 0.05 and len(p) > 1)


@sub('M03', 240, rule='at least two cells with non-degenerate outcomes')
def independent(d, case):
    """Data are independent across repetitions, models and experiments."""
    fam = zoo.VarTable(d) if d.chance(1, 10) else draw_sim(d)
    nm, ne = (d.int(1, 3), d.int(1, 3)) if d.chance(2, 3) else d.pick([(1, 7), (7, 1), (2, 5)])
    mps, eps = prepare(d, fam, nm, ne)
    rep = 800
    d.np_seed()
    data = fam.model.simulate_experiment(mps, eps, repeat=rep)
    same_shape(data, (rep, nm, ne), 'simulated data')
    cells = []
    for k in range(ne):
        for j in range(nm):
            x = data[:, j, k]
            x = np.array([np.asarray(v['k']).reshape(-1)[0] for v in x]) if x.dtype.names else x
            x = x.astype(float)
            if fam.outcomes(eps[k]) is None:
                # ranks: the mixture has no fixed scale
                x = ss.rankdata(x)
            if np.std(x) > 0:
                s = (x - x.mean()) / x.std()
                if np.mean(np.abs(s) < 5) == 1:
                    cells.append(s)
    for a in range(len(cells)):
        lag = float(np.mean(cells[a][1:] * cells[a][:-1])) * math.sqrt(rep)
        req(abs(lag) < 7.5, 'repetitions are independent', model=fam.name, lag1=lag)
        for b in range(a):
            c = float(np.mean(cells[a] * cells[b])) * math.sqrt(rep)
            req(abs(c) < 7.5, 'different models and experiments are independent', model=fam.name, correlation=c)
    case.hit(fam.name.split('(')[0], when=len(cells) > 1)


@sub('M03', 120, rule='two different seeds gave different data')
def reproducible(d, case):
    """The data are a function of NumPy's global random state and the arguments."""
    fam = draw_sim(d)
    mps, eps = fam.mps(d, 3), fam.eps(d, 3)
    s = d.seed()
    out = []
    for seed in (s, s, s ^ 1):
        np.random.seed(seed)
        out.append(np.ascontiguousarray(fam.model.simulate_experiment(mps, eps, repeat=9)).tobytes())
    req(out[0] == out[1], 'same random state, different data', model=fam.name, first=out[0], second=out[1])
    case.hit(when=out[0] != out[2])


@sub('M03', 60, rule='more than two hundred measurements, or outcomes')
def large_domains(d, case):
    """Experiments with many measurements or many outcomes give data of the right mean and spread."""
    which = d.pick(['binomial', 'multinomial', 'table'])
    nm, ne, rep = d.int(1, 3), d.int(1, 3), 400
    d.np_seed()
    if which == 'table':
        fam = zoo.VarTable(d)
        mps, eps = fam.mps(d, nm), fam.eps(d, ne)
        eps['k'] = d.ints(ne, 100, 700)
        data = fam.model.simulate_experiment(mps, eps, repeat=rep)
        same_shape(data, (rep, nm, ne), 'simulated data')
        big = int(eps['k'].max())
        for e in range(ne):
            os = fam.outcomes(eps[e])
            req(np.isin(data[:, :, e], os), 'data lie in the domain', experiment=eps[e])
            L = fam.model.likelihood(os, mps, eps[e:e + 1])[:, :, 0]
            for m in range(nm):
                mean = L[:, m].dot(os)
                sd = math.sqrt(L[:, m].dot((os - mean) ** 2))
                s = (np.mean(data[:, m, e]) - mean) / sd * math.sqrt(rep)
                req(abs(s) < 7.5, 'mean of the data', score=s, experiment=eps[e])
    else:
        fam = zoo.Binom(d) if which == 'binomial' else zoo.Multinom(d)
        big = d.pick([300, 5000, 40000, 10 ** 6, 10 ** 9])
        mps, eps = fam.mps(d, nm), fam.eps(d, ne, n_meas=d.ints(ne, big // 2, big))
        data = fam.model.simulate_experiment(mps, eps, repeat=rep)
        same_shape(data, (rep, nm, ne), 'simulated data')
        for e in range(ne):
            n = int(eps['n_meas'][e])
            for m in range(nm):
                for i, o in enumerate(fam.u.outcomes(None)):
                    if which == 'binomial' and i == 0:
                        continue
                    x = np.asarray(data[:, m, e] if which == 'binomial' else data['k'][:, m, e, ..., i] if data.dtype.names and 'k' in data.dtype.names else None, dtype=float).reshape(rep)
                    p = min(max(fam.u.ref(o, mps[m], fam.uep(eps[e])), 0), 1)
                    req((x >= 0) & (x <= n), 'data lie in the domain', n_meas=n)
                    v = n * p * (1 - p)
                    if v < 30:
                        continue
                    s = (x.mean() - n * p) / math.sqrt(v / rep)
                    req(abs(s) < 7.5, 'mean of the data', model=fam.name, score=s, n_meas=n, p=p)
                    s = (np.mean((x - n * p) ** 2) / v - 1) * math.sqrt(rep / 2)
                    req(-8 < s < 9, 'spread of the data', model=fam.name, score=s, n_meas=n, p=p)
    case.hit(which, when=big > 200)


def no_echo(v, msg, **info):
    """Rows of v, identically distributed and independent, do not repeat at any lag."""
    v = np.asarray(v, dtype=float)
    n = len(v)
    v = v - v.mean()
    f = np.fft.rfft(v, 4 * n)
    ac = np.fft.irfft(f * np.conj(f))[1:n - n // 10]
    z = ac / (v.var() * np.sqrt(n - np.arange(1, len(ac) + 1)))
    i = int(np.argmax(np.abs(z)))
    req(abs(z[i]) < 9, msg, lag=i + 1, z=z[i], **info)


@sub('M03', 40, rule='more than two thousand repetitions or models, or five hundred experiments')
def large(d, case):
    """However many repetitions, models and experiments are simulated at once, all draws are independent and follow
    the likelihood."""
    which = d.pick(['table', 'variable', 'die', 'precession', 'binomial'])
    rep, nm, ne = d.pick([(5000, 1, 1), (3000, 2, 2), (1, 4000, 1), (3, 2000, 2), (1, 1, 3000), (2, 3, 600), (1, 60, 60),
                          (80, 80, 1), (20000, 1, 1)])
    if which == 'variable' and ne > 100:
        which = 'table'
    r = d.rng()
    if which in ('table', 'variable'):
        m = zoo.TableModel(d.pick([3, 16, 40]), d.pick([0, 2]), 1) if which == 'table' else zoo.VarTableModel(3, 0, 1)
        mps, eps = np.full((nm, 1), r.uniform(0.1, 0.9)), np.zeros(ne, dtype=m.expparams_dtype)
        eps['e'] = r.uniform(0, 6)
        if which == 'variable':
            eps['k'] = 16
    elif which == 'die':
        m = qi.NDieModel(d.pick([6, 30]))
        mps, eps = np.tile(r.dirichlet(np.ones(m.n_modelparams)), (nm, 1)), np.zeros(ne, dtype=m.expparams_dtype)
    else:
        m = qi.SimplePrecessionModel()
        mps = np.full((nm, 1), r.uniform(0.4, 0.6))
        eps = np.full(ne, 1.0 + r.uniform())
        if which == 'binomial':
            m = qi.BinomialModel(m)
            t = eps
            eps = np.zeros(ne, dtype=m.expparams_dtype)
            eps['x'], eps['n_meas'] = t, 40
    d.np_seed()
    data = m.simulate_experiment(mps, eps, repeat=rep)
    same_shape(data, (rep, nm, ne), 'simulated data')
    data = np.asarray(data, dtype=float)
    os = np.asarray(m.domain(eps[:1])[0].values, dtype=float)
    p = m.likelihood(np.asarray(m.domain(eps[:1])[0].values), mps[:1], eps[:1])[:, 0, 0]
    req(np.isin(data, os), 'data lie in the domain')
    mu = p.dot(os)
    var = p.dot((os - mu) ** 2)
    if var * data.size < 30:
        return
    z = (data.mean() - mu) / math.sqrt(var / data.size)
    top = np.abs(os - mu).max() / math.sqrt(var)
    if top < math.sqrt(data.size) / 30:
        req(abs(z) < 7.5, 'mean of the data', z=z)
        for a, name in enumerate(['repetitions', 'models', 'experiments']):
            no_echo(np.moveaxis(data, a, 0).reshape(-1), 'data are independent along the axis of ' + name, model=which,
                    shape=data.shape)
    case.hit(which, when=max(rep, nm) >= 2000 or ne >= 500)


@sub('M03', 80, rule='several models or several experiments')
def overwritten_arrays(d, case):
    """Simulated again after the same arrays were overwritten, data follow what they hold now."""
    fam = draw_sim(d)
    nm, ne = d.int(1, 3), d.int(1, 3)
    mps, eps = (a.copy() for a in prepare(d, fam, nm, ne))
    np.random.seed(1)
    fam.model.simulate_experiment(mps, eps, repeat=3)
    which = d.pick(['models', 'experiments', 'both'])
    new_m, new_e = prepare(d, fam, nm, ne)
    if which != 'experiments':
        mps[...] = new_m
    if which != 'models':
        eps[...] = new_e
    s, out = d.seed(), []
    for a, b in ((mps, eps), (mps.copy(), eps.copy())):
        np.random.seed(s)
        out.append(np.ascontiguousarray(fam.model.simulate_experiment(a, b, repeat=40)).tobytes())
    req(out[0] == out[1], 'data of overwritten arrays', model=fam.name, overwritten=which)
    case.hit(fam.name.split('(')[0], when=nm > 1 or ne > 1)
