"""H01: experiment-design heuristics and the experiment designer."""
import math

import warnings

import numpy as np

from core import sub, req, close, same_shape, raises
import qinfer as qi
import stats
import zoo

ASSUMPTIONS = ['statistical comparisons reject at a per-case probability below 1e-9 under the stated law',
               'objectives are smooth in the designed field',
               'the reference objective is computed from the likelihood by enumeration of the two outcomes']


# ------------------------------------------------------------------ heuristics

def history(d, up, fam, eps_of):
    """Run a few updates; returns the number of performed experiments."""
    n = 0
    for _ in range(d.int(0, 4)):
        e = eps_of(d)
        if d.chance(1, 4):
            es = np.concatenate([e, eps_of(d)])
            up.batch_update(np.array([0, 0]), es)
            n += 2
        else:
            up.update(d.int(0, 1), e)
            n += 1
    return n


@sub('H01', 150, rule='at least one experiment before, base not one')
def exp_sparse(d, case):
    """Times grow as A b^k with the number k of performed experiments; the other fields are as given."""
    kind = d.int(0, 2)
    A, b = d.fl(0.1, 3), d.pick([9 / 8, 2, 1.5, 1, 0.75])
    kw = {}
    if d.chance(4, 5):
        kw['scale'] = A
    else:
        A = 1
    if d.chance(4, 5):
        kw['base'] = b
    else:
        b = 9 / 8
    if kind == 0:
        m = qi.SimplePrecessionModel()
        up = qi.SMCUpdater(m, 8, qi.UniformDistribution([0, 1]), zero_weight_policy='ignore')
        eps_of = lambda d: np.array([d.fl(0, 3)], dtype=m.expparams_dtype)
        other = {}
    else:
        m = qi.SimpleInversionModel() if kind == 1 else qi.BinomialModel(qi.SimpleInversionModel())
        up = qi.SMCUpdater(m, 8, qi.UniformDistribution([0, 1]), zero_weight_policy='ignore')

        def eps_of(d):
            e = np.zeros(1, dtype=m.expparams_dtype)
            e['t'], e['w_'] = d.fl(0, 3), d.fl(0, 1)
            if kind == 2:
                e['n_meas'] = 5
            return e
        kw['t_field'] = 't'
        other = {'w_': d.fl(0, 1)}
        if kind == 2:
            other['n_meas'] = d.int(1, 9)
        if kind == 1 and d.chance(1, 5):
            other = {}
            kw.update({'other_fields': None} if d.bool() else {})
        else:
            kw['other_fields'] = dict(other)
    h = qi.ExpSparseHeuristic(up, **kw)
    k = 0
    for _ in range(d.int(1, 3)):
        k += history(d, up, None, eps_of)
        e = h()
        same_shape(e, (1,), 'a designed experiment')
        req(e.dtype == np.dtype(m.expparams_dtype), 'dtype of a designed experiment', got=e.dtype)
        close(float(e['t'][0]) if kind else float(e[0]), A * b ** k, 'evolution time A b^k', rtol=1e-12,
              k=k, A=A, b=b)
        for f, v in other.items():
            close(float(e[f][0]), v, 'other field ' + f, rtol=0, atol=0)
        req(len(up.data_record) == k, 'designing changed the data record')
    if kind:
        req(kw.get('other_fields') in (None, other), 'the given fields were changed')
    case.hit('scalar' if kind == 0 else 'record', 'defaults' if len(kw) < 2 else 'given', when=k > 0 and b != 1)


class Impossible(qi.SimplePrecessionModel):
    """Outcome 1 is impossible."""

    def likelihood(self, outcomes, modelparams, expparams):
        os = np.ravel(outcomes)
        return np.broadcast_to((os == 0).astype(float)[:, None, None], (len(os), len(modelparams), len(expparams))).copy()


@sub('H01', 60, rule='an experiment with an impossible outcome before')
def impossible_data(d, case):
    """Experiments whose outcome was impossible count as experiments, whatever is done about their weights."""
    policy = d.pick(['skip', 'reset', 'ignore', 'warn', 'error'])
    up = qi.SMCUpdater(Impossible(), d.int(2, 9), qi.UniformDistribution([0, 1]), zero_weight_policy=policy, resample_thresh=0)
    A, b = d.fl(0.1, 3), d.pick([9 / 8, 2, 0.75])
    h = qi.ExpSparseHeuristic(up, scale=A, base=b)
    bad = 0
    for k in range(1, d.int(2, 7)):
        o = d.int(0, 1)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                with np.errstate(all='ignore'):
                    up.update(o, np.array([d.fl(0, 1)]))
            except RuntimeError:
                req(policy == 'error' and o == 1, 'an error for impossible data', policy=policy, outcome=o)
        bad += o
        req(len(up.data_record) == k, 'recorded data', got=up.data_record, performed=k)
        close(float(h()[0]), A * float(b) ** k, 'evolution time A b^k', rtol=1e-12, k=k, A=A, b=b, policy=policy)
        if bad and policy in ('ignore', 'warn'):
            break
    case.hit(policy, when=bad > 0)


@sub('H01', 40, rule='at least fifty experiments')
def long_histories(d, case):
    """The times A b^k keep growing over long histories, for every dtype and with other fields."""
    binom = d.bool()
    m = qi.SimpleInversionModel()
    m = qi.BinomialModel(m) if binom else m
    up = qi.SMCUpdater(m, 3, qi.UniformDistribution([0, 1]), resample_thresh=0, zero_weight_policy='ignore')
    A, b = d.fl(0.1, 3), d.pick([9 / 8, 1.5, 2, 0.9])
    other = {'w_': d.fl(0, 1)}
    if binom:
        other['n_meas'] = d.int(1, 40)
    h = qi.ExpSparseHeuristic(up, scale=A, base=b, t_field='t', other_fields=dict(other))
    n = d.pick([10, 60, 120, 200])
    e = np.zeros(1, dtype=m.expparams_dtype)
    e['t'] = 0.1
    if binom:
        e['n_meas'] = 1
    for k in range(n):
        up.update(0, e, check_for_resample=False)
        if k % 7 == 0 or k == n - 1:
            got = h()
            close(float(got['t'][0]), A * float(b) ** (k + 1), 'evolution time A b^k', rtol=1e-11, atol=0, k=k + 1, A=A, b=b)
            for f, v in other.items():
                close(float(got[f][0]), v, 'other field ' + f, rtol=0, atol=0)
    case.hit('binomial' if binom else 'plain', when=n >= 50)


class Scripted(qi.SMCUpdater):
    """Samples are handed out from a script of pairs of particle indices."""
    script = None
    handed = 0

    def sample(self, n=1):
        if self.script is None:
            return super(Scripted, self).sample(n)
        # pairs may be drawn at once or particle by particle
        stream = [i for pair in self.script for i in pair]
        idxs = [stream[min(self.handed + i, len(stream) - 1)] for i in range(n)]
        self.handed += n
        return self.particle_locations[idxs].copy()

    @property
    def drawn(self):
        return self.handed / 2


def pgh_setup(d, cls, n):
    multi = d.bool()
    if multi:
        m = PghModel(d.arr(3, 0.1, 2.0))
        locs = d.arr((n, 3), 0, 1)
    else:
        m = qi.SimpleInversionModel()
        locs = d.arr((n, 1), 0, 1)
    locs = locs + np.arange(n)[:, None] * 1.5      # pairwise distinct
    if d.chance(1, 4):
        locs = locs * 10.0 ** d.int(-12, 6)        # a posterior as narrow or wide as one likes
    up = cls(m, n, zoo.FixedPrior(locs), resample_thresh=0)
    w = d.weights(n)
    up.particle_weights = w.copy()
    locs = up.particle_locations.copy()
    kw, inv, tf, other = {}, (lambda x: x), (lambda t: t), {}
    if multi:
        kw.update(inv_field='x0', t_field='tau', inv_func=lambda x: x[..., 0])
        inv = lambda x: x[0]
        if d.bool():
            other = {'k': d.int(-3, 9)}
        else:
            kw['inv_field'], inv = 'xv', (lambda x: x)
            kw['inv_func'] = lambda x: x
    else:
        kw.update(inv_field='w_')
        if d.bool():
            kw['inv_func'] = lambda x: 2 * x + 1
            inv = lambda x: 2 * x + 1
    if d.bool():
        kw['t_func'] = lambda t: 3 * t + 0.5
        tf = lambda t: 3 * t + 0.5
    if other or d.chance(1, 3):
        kw['other_fields'] = dict(other)
    return m, up, w, locs, kw, inv, tf, other


class PghModel(zoo.TableModel):
    expparams_dtype = property(lambda s: [('x0', float), ('xv', float, (3,)), ('tau', float), ('k', int)])

    def __init__(self, Q):
        super(PghModel, self).__init__(2, n_mp=3, Q=Q)


def ref_distance(m, x, y):
    return float(sum(q * abs(a - b) for q, a, b in zip(np.asarray(m.Q), x, y)))


@sub('H01', 200, rule='some pairs coincide before the first distinct one')
def particle_guess(d, case):
    """The particle-guess heuristic inverts at one drawn particle for the inverse distance to the other,
    redrawing coinciding pairs at most maxiters times."""
    n = d.int(2, 5)
    m, up, w, locs, kw, inv, tf, other = pgh_setup(d, Scripted, n)
    maxiters = d.int(1, 6)
    if d.chance(1, 5):
        maxiters = 10
    else:
        kw['maxiters'] = maxiters
    fails = d.int(0, maxiters + 1)
    script = []
    for _ in range(fails):
        i = d.int(0, n - 1)
        script.append((i, i))
    i = d.int(0, n - 1)
    j = (i + d.int(1, n - 1)) % n
    script.append((i, j))
    up.script, up.handed = script, 0
    h = qi.PGH(up, **kw)
    if fails >= maxiters:
        raises(RuntimeError, h, '%d pairs of coinciding particles with %d allowed' % (fails, maxiters))
        req(up.drawn == maxiters, 'number of drawn pairs', got=up.drawn, allowed=maxiters)
        case.hit('gives up')
        return
    e = h()
    same_shape(e, (1,), 'a designed experiment')
    req(e.dtype == np.dtype(m.expparams_dtype), 'dtype of a designed experiment', got=e.dtype)
    req(up.drawn == fails + 1, 'pairs drawn', got=up.drawn, want=fails + 1)
    close(np.ravel(e[kw['inv_field']]), np.ravel(inv(locs[i])), 'inversion hypothesis', rtol=1e-12)
    close(float(e[kw.get('t_field', 't')][0]), float(tf(1 / float(np.ravel(m.distance(locs[i:i + 1], locs[j:j + 1]))[0]))),
          'time is the inverse distance', rtol=1e-12)
    # the distance itself
    close(float(np.ravel(m.distance(locs[i:i + 1], locs[j:j + 1]))[0]), ref_distance(m, locs[i], locs[j]),
          'distance of two models', rtol=1e-9)
    for f, v in other.items():
        close(float(e[f][0]), v, 'other field ' + f, rtol=0, atol=0)
    case.hit('redraws', when=fails > 0)


@sub('H01', 24, rule='at least three particles of positive weight')
def particle_guess_law(d, case):
    """Pairs are drawn by weight, independently, given that they differ; the updater is left alone."""
    n = d.int(2, 5)
    m, up, w, locs, kw, inv, tf, other = pgh_setup(d, qi.SMCUpdater, n)
    w = d.weights(n, zeros=False)
    if d.bool() and n > 2:
        w[d.int(0, n - 1)] = 0
    w /= w.sum()
    if 1 - np.sum(w ** 2) < 0.3:
        w = np.ones(n) / n
    up.particle_weights = w.copy()
    h = qi.PGH(up, maxiters=60, **kw)
    d.np_seed()
    N = 1500
    counts = np.zeros((n, n))
    inv_rows = np.array([np.ravel(inv(x)) for x in locs])
    tt = np.array([[0 if a == b else float(tf(1 / ref_distance(m, locs[a], locs[b]))) for b in range(n)]
                   for a in range(n)])
    for _ in range(N):
        e = h()
        i = int(np.argmin(np.abs(inv_rows - np.ravel(e[kw['inv_field']])).max(axis=1)))
        t = float(e[kw.get('t_field', 't')][0])
        diff = np.abs(tt[i] - t)
        diff[i] = np.inf
        best = diff.min()
        req(best < 1e-9 * (1 + t), 'the time is not the inverse distance to another particle', t=t, times=tt[i])
        js = np.flatnonzero(diff < best + 1e-9 * (1 + t))
        for j in js:
            counts[i, j] += 1.0 / len(js)
    p = np.outer(w, w)
    np.fill_diagonal(p, 0)
    p /= p.sum()
    stats.freq(counts.sum(axis=1), p.sum(axis=1), 'which particle is the inversion hypothesis')
    if np.all(counts == np.rint(counts)):
        stats.freq(counts.ravel(), p.ravel(), 'pairs of particles')
    close(up.particle_weights, w, 'weights after designing', rtol=0, atol=0)
    close(up.particle_locations, locs, 'particles after designing', rtol=0, atol=0)
    case.hit('zero weight' if (w == 0).any() else 'positive', when=(w > 0).sum() >= 3)


@sub('H01', 30, rule='two or more members')
def ensemble(d, case):
    """An ensemble hands its arguments to one member, drawn with its probability, and returns its answer."""
    k = d.int(1, 4)
    pr = d.weights(k)
    log = []

    def member(i):
        def f(*args):
            log.append((i, args))
            return (i, len(log))
        return f
    h = qi.EnsembleHeuristic([(member(i), pr[i]) for i in range(k)])
    d.np_seed()
    N = 800
    counts = np.zeros(k)
    for t in range(N):
        args = tuple(range(t % 3))
        r = h(*args)
        req(len(log) == t + 1, 'members called per design', got=len(log) - t)
        i, a = log[-1]
        req(a == args, 'arguments of the member', got=a, want=args)
        req(r == (i, t + 1), 'answer of the member', got=r)
        counts[i] += 1
    stats.freq(counts, pr, 'members')
    case.hit('zeros' if (pr == 0).any() else 'positive', when=k > 1)


# ------------------------------------------------------------------ designer

class CostModel(qi.FiniteOutcomeModel):
    """Two outcomes, one or two parameters, a scalar and a vector field, a smooth cost."""

    def __init__(self, Q, e0, curv):
        self._scale = np.asarray(Q, dtype=float)
        super(CostModel, self).__init__()
        self.e0, self.curv = e0, curv
        self.calls = 0

    @property
    def Q(self):
        return self._scale
    n_modelparams = property(lambda s: len(s._scale))
    expparams_dtype = property(lambda s: [('a', float), ('v', float, (2,)), ('tag', int)])
    is_n_outcomes_constant = property(lambda s: True)

    def n_outcomes(self, expparams):
        return 2

    def are_models_valid(self, mps):
        return np.ones(len(mps), dtype=bool)

    def phase(self, x, a, v):
        return x[..., 0] * a + x[..., -1] * (0.7 * v[..., 0] - 0.4 * v[..., 1])

    def likelihood(self, outcomes, modelparams, expparams):
        super(CostModel, self).likelihood(outcomes, modelparams, expparams)
        ph = self.phase(modelparams[:, None, :], expparams['a'][None, :], expparams['v'][None, :, :])
        return qi.FiniteOutcomeModel.pr0_to_likelihood_array(outcomes, np.cos(ph / 2) ** 2)

    base = 1.0

    def cost1(self, e):
        return self.base + self.curv * ((e['a'] - self.e0) ** 2 + 0.5 * (e['v'][..., 0] - self.e0) ** 2 +
                                0.25 * (e['v'][..., 1] + 0.3) ** 2)

    def experiment_cost(self, expparams):
        return self.cost1(expparams)


def objective(m, locs, w, e, k, mult):
    ph = m.phase(locs, float(e['a'][0]), e['v'][0])
    risk = 0.0
    for l in (np.cos(ph / 2) ** 2, np.sin(ph / 2) ** 2):
        u = w * l
        N = u.sum()
        if N > 0:
            p = u / N
            risk += N * float(p.dot(((locs - p.dot(locs)) ** 2).dot(m.Q)))
    c = float(m.cost1(e)[0])
    return risk * c ** k if mult else risk + k * c


ALGOS = ['NULL', 'CG', 'NCG', 'NELDER_MEAD']


def designer_setup(d):
    q = d.int(1, 2)
    m = CostModel(d.arr(q, 0.2, 2.0), d.fl(-2, 2), d.pick([0.0, 0.01, 0.1, 1.0]))
    n = d.int(2, 30)
    up = qi.SMCUpdater(m, n, zoo.FixedPrior(d.arr((n, q), 0, 2)), resample_thresh=0)
    up.particle_weights = d.weights(n, zeros=False)
    return m, up, up.particle_locations.copy(), up.particle_weights.copy()


def draw_guess(d, m):
    g = np.zeros(1, dtype=m.expparams_dtype)
    g['a'], g['v'], g['tag'] = d.fl(-3, 3), [[d.fl(-3, 3), d.fl(-3, 3)]], d.int(0, 1000)
    return g


def same_record(a, b, msg):
    req(a.dtype == b.dtype and a.shape == b.shape and
        all(np.array_equal(a[f], b[f]) for f in a.dtype.names), msg, got=a, want=b)


@sub('H01', 120, rule='the optimiser moved the guess')
def local_design(d, case):
    """A design varies only its field, is at least as good as the guess and (found by Nelder-Mead) locally
    optimal for risk plus cost or risk times cost; guess and updater are left alone."""
    m, up, locs, w = designer_setup(d)
    algo, field = d.pick(ALGOS), d.pick(['a', 'a', 'v'])
    k, mult = d.pick([0.0, 0.1, 0.5, 1.0, 2.0]), d.bool()
    g = draw_guess(d, m)
    g0 = g.copy()
    ed = qi.ExperimentDesigner(up, getattr(qi.OptimizationAlgorithms, algo)) if d.chance(4, 5) or algo != 'CG' \
        else qi.ExperimentDesigner(up)
    kw = dict(cost_scale_k=k, cost_mult=mult)
    if k == 1.0 and d.bool():
        del kw['cost_scale_k']
    limited = d.chance(1, 4)
    if limited:
        if algo in ('CG', 'NELDER_MEAD'):
            kw['maxiter'] = d.int(1, 5)
        if algo in ('NCG', 'NELDER_MEAD'):
            kw['maxfun'] = d.int(2, 12)
    if algo == 'NCG' and d.chance(1, 4):
        kw['grad_h'] = 1e-7
    calls = []

    def guess(**kwargs):
        calls.append(kwargs)
        return g
    fn = d.bool()
    r = ed.design_expparams_field(guess if fn else g, field, **kw)
    if fn:
        req(len(calls) == 1, 'the guess function is called once per design', got=len(calls))
        c = calls[0]
        req(sorted(c) == ['cov', 'idx_exp', 'mean'], 'arguments of the guess function', got=sorted(c))
        req(c['idx_exp'] == 0, 'index of the experiment', got=c['idx_exp'])
        close(c['mean'], w.dot(locs), 'mean given to the guess function')
        dx = locs - w.dot(locs)
        close(c['cov'], (w[:, None] * dx).T.dot(dx), 'covariance given to the guess function', atol=1e-9)
    same_record(g, g0, 'the guess was changed')
    same_shape(r, (1,), 'a designed experiment')
    for f in g.dtype.names:
        if f != field:
            req(np.array_equal(r[f], g0[f]), 'field %s was changed' % f, got=r[f], guess=g0[f])
    obj = lambda e: objective(m, locs, w, e, k, mult)
    f0, f1 = obj(g0), obj(r)
    req(f1 <= f0 + 1e-7 * (1 + abs(f0)), 'the design is worse than the guess', design=f1, guess=f0, algo=algo)
    if algo == 'NULL':
        same_record(r, g0, 'the null algorithm returns the guess')
    elif algo == 'NELDER_MEAD' and not limited and field == 'a':
        for s in (-0.05, 0.05):
            e = r.copy()
            e[field] = e[field] + s
            req(f1 <= obj(e) + 1e-5 * (1 + abs(f1)), 'the design is not locally optimal', design=f1, near=obj(e),
                step=s, k=k, mult=mult)
    close(up.particle_weights, w, 'weights after designing', rtol=0, atol=0)
    close(up.particle_locations, locs, 'particles after designing', rtol=0, atol=0)
    req(len(up.data_record) == 0 and len(up.normalization_record) == 0, 'designing left records')
    case.hit(algo, 'function' if fn else 'array', 'product' if mult else 'sum', field,
             when=algo == 'NULL' or not np.array_equal(r[field], g0[field]))


@sub('H01', 100, rule='a stored design beats a later guess')
def stored_designs(d, case):
    """With store_guess the best design since new_exp is returned, whatever happens to returned arrays;
    designs made without it are neither compared nor stored."""
    m, up, locs, w = designer_setup(d)
    k, mult = d.pick([0.0, 0.1, 1.0]), d.bool()
    algo = d.pick(['NULL', 'NULL', 'CG', 'NELDER_MEAD', 'NCG'])
    free = False
    if d.chance(1, 4):
        # a free experiment and nothing left to learn: the best objective is zero
        m.base, m.curv, k, mult = 0.0, d.pick([0.01, 1.0]), d.pick([0.1, 1.0]), False
        free = True
        up.particle_weights = np.zeros(len(w))
        up.particle_weights[0] = 1.0
        w = up.particle_weights.copy()
        algo = 'NULL'
    ed = qi.ExperimentDesigner(up, getattr(qi.OptimizationAlgorithms, algo))
    obj = lambda e: objective(m, locs, w, e, k, mult)
    best = None
    buf = draw_guess(d, m)
    beaten = False
    trace = []
    for _ in range(d.int(2, 7)):
        op = d.int(0, 9)
        if op == 0:
            ed.new_exp()
            best = None
            trace.append('new')
            continue
        g = draw_guess(d, m)
        if free and d.bool():
            g['a'], g['v'] = m.e0, [[m.e0, -0.3]]
        fresh = qi.ExperimentDesigner(up, getattr(qi.OptimizationAlgorithms, algo))
        kw = dict(cost_scale_k=k, cost_mult=mult)
        loc = fresh.design_expparams_field(g, 'a', **kw)
        if d.bool():
            buf[...] = g          # a function that reuses its array
            guess = lambda **kk: buf
        else:
            guess = g.copy()
        if op <= 2:
            r = ed.design_expparams_field(guess, 'a', **kw)
            same_record(r, loc, 'a design without store_guess depends on earlier ones')
            trace.append('plain')
        else:
            r = ed.design_expparams_field(guess, 'a', store_guess=True, **kw)
            if best is None or obj(loc) < obj(best):
                if best is not None and obj(best) - obj(loc) < 1e-9 * (1 + abs(obj(loc))):
                    return    # a tie up to rounding
                best = loc.copy()
            else:
                if obj(loc) - obj(best) < 1e-9 * (1 + abs(obj(loc))) and not np.array_equal(loc, best):
                    return
                beaten = True
            same_record(r, best, 'the best stored design')
            trace.append('store')
        if d.bool():
            r['a'] = 77.0
            r['tag'] = -1
    case.hit(algo, when=beaten)
    case.label('new_exp' if 'new' in trace else 'one experiment')


@sub('H01', 20, rule='always')
def unknown_algorithms(d, case):
    """Unknown optimisation algorithms are refused."""
    m, up, locs, w = designer_setup(d)
    bad = d.pick([17, -1, 4, 'CG', None])
    raises(ValueError, lambda: qi.ExperimentDesigner(up, bad), 'algorithm %r' % (bad,))
    case.hit(str(bad))


@sub('H01', 60, rule='an impossible datum was skipped')
def designer_guess(d, case):
    """A guess function is told how many data there are so far, used or skipped, and the current mean and
    covariance."""
    m = qi.BinomialModel(qi.SimplePrecessionModel())
    n = d.int(2, 20)
    up = qi.SMCUpdater(m, n, zoo.FixedPrior(d.arr((n, 1), 0.1, 1)), resample_thresh=0, zero_weight_policy='skip')
    seen, skipped = 0, 0
    d.np_seed()
    for _ in range(d.int(1, 6)):
        e = np.zeros(1, dtype=m.expparams_dtype)
        e['x'], e['n_meas'] = d.fl(0, 5), d.int(1, 4)
        bad = d.chance(1, 3)
        up.update(int(e['n_meas'][0]) + 1 if bad else d.int(0, int(e['n_meas'][0])), e)
        seen, skipped = seen + 1, skipped + bad
        if d.bool():
            up.resample()
    calls = []

    def guess(**kw):
        calls.append(kw)
        return e.copy()
    w, locs = up.particle_weights, up.particle_locations
    qi.ExperimentDesigner(up, qi.OptimizationAlgorithms.NULL).design_expparams_field(guess, 'x')
    req(len(calls) == 1 and sorted(calls[0]) == ['cov', 'idx_exp', 'mean'], 'the guess function is called once', got=calls)
    c = calls[0]
    req(c['idx_exp'] == seen, 'index of the experiment', got=c['idx_exp'], data=seen, skipped=skipped)
    mu = w.dot(locs)
    close(c['mean'], mu, 'mean given to the guess function', rtol=1e-9, atol=1e-12)
    close(c['cov'], (w[:, None] * (locs - mu)).T.dot(locs - mu), 'covariance given to the guess function', rtol=1e-6, atol=1e-9)
    case.hit(when=skipped > 0)


@sub('H01', 40, rule='a limit that binds')
def limits(d, case):
    """Limits on iterations and evaluations given to the designer reach the optimiser."""
    m, up, locs, w = designer_setup(d)
    m.curv, m.e0 = 1.0, 60.0            # far from every guess: many iterations are needed
    calls = []
    cost = m.experiment_cost

    def counted(e):
        calls.append(1)
        return cost(e)
    m.experiment_cost = counted
    ed = qi.ExperimentDesigner(up, qi.OptimizationAlgorithms.NELDER_MEAD)
    g = draw_guess(d, m)
    lim = d.int(1, 4)
    kind = d.pick(['maxiter', 'maxfun', None])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ed.design_expparams_field(g, 'a', cost_scale_k=10.0, **({kind: lim} if kind else {}))
    n = len(calls)
    if kind == 'maxiter':
        req(n <= 2 + 4 * lim + 2, 'evaluations within %d iterations' % lim, got=n)
    elif kind == 'maxfun':
        req(n <= lim + 5, 'evaluations within %d calls' % lim, got=n)
    else:
        req(n > 20, 'evaluations without a limit', got=n)
    case.hit(str(kind), when=kind is not None)
