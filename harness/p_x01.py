"""X01: a model distributed over engines gives what the serial model gives."""
import pickle

import numpy as np

from core import Reject, sub, req, close, same_shape, raises
import qinfer as qi
import qinfer.parallel
import zoo

ASSUMPTIONS = ['engines are emulated by a view that evaluates the tasks of map_sync in order, on pickled copies of '
               'their arguments; a real cluster is not started',
               'data of the simulation checks name the model and experiment that they were simulated for']

# The class only needs ipyparallel to exist; the views below stand in for it.
if qinfer.parallel.ipp is None:
    qinfer.parallel.ipp = 'emulated'


def picklable(x):
    try:
        pickle.dumps(x)
        return True
    except (AttributeError, TypeError, pickle.PicklingError):
        return False


def sent(t):
    """Arguments as an engine receives them (models that only dill could send are passed on)."""
    return pickle.loads(pickle.dumps(t)) if picklable(t) else t


class View(object):
    """A direct view on k emulated engines."""

    def __init__(self, k):
        self.k, self.calls, self.tasks, self.sizes = k, 0, 0, []

    def __len__(self):
        return self.k

    def __bool__(self):
        return True

    def map_sync(self, f, *seqs):
        self.calls += 1
        tasks = list(zip(*seqs))
        req(len(tasks) <= self.k, 'more tasks than engines', tasks=len(tasks), engines=self.k)
        self.tasks += len(tasks)
        return [f(*sent(t)) for t in tasks]

    def map(self, f, *seqs, **kw):
        return self.map_sync(f, *seqs)


class Stamp(qi.Model):
    """Data name the model and the experiment they were simulated for."""

    def __init__(self, struct=False):
        self.struct = struct
        super(Stamp, self).__init__()

    n_modelparams = property(lambda s: 2)
    expparams_dtype = property(lambda s: [('e', float), ('f', int)])
    is_n_outcomes_constant = property(lambda s: True)

    def n_outcomes(self, expparams):
        return 2

    def domain(self, expparams):
        return None

    def are_models_valid(self, mps):
        return np.ones(len(mps), dtype=bool)

    def likelihood(self, outcomes, modelparams, expparams):
        super(Stamp, self).likelihood(outcomes, modelparams, expparams)
        return np.ones((len(outcomes), len(modelparams), len(expparams)))

    def simulate_experiment(self, modelparams, expparams, repeat=1):
        super(Stamp, self).simulate_experiment(modelparams, expparams, repeat)
        v = (np.arange(repeat)[:, None, None] * 1e4 + modelparams[:, 0][None, :, None] * 100 +
             modelparams[:, 1][None, :, None] + expparams['e'][None, None, :] * 1e-2 + expparams['f'][None, None, :] * 1e-4)
        if self.struct:
            r = np.empty(v.shape, dtype=[('k', float, (3,))])
            r['k'] = v[..., None] * np.array([1, 2, -1])
            v = r
        return v[0, 0, 0] if v.size == 1 else v


def draw(d):
    return zoo.draw_finite(d) if d.chance(4, 5) else zoo.draw_any(d)


def threshold(d, k, kw):
    if d.chance(1, 4):
        return 10 * k
    kw['serial_threshold'] = d.pick([0, 1, 3, 5, 8])
    return kw['serial_threshold']


@sub('X01', 250, rule='more than one engine works')
def likelihoods(d, case):
    """Likelihoods equal the serial ones, are distributed exactly above the threshold, and are counted once."""
    fam = draw(d)
    k = d.int(1, 6)
    kw = {}
    th = threshold(d, k, kw)
    view = View(k)
    m = qi.DirectViewParallelizedModel(fam.model, view, **kw)
    req(m.n_engines == k, 'number of engines', got=m.n_engines)
    n = d.int(1, 14) if d.chance(5, 6) or th > 60 else d.int(th, th + 3) + (th == 0)
    ne, no = d.int(1, 3), d.int(1, 3)
    mps, eps = fam.mps(d, n), fam.eps(d, ne)
    os = fam.draw_outcomes(d, eps[0], no)
    before = m.call_count
    L = m.likelihood(os, mps.copy(), eps.copy())
    req(m.call_count - before == no * n * ne, 'likelihood calls counted', got=m.call_count - before, want=no * n * ne)
    same_shape(L, (no, n, ne), 'distributed likelihood')
    close(L, fam.model.likelihood(os, mps, eps), 'distributed likelihood', rtol=1e-12)
    req((view.calls > 0) == (n > th), 'engines are used exactly above the threshold', calls=view.calls, models=n,
        threshold=th)
    case.hit(fam.name, 'fewer models than engines' if n < k else 'all engines', when=k > 1 and n > max(th, 1))


@sub('X01', 250, rule='more than one engine works')
def simulations(d, case):
    """Simulated data are indexed by repetition, model and experiment, split by either of these."""
    struct = d.chance(1, 4)
    k = d.int(1, 5)
    kw = {}
    th = threshold(d, k, kw)
    view = View(k)
    serial = Stamp(struct)
    m = qi.DirectViewParallelizedModel(serial, view, **kw)
    n, ne, r = d.int(1, 9), d.int(1, 9), d.int(1, 3)
    if d.chance(1, 4):
        n = th + d.int(1, 3)
    elif d.chance(1, 3):
        ne = th + d.int(1, 3)
    mps = d.arr((n, 2), 0, 50)
    eps = np.zeros(ne, dtype=serial.expparams_dtype)
    eps['e'], eps['f'] = d.arr(ne, 0, 50), d.ints(ne, 0, 50)
    by_models = d.bool()
    opt = {} if by_models and d.bool() else dict(split_by_modelparams=by_models)
    if r > 1 or d.bool():
        opt['repeat'] = r
    before = m.sim_count
    got = m.simulate_experiment(mps.copy(), eps.copy(), **opt)
    req(m.sim_count - before == r * n * ne, 'simulations counted', got=m.sim_count - before, want=r * n * ne)
    want = Stamp(struct).simulate_experiment(mps, eps, repeat=r)
    if n * ne * r == 1:
        req(np.ndim(got) == 0, 'a single datum is a scalar', got=got)
    req(np.shape(got) == np.shape(want), 'distributed data: wrong shape', got=np.shape(got), want=np.shape(want))
    if struct:
        req(np.asarray(got).dtype == np.asarray(want).dtype, 'dtype of data')
        close(np.asarray(got)['k'], np.asarray(want)['k'], 'distributed data')
    else:
        close(got, want, 'distributed data', rtol=0, atol=0)
    size = n if by_models else ne
    req((view.calls > 0) == (size > th), 'engines are used exactly above the threshold', calls=view.calls, split=size,
        threshold=th)
    case.hit('by models' if by_models else 'by experiments', 'short' if size < k else 'full',
             when=k > 1 and size > max(th, 1))


@sub('X01', 120, rule='more than one engine works')
def real_simulations(d, case):
    """Distributed data of every model family have the serial model's shape and type and lie in its domains."""
    fam = draw(d)
    k = d.int(1, 4)
    view = View(k)
    m = qi.DirectViewParallelizedModel(fam.model, view, serial_threshold=0)
    n, ne, r = d.int(1, 5), d.int(1, 4), d.int(1, 3)
    mps, eps = fam.mps(d, n), fam.eps(d, ne)
    by_models = d.bool()
    d.np_seed()
    got = m.simulate_experiment(mps.copy(), eps.copy(), repeat=r, split_by_modelparams=by_models)
    want = fam.model.simulate_experiment(mps, eps, repeat=r)
    req(np.shape(got) == np.shape(want), 'distributed data: wrong shape', got=np.shape(got), want=np.shape(want))
    req(np.asarray(got).dtype == np.asarray(want).dtype, 'dtype of data', got=np.asarray(got).dtype,
        want=np.asarray(want).dtype)
    g = np.asarray(got).reshape(r, n, ne)
    for j in range(ne):
        os = fam.outcomes(eps[j])
        if os is not None:
            for o in g[:, :, j].ravel():
                req(any(np.array_equal(o, x) for x in os), 'an impossible outcome', outcome=o, outcomes=os)
    case.hit(fam.name, when=k > 1 and (n if by_models else ne) > 1)


@sub('X01', 80, rule='the updater with engines updated twice or more')
def updaters(d, case):
    """An updater of the distributed model goes through the history of the serial one."""
    fam = zoo.draw_constant(d)
    k, n = d.int(1, 4), d.int(2, 12)
    rows = fam.mps(d, n)
    par = qi.DirectViewParallelizedModel(fam.model, View(k), serial_threshold=d.pick([0, 0, 4]))
    kw = dict(resample_thresh=d.pick([0, 0.5]), zero_weight_policy='skip')
    ups = [qi.SMCUpdater(mm, n, zoo.FixedPrior(rows), **kw) for mm in (fam.model, par)]
    seed = d.seed()
    steps = []
    for _ in range(d.int(1, 4)):
        e = fam.eps(d, 1)
        steps.append((fam.draw_outcomes(d, e[0], 1)[0], e))
    for up in ups:
        np.random.seed(seed)
        for o, e in steps:
            up.update(o, e)
    a, b = ups
    close(b.particle_weights, a.particle_weights, 'weights', rtol=1e-9)
    close(b.particle_locations, a.particle_locations, 'particles', rtol=1e-9)
    close(np.array(b.normalization_record), np.array(a.normalization_record), 'evidences', rtol=1e-9)
    e = fam.eps(d, 1)
    close(b.bayes_risk(e), a.bayes_risk(e), 'Bayes risk', rtol=1e-7)
    case.hit(fam.name, when=k > 1 and len(steps) > 1)


@sub('X01', 80, rule='pickled with a view')
def pickles(d, case):
    """A pickled model has lost its view but nothing else: it works up to its threshold and refuses above."""
    fam = draw(d)
    th = d.int(1, 5)
    if not picklable(fam.model):
        raise Reject()
    m = qi.DirectViewParallelizedModel(fam.model, View(d.int(1, 3)), serial_threshold=th, purge_client=d.bool())
    mps, eps = fam.mps(d, 3), fam.eps(d, 2)
    os = fam.draw_outcomes(d, eps[0], 2)
    m.likelihood(os, mps, eps)
    if d.bool():
        m.allow_identical_outcomes = d.bool()
        m.outcome_warning_threshold = d.pick([0.5, 0.9])
    c = pickle.loads(pickle.dumps(m))
    req(c.allow_identical_outcomes == m.allow_identical_outcomes and
        c.outcome_warning_threshold == m.outcome_warning_threshold, 'settings of a pickled model')
    c.clear_cache()
    req(c.n_engines == 0, 'a pickled model has no engines', got=c.n_engines)
    req(c.call_count == m.call_count and c.sim_count == m.sim_count, 'counters of a pickled model')
    req(c.n_modelparams == m.n_modelparams and list(c.modelparam_names) == list(m.modelparam_names) and
        c.expparams_dtype == m.expparams_dtype and c.is_n_outcomes_constant == m.is_n_outcomes_constant,
        'members of a pickled model')
    close(np.asarray(c.Q, dtype=float), np.asarray(m.Q, dtype=float), 'scale matrix of a pickled model')
    n = d.int(1, 7)
    mps = fam.mps(d, n)
    if n <= th:
        close(c.likelihood(os, mps, eps), fam.model.likelihood(os, mps, eps), 'likelihood of a pickled model')
    else:
        raises(RuntimeError, lambda: c.likelihood(os, mps, eps), 'a model without a view above its threshold')
        raises(RuntimeError, lambda: c.simulate_experiment(mps, eps), 'a model without a view above its threshold')
    c.clear_cache()
    case.hit(fam.name, 'below' if n <= th else 'above')


class Caching(Stamp):
    def __init__(self):
        self.cleared = 0
        super(Caching, self).__init__()

    def clear_cache(self):
        self.cleared += 1


class Client(object):
    purged = 0

    def purge_everything(self):
        self.purged += 1


class ResultsView(View):
    def __init__(self, k):
        super(ResultsView, self).__init__(k)
        self.results, self.purges, self.client = {}, [], Client()

    def purge_results(self, what):
        self.purges.append(what)


@sub('X01', 20, rule='always')
def caches(d, case):
    """Clearing the cache clears the serial model's and the view's results, the client only if allowed."""
    serial, view = Caching(), (ResultsView if d.bool() else View)(2)
    purge = d.bool()
    m = qi.DirectViewParallelizedModel(serial, view, **(dict(purge_client=purge) if purge or d.bool() else {}))
    k = d.int(1, 3)
    for _ in range(k):
        m.clear_cache()
    req(serial.cleared == k, "the serial model's cache is cleared", got=serial.cleared, want=k)
    if isinstance(view, ResultsView):
        req(view.purges == ['all'] * k, 'results of the view are purged', got=view.purges)
        req(view.client.purged == (k if purge else 0), 'the client is purged exactly if allowed',
            got=view.client.purged, allowed=purge)
    case.hit('purge' if purge else 'keep')
