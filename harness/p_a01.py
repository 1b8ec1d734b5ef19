"""A01: calls leave their arguments, and questions leave their object, unchanged."""
import copy
import io

import numpy as np

from core import sub, req, close
import qinfer as qi
from qinfer import tomography as tm
from qinfer import utils as u
import priors
import zoo
from tomo import draw_basis

ASSUMPTIONS = ['arguments are compared by value before and after; questions are the calls that are not updates, resamplings or resets']


def snap(x):
    """A comparable deep copy."""
    if isinstance(x, np.ndarray):
        return ('a', x.dtype.descr if x.dtype.names else x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snap(v) for v in x]
    return x if isinstance(x, (int, float, complex, str, bool, type(None), np.generic)) else id(x)


def same(before, objs, what):
    for i, (b, o) in enumerate(zip(before, objs)):
        req(snap(o) == b, '%s changed its argument %d' % (what, i), now=o)


def equal(a, b, what):
    """Two answers to the same question."""
    if isinstance(a, (list, tuple)):
        req(len(a) == len(b), what + ': repeated with another result')
        for x, y in zip(a, b):
            equal(x, y, what)
    elif isinstance(a, dict):
        for k in a:
            equal(a[k], b[k], what)
    elif isinstance(a, np.ndarray) and a.dtype.kind in 'fc':
        req(np.array_equal(a, b, equal_nan=True), what + ': repeated with another result', first=a, second=b)
    elif isinstance(a, (np.ndarray, str, int, float, np.generic, bool, type(None))):
        req(np.array_equal(a, b) or a != a, what + ': repeated with another result', first=a, second=b)


@sub('A01', 300, rule='several models and several experiments')
def models(d, case):
    """No question to a model, and no simulation, changes the arrays it is given; questions repeat their answers."""
    fam = zoo.draw_any(d)
    m = fam.model
    nm, ne = d.int(1, 4), d.int(1, 4)
    mps, eps = fam.mps(d, nm), fam.eps(d, ne)
    os = fam.draw_outcomes(d, eps[0], d.int(1, 3))
    rep = d.pick([1, 3])
    args = [os, mps, eps]
    before = [snap(a) for a in args]
    calls = [
        ('likelihood', lambda: m.likelihood(os, mps, eps), True),
        ('are_models_valid', lambda: m.are_models_valid(mps), True),
        ('canonicalize', lambda: m.canonicalize(mps), True),
        ('n_outcomes', lambda: m.n_outcomes(eps), True),
        ('domain', lambda: [x.values for x in m.domain(eps)], True),
        ('experiment_cost', lambda: m.experiment_cost(eps), True),
        ('distance', lambda: m.distance(mps, mps[::-1]), True),
        ('are_expparam_dtypes_consistent', lambda: m.are_expparam_dtypes_consistent(eps), True),
        ('update_timestep', lambda: m.update_timestep(mps, eps), False),
        ('simulate_experiment', lambda: m.simulate_experiment(mps, eps, repeat=rep), False),
        ('Q', lambda: np.array(m.Q, dtype=float), True),
        ('modelparam_names', lambda: list(m.modelparam_names), True)]
    if hasattr(m, 'score'):
        calls += [('score', lambda: m.score(os, mps, eps), True),
                  ('fisher_information', lambda: m.fisher_information(mps, eps), True)]
    d.np_seed()
    order = list(d.rng().permutation(len(calls)))
    first = {}
    for i in order + order[::-1]:
        name, f, fixed = calls[i]
        try:
            r = f()
        except (NotImplementedError, AssertionError):
            if name in ('score', 'fisher_information'):
                continue
            raise
        same(before, args, name)
        if fixed:
            r = copy.deepcopy(r)
            if name in first:
                equal(first[name], r, name)
            first[name] = r
    case.hit(fam.name.split('(')[0], when=nm > 1 and ne > 1)


def questions(d, up, fam):
    k = up.n_rvs
    eps = fam.eps(d, d.int(1, 3))
    sl = np.s_[:2] if k > 1 else np.s_[:1]
    level = d.pick([0.3, 0.8, 0.95])
    pts = up.particle_locations[:3].copy()
    other = qi.ParticleDistribution(particle_locations=d.arr((4, k), 0.1, 0.9), particle_weights=np.ones(4) / 4)
    i = d.int(0, k - 1)
    q = [
        ('est_mean', lambda: up.est_mean(), True),
        ('est_covariance_mtx', lambda: up.est_covariance_mtx(), True),
        ('correlations', lambda: up.est_covariance_mtx(corr=True), True),
        ('est_meanfn', lambda: up.est_meanfn(lambda x: x ** 2), True),
        ('est_entropy', lambda: up.est_entropy(), True),
        ('est_kl_divergence', lambda: up.est_kl_divergence(other), True),
        ('est_credible_region', lambda: up.est_credible_region(level, return_outside=True), True),
        ('est_credible_region of a slice', lambda: up.est_credible_region(level, modelparam_slice=sl), True),
        ('posterior_marginal', lambda: up.posterior_marginal(i, res=11, smoothing=0.01), True),
        ('n_ess', lambda: up.n_ess, True),
        ('sample', lambda: up.sample(5), False),
        ('hypothetical_update', lambda: up.hypothetical_update(
            fam.outcomes(eps[0])[:1], eps, return_likelihood=True, return_normalization=True), True),
        ('bayes_risk', lambda: up.bayes_risk(eps), True),
        ('expected_information_gain', lambda: up.expected_information_gain(eps), True),
        ('html', lambda: up._repr_html_(), True),
        ('log_total_likelihood', lambda: up.log_total_likelihood, True),
        ('est_cluster_moments', lambda: list(up.est_cluster_moments({'eps': 0.3, 'min_particles': 2})), True)]
    args = [eps, pts, other.particle_locations, other.particle_weights]
    if k > 1:
        q += [('posterior_mesh', lambda: up.posterior_mesh(0, 1, 4, 4, 0.1), True)]
        if up.n_particles > 8:
            q += [('region_est_ellipsoid', lambda: up.region_est_ellipsoid(0.9, tol=0.01, modelparam_slice=sl), True),
                  ('region_est_hull', lambda: up.region_est_hull(0.9, modelparam_slice=sl), True)]
            q += [('in_credible_region by ' + m, lambda m=m: up.in_credible_region(
                pts[:, sl] if sl is not None else pts, 0.9, modelparam_slice=sl, method=m, tol=0.01), True) for m in ('pce', 'hpd-hull', 'hpd-mvee')]
    q += [('heuristic', lambda: qi.ExpSparseHeuristic(up, t_field='e')(), True)]
    return q, args


def state(up):
    return dict(locations=snap(up.particle_locations), weights=snap(up.particle_weights),
                record=[snap(np.asarray(x)) for x in up.data_record], norms=[float(np.ravel(x)[0]) for x in up.normalization_record],
                resamples=up.resample_count, fresh=bool(up.just_resampled), ess=float(up.min_n_ess))


@sub('A01', 200, rule='several questions after data')
def updaters(d, case):
    """No question to an updater moves its particles, weights or records; results are fresh and repeat."""
    k = d.int(1, 3)
    fam = zoo.Table(d, n_mp=k)
    n = d.pick([3, 12, 30])
    rows = d.rng().uniform(0.05, 0.95, size=(n, k))
    up = qi.SMCUpdater(fam.model, n, zoo.FixedPrior(rows), resample_thresh=0.0)
    for _ in range(d.int(0, 3)):
        e = fam.eps(d, 1)
        up.update(fam.draw_outcomes(d, e[0], 1)[0], e)
    qs, args = questions(d, up, fam)
    st = state(up)
    before = [snap(a) for a in args]
    d.np_seed()
    first = {}
    picks = [d.int(0, len(qs) - 1) for _ in range(d.int(3, 8))]
    for i in picks + picks[::-1]:
        name, f, fixed = qs[i]
        try:
            r = f()
        except Exception as e:
            # degenerate clouds have no hull, ellipsoid or correlation
            if type(e).__name__ not in ('QhullError', 'LinAlgError', 'AssertionError'):
                raise
            r = None
        same(before, args, name)
        now = state(up)
        for key in st:
            req(st[key] == now[key], '%s changed the updater' % name, part=key, before=st[key], after=now[key])
        if fixed and r is not None:
            keep = copy.deepcopy(r)
            if name in first:
                equal(first[name], keep, name)
            first[name] = keep
            # scribbling over a result does not reach the updater
            for x in (r if isinstance(r, (list, tuple)) else [r]):
                if isinstance(x, np.ndarray) and x.dtype.kind == 'f' and x.flags.writeable and x.size and \
                        name != 'heuristic':
                    x[...] = -7.0
            req(state(up) == st, 'the result of %s is the state of the updater itself' % name)
    case.hit(when=len(set(picks)) > 2 and len(st['record']) > 0)


class Sharing(qi.Distribution):
    """A prior which hands out the very array of samples it keeps."""

    def __init__(self, rows):
        self.rows = rows

    n_rvs = property(lambda s: s.rows.shape[1])

    def sample(self, n=1):
        return self.rows[:n]


class Folding(qi.DerivedModel):
    """A model whose canonical parameters are nearer to one half than those it is given."""

    def canonicalize(self, modelparams):
        return 0.5 + 0.9 * (modelparams - 0.5)

    def likelihood(self, outcomes, modelparams, expparams):
        return self.underlying_model.likelihood(outcomes, modelparams, expparams)

    def simulate_experiment(self, modelparams, expparams, repeat=1):
        return self.underlying_model.simulate_experiment(modelparams, expparams, repeat)


@sub('A01', 200, rule='a resampling or a batch')
def updates(d, case):
    """Updates, resamplings and resets never write into data, experiments or particle clouds they are given."""
    k = d.int(1, 2)
    fam = zoo.draw_constant(d)
    m = fam.model
    n = d.int(2, 15)
    mps = fam.mps(d, n)
    mps = mps[m.are_models_valid(mps)]
    if not len(mps):
        return
    prior = zoo.FixedPrior(mps)
    shared = d.chance(1, 2)
    if shared:
        prior = Sharing(np.array(mps, dtype=float))
        if d.chance(2, 3) and np.all(m.are_models_valid(Folding(m).canonicalize(mps))):
            m = Folding(m)
    rows = snap(prior.rows)
    up = qi.SMCUpdater(m, len(mps), prior, zero_weight_policy='skip', resample_thresh=d.pick([0.0, 0.5, 1.0]),
                       resampler=qi.LiuWestResampler(a=d.pick([0.9, 0.98]), maxiter=5))
    req(snap(prior.rows) == rows, 'making the updater wrote into the samples of the prior')
    d.np_seed()
    T = d.int(1, 5)
    eps = fam.eps(d, T)
    os = fam.draw_outcomes(d, eps[0], T)
    before = [snap(os), snap(eps)]
    done = []
    for t in range(T):
        op = d.pick(['update', 'batch', 'resample', 'reset'])
        done.append(op)
        if op == 'update':
            up.update(os[t], eps[t:t + 1])
        elif op == 'batch':
            up.batch_update(os[t:], eps[t:], resample_interval=d.int(1, 3))
        elif op == 'resample':
            locs, w = up.particle_locations, up.particle_weights
            b = [snap(locs), snap(w)]
            up.resample()
            same(b, [locs, w], 'resample')
        else:
            up.reset()
        same(before, [os, eps], op)
        rec = [snap(np.asarray(x)) for x in up.data_record]
        mine = up.data_record
        if d.bool():
            mine.append(0)
        else:
            del mine[:]
        req([snap(np.asarray(x)) for x in up.data_record] == rec, 'the data record follows what a caller does to its copy')
        req(snap(prior.rows) == rows, '%s wrote into the samples of the prior' % op)
    case.hit(*sorted(set(done)), when='resample' in done or 'batch' in done)


@sub('A01', 250, rule='built from arrays or lists')
def distributions(d, case):
    """Priors neither change what they were built from nor what they sampled before; scribbling over samples does not
    reach the prior."""
    name, dist, args = priors.draw_prior(d)
    # the arguments were already used by the constructor: they must make sense again
    before = [snap(a) for a in args]
    s = d.seed()
    n = d.pick([1, 2, 7])
    np.random.seed(s)
    x = dist.sample(n)
    keep = np.array(x)
    np.random.seed(s + 1)
    y = dist.sample(d.pick([1, 7]))
    req(np.array_equal(x, keep), '%s: a second sample changes the first one' % name)
    x[...] = -7
    y[...] = -7
    same(before, args, name + ': sample')
    np.random.seed(s)
    z = dist.sample(n)
    req(np.array_equal(z, keep), '%s: the samples of a seed change when earlier samples are overwritten' % name,
        first=keep, second=z)
    n_rvs = dist.n_rvs
    req(n_rvs == keep.shape[1], '%s: number of random variables' % name)
    if name in ('normal', 'multivariate normal'):
        g1 = dist.grad_log_pdf(z)
        req(np.array_equal(z, keep), '%s: score changes its argument' % name)
        equal(g1, dist.grad_log_pdf(z), 'score')
    case.hit(name, when=len(args) > 0)


@sub('A01', 120, rule='always')
def constructors(d, case):
    """Constructors leave the arrays, lists and dictionaries that they are given as they were."""
    kind = d.int(0, 5)
    k = d.int(1, 3)
    if kind == 0:
        r = d.arr((k, 2), 0, 1)
        args = [r.copy(), d.arr(k, 0, 1), np.eye(k) * 2.0, d.weights(4), d.arr((4, k), 0, 1)]
        b = [snap(a) for a in args]
        qi.UniformDistribution(np.sort(args[0], axis=1))
        qi.UniformDistribution(args[0])
        qi.ConstantDistribution(args[1])
        qi.MultivariateNormalDistribution(args[1], args[2]).sample(2)
        qi.ParticleDistribution(particle_locations=args[4], particle_weights=args[3]).sample(2)
        qi.ParticleDistribution(particle_locations=args[4], particle_weights=3 * args[3]).est_mean()
        same(b, args, 'the constructor of a distribution')
    elif kind == 1:
        w = d.arr(4, 0.1, 3)
        x = d.arr((4, k), 0, 1)
        b = [snap(w), snap(x)]
        p = qi.ParticleDistribution(particle_locations=x, particle_weights=w)
        p.est_covariance_mtx(), p.sample(3)
        same(b, [w, x], 'ParticleDistribution')
    elif kind == 2:
        c = 0.1 * np.ones(1) if d.bool() else 0.1 * np.eye(1)
        b = [snap(c)]
        m = qi.GaussianRandomWalkModel(qi.SimplePrecessionModel(), fixed_covariance=c, diagonal=c.ndim == 1)
        m.update_timestep(d.arr((3, 1), 0, 1), np.ones(2))
        same(b, [c], 'GaussianRandomWalkModel')
    elif kind == 3:
        m = qi.RandomizedBenchmarkingModel()
        bim = np.eye(3) if d.bool() else np.eye(3, dtype=int)
        up = qi.SMCUpdaterBCRB(m, 5, qi.UniformDistribution([[0.9, 1], [0.4, 0.5], [0.4, 0.5]]), initial_bim=bim,
                               adaptive=d.bool())
        b = [snap(bim)]
        up.update(0, np.array([(3,)], dtype=m.expparams_dtype))
        same(b, [bim], 'SMCUpdaterBCRB')
    elif kind == 4:
        f = {'n_meas': d.int(1, 9)}
        m = qi.BinomialModel(qi.SimplePrecessionModel())
        up = qi.SMCUpdater(m, 10, qi.UniformDistribution([0, 1]))
        b = [snap(f)]
        qi.ExpSparseHeuristic(up, t_field='x', other_fields=f)()
        same(b, [f], 'ExpSparseHeuristic')
    else:
        basis = draw_basis(d, 4)
        data = snap(basis.data)
        tb = tm.tensor_product_basis(basis, tm.pauli_basis(1)) if basis.dim == 2 else basis
        m = tm.TomographyModel(basis)
        x = d.arr((2, basis.dim ** 2), -0.3, 0.3)
        x[:, 0] = 1 / np.sqrt(basis.dim)
        b = [snap(x)]
        m.canonicalize(x)
        same(b, [x], 'canonicalize')
        q = basis.modelparams_to_state(x[0])
        basis.state_to_modelparams(q)
        basis.covariance_mtx_to_superop(np.eye(basis.dim ** 2))
        repr(tb), basis._repr_html_()
        req(snap(basis.data) == data, 'the basis is not changed by conversions')
        same(b, [x], 'conversions')
    case.hit(str(kind))


@sub('A01', 200, rule='always')
def helpers(d, case):
    """Numeric helpers, domains and resamplers do not write into their arguments."""
    n = d.int(2, 6)
    p = np.stack([d.weights(n, zeros=False) for _ in range(3)], axis=1)
    a = d.arr((n, n), -1, 1)
    psd = a.dot(a.T)
    pts = d.arr((8, 2), -1, 1) + d.rng().normal(0, 1e-2, size=(8, 2))
    cnt = d.ints(n * 3, 0, 4).reshape(n, 3)
    arr = np.zeros(n, dtype=[('a', float), ('b', int)])
    arr['a'], arr['b'] = d.arr(n, 0, 1), np.arange(n)
    w = d.weights(8)
    y = d.arr((3, n), -2, 2)
    arrays = [p, psd, pts, cnt, arr, w, y, np.arange(n), np.arange(n, dtype=float)]
    b = [snap(x) for x in arrays]
    d.np_seed()
    dom = qi.ProductDomain(qi.RealDomain(), qi.IntegerDomain(0, n))
    mdom = qi.MultinomialDomain(3, 2)
    counts = np.array([[3, 0], [1, 2]])
    bc = snap(counts)

    def mvee():
        A, c = u.mvee(pts, 0.01)
        return u.in_ellipsoid(pts, A, c)
    from qinfer.clustering import particle_clusters
    from qinfer.metrics import weighted_pairwise_distances
    calls = [
        ('sqrtm_psd', lambda: u.sqrtm_psd(psd)),
        ('multinomial_pdf', lambda: u.multinomial_pdf(cnt, p)),
        ('multinomial_pdf without the last', lambda: u.multinomial_pdf(cnt, p[:-1])),
        ('sample_multinomial', lambda: u.sample_multinomial(5, p, size=2)),
        ('binomial_pdf', lambda: u.binomial_pdf(9, cnt, 0.3)),
        ('simplex', lambda: u.from_simplex(u.to_simplex(y))),
        ('from_simplex', lambda: u.from_simplex(p.T)),
        ('outer_product', lambda: u.outer_product(w)),
        ('ellipsoids', mvee),
        ('ellipsoid_volume', lambda: u.ellipsoid_volume(invA=psd + np.eye(n))),
        ('join_struct_arrays', lambda: u.join_struct_arrays([arr, arrays[7]])),
        ('separate_struct_array', lambda: u.separate_struct_array(arr, [np.dtype(float), np.dtype(int)])),
        ('weighted_pairwise_distances', lambda: weighted_pairwise_distances(pts, w + 1e-3)),
        ('particle_clusters', lambda: list(particle_clusters(pts, w + 1e-3, eps=0.5, min_particles=2, weighted=True))),
        ('domains', lambda: (dom.in_domain(dom.from_regular_arrays([arrays[8], arrays[7]])),
                             mdom.in_domain(mdom.from_regular_array(counts)), qi.RealDomain().in_domain(y))),
        ('Liu-West', lambda: qi.LiuWestResampler(a=0.9)(
            zoo.TableModel(2, 0, 2), qi.ParticleDistribution(particle_locations=0.5 + 0 * pts, particle_weights=w))),
    ]
    for i in [d.int(0, len(calls) - 1) for _ in range(d.int(2, 6))]:
        name, f = calls[i]
        f()
        same(b, arrays, name)
        req(snap(counts) == bc, name + ' changed counts')
        case.hit(name)


@sub('A01', 24, rule='always')
def campaigns(d, case):
    """Performance tests, simple estimation and designers leave priors, data, parameters and options as given."""
    kind = d.int(0, 3)
    d.np_seed()
    if kind == 0:
        m = qi.SimplePrecessionModel()
        true = np.array([[0.3]]) if d.bool() else np.array([0.3])
        opts = {'resample_thresh': 0.3}
        b = [snap(true), snap(opts)]
        if d.bool():
            qi.perf_test(m, 40, qi.UniformDistribution([0, 1]), 3, qi.ExpSparseHeuristic, true_mps=true, extra_updater_args=opts)
        else:
            w = qi.RandomWalkModel(m, qi.NormalDistribution(0, 1e-4))
            qi.perf_test_multiple(2, w, 40, qi.UniformDistribution([0, 1]), 3, qi.ExpSparseHeuristic, true_mps=true,
                                  extra_updater_args=opts)
        same(b, [true, opts], 'a performance test')
    elif kind == 1:
        data = priors.prec_data(d)
        b = [snap(data)]
        qi.simple_est_prec(data, 0.0, 1.0, n_particles=300)
        same(b, [data], 'simple_est_prec')
    elif kind == 2:
        data = np.stack([np.round(10 * (0.3 * 0.9 ** (m := d.ints(6, 1, 9)) + 0.5)), m, np.full(6, 10)], axis=1)
        b = [snap(data)]
        qi.simple_est_rb(data, n_particles=300)
        same(b, [data], 'simple_est_rb')
    else:
        m = qi.SimplePrecessionModel()
        up = qi.SMCUpdater(m, 30, qi.UniformDistribution([0, 1]))
        m2 = qi.BinomialModel(m)
        up = qi.SMCUpdater(m2, 30, qi.UniformDistribution([0, 1]))
        g = np.array([(1.0, 3)], dtype=m2.expparams_dtype)
        b, st = [snap(g)], state(up)
        des = qi.ExperimentDesigner(up, d.pick([qi.OptimizationAlgorithms.NULL, qi.OptimizationAlgorithms.NELDER_MEAD]))
        for _ in range(2):
            des.design_expparams_field(g, 'x', cost_scale_k=0.1, maxiter=3, store_guess=d.bool())
            same(b, [g], 'the designer')
            req(state(up) == st, 'the designer changed the updater')
    case.hit(str(kind))
