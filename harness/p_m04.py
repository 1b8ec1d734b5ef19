"""M04: evaluation counters and model chains."""
import numpy as np

from core import sub, req, raises, same_shape, close
import qinfer as qi
import zoo

ASSUMPTIONS = []


@sub('M04', 300, rule='at least three counted calls')
def counters(d, case):
    """call_count grows by outcomes x models x experiments per likelihood call and sim_count by
    repetitions x models x experiments per simulation, and nothing else moves them."""
    fam = d.pick([zoo.draw_any, zoo.draw_two, zoo.Table, zoo.VarTable])(d)
    m = fam.model
    req(m.call_count == 0, 'a new model has evaluated nothing', got=m.call_count)
    req(m.sim_count == 0, 'a new model has simulated nothing', got=m.sim_count)
    calls = sims = 0
    # listed in known_findings.json: these two models do not count likelihood calls at all
    uncounted = type(m) in (qi.UnknownT2Model, qi.NoisyCoinModel)
    n_ops = d.int(1, 5)
    for _ in range(n_ops):
        nm, ne = d.int(1, 4), d.int(1, 3)
        mps, eps = fam.mps(d, nm), fam.eps(d, ne)
        op = d.pick(['L', 'S', 'other'])
        if op == 'L':
            no = d.int(1, 4)
            os = fam.draw_outcomes(d, eps[0], no)
            m.likelihood(os, mps, eps)
            calls += no * nm * ne
            if uncounted and m.call_count == 0:
                calls = 0
            req(m.call_count == calls, 'call_count', model=fam.name, got=m.call_count, expected=calls)
        elif op == 'S':
            rep = d.int(1, 4)
            m.simulate_experiment(mps, eps, repeat=rep)
            sims += rep * nm * ne
            req(m.sim_count == sims, 'sim_count', model=fam.name, got=m.sim_count, expected=sims)
            calls = m.call_count       # simulating may evaluate the likelihood
        else:
            m.are_models_valid(mps), m.domain(eps), m.clear_cache(), m.canonicalize(mps)
            m.update_timestep(mps, eps), m.distance(mps, mps) if len(m.Q) == mps.shape[1] else None
            req(m.call_count == calls and m.sim_count == sims, 'counters moved by an unrelated call', model=fam.name)
    case.hit(fam.name.split('(')[0], when=n_ops >= 3)


def _counts(m, d):
    fam = zoo.T2(d) if isinstance(m, qi.UnknownT2Model) else zoo.NoisyCoin(d)
    no, nm, ne = d.int(1, 3), d.int(1, 3), d.int(1, 3)
    m.likelihood(np.zeros(no, dtype=int), fam.mps(d, nm), fam.eps(d, ne))
    req(m.call_count == no * nm * ne, 'call_count', got=m.call_count, expected=no * nm * ne)


@sub('M04', 5, rule='always', known='unknown-t2-call-count')
def unknown_t2_counter(d, case):
    """Known finding: UnknownT2Model does not count likelihood calls."""
    case.hit()
    _counts(qi.UnknownT2Model(), d)


@sub('M04', 5, rule='always', known='noisy-coin-call-count')
def noisy_coin_counter(d, case):
    """Known finding: NoisyCoinModel does not count likelihood calls."""
    case.hit()
    _counts(qi.NoisyCoinModel(), d)


@sub('M04', 150, rule='a chain of at least two derived models')
def chains(d, case):
    """A derived model reports its chain, base and, unless it redefines them, the parameters of its base."""
    fam = zoo.draw_two(d)
    base = fam.model
    chain = [base]
    n = d.int(0, 3) if d.chance(3, 4) else d.int(4, 7)
    scalar = fam.scalar
    cur = base
    nonconst = False
    for _ in range(n):
        k = d.pick(['mle', 'walk', 'poison', 'binom'])
        if k == 'binom' and not nonconst:
            cur = qi.BinomialModel(cur)
            nonconst = True
        elif k == 'walk':
            nmp = cur.n_modelparams
            cur = qi.RandomWalkModel(cur, qi.MultivariateNormalDistribution(np.zeros(nmp), np.eye(nmp))
                                     if nmp > 1 else qi.NormalDistribution(0, 1))
        elif k == 'poison':
            cur = qi.PoisonedModel(cur, tol=0.1)
        else:
            cur = qi.MLEModel(cur, 2)
        chain.append(cur)
    for i, m in enumerate(chain):
        req(m.base_model is base, 'base_model')
        req(m.underlying_model is (chain[i - 1] if i else None), 'underlying_model')
        if isinstance(m, (qi.BinomialModel, qi.MultinomialModel, qi.GaussianHyperparameterizedModel)):
            req(m.decorated_model is m.underlying_model, 'decorated_model')
        mc = m.model_chain
        req(len(mc) == i and all(a is b for a, b in zip(mc, chain[:i])), 'model_chain', got=mc)
        req(m.n_modelparams == base.n_modelparams, 'n_modelparams')
        req(list(m.modelparam_names) == list(base.modelparam_names), 'modelparam_names')
        close(m.Q, base.Q, 'scale of the loss')
        req(bool(m.is_n_outcomes_constant) == (not any(isinstance(x, qi.BinomialModel) for x in chain[:i + 1])),
            'is_n_outcomes_constant of a derived model', chain=[type(x).__name__ for x in chain[:i + 1]],
            got=m.is_n_outcomes_constant)
    mps = fam.mps(d, 3)
    req(np.array_equal(cur.are_models_valid(mps), base.are_models_valid(mps)), 'validity passes through')
    close(cur.canonicalize(mps), base.canonicalize(mps), 'canonicalisation passes through')
    case.hit(when=n >= 2)


@sub('M04', 150, rule='more than one row')
def defaults(d, case):
    """Default canonicalisation, distance and cost are the documented ones."""
    n_mp = d.int(1, 4)
    Q = d.arr(n_mp, 0.0, 3.0)
    m = zoo.TableModel(3, 0, n_mp, Q)
    n = d.int(1, 5)
    a, b = d.arr((n, n_mp), -1, 1), d.arr((n, n_mp), -1, 1)
    want = np.array([sum(abs(Q[i] * (a[r, i] - b[r, i])) for i in range(n_mp)) for r in range(n)])
    close(m.distance(a, b), want, 'distance is the Q-scaled 1-norm')
    close(m.canonicalize(a), a, 'default canonicalisation is the identity')
    eps = np.zeros(n, dtype=m.expparams_dtype)
    close(m.experiment_cost(eps), np.ones(n), 'default cost is one')
    up = m.update_timestep(a, eps[:2])
    same_shape(up, (n, n_mp, len(eps[:2])), 'update_timestep')
    for k in range(up.shape[2]):
        close(up[:, :, k], a, 'default time step is trivial')
    case.hit(when=n > 1)


@sub('M04', 60, rule='always')
def settings_round_trip(d, case):
    """Settable options of finite-outcome models read back what was written."""
    fam = zoo.draw_two(d)
    v = d.int(1, 1000)
    b = d.bool()
    t = d.fl(0, 1)
    m = fam.model
    m.n_outcomes_cutoff = v
    req(m.n_outcomes_cutoff == v, 'n_outcomes_cutoff', got=m.n_outcomes_cutoff)
    m.allow_identical_outcomes = b
    req(m.allow_identical_outcomes == b, 'allow_identical_outcomes')
    m.outcome_warning_threshold = t
    req(m.outcome_warning_threshold == t, 'outcome_warning_threshold')
    case.hit()


class Canonical(zoo.TableModel):
    """A model with a canonical form, a scale, and a cost of its own."""

    def canonicalize(self, modelparams):
        return np.where(modelparams > 0.5, 1 - modelparams, modelparams)


@sub('M04', 100, rule='a decorator with parameters of its own')
def decorated_parameters(d, case):
    """Decorators hand canonical form and scale of their base through and leave parameters of their own alone."""
    k = d.int(1, 3)
    Q = d.arr(k, 0.1, 3)
    base = Canonical(2, 0, k, Q)
    n = d.int(1, 6)
    mps = d.arr((n, k), 0, 1)
    canon = base.canonicalize(mps)
    which = d.pick(['derived', 'mle', 'binomial', 'multinomial', 'poisoned', 'walk', 'gwalk', 'hyper'])
    cur = {'derived': lambda: qi.MLEModel(qi.MLEModel(base, 2), 2), 'mle': lambda: qi.MLEModel(base, 2),
           'binomial': lambda: qi.BinomialModel(base), 'multinomial': lambda: qi.MultinomialModel(base),
           'poisoned': lambda: qi.PoisonedModel(base, tol=0.1),
           'walk': lambda: qi.RandomWalkModel(base, qi.UniformDistribution([[0, 1]] * k)),
           'gwalk': lambda: qi.GaussianRandomWalkModel(base, diagonal=d.bool()),
           'hyper': lambda: qi.GaussianHyperparameterizedModel(base)}[which]()
    if d.bool():
        cur = qi.MLEModel(cur, 2)
    extra = cur.n_modelparams - k
    if which == 'hyper':
        req(extra == 4, 'number of parameters', got=extra)
    own = d.arr((n, extra), 0.1, 0.9)
    full = np.concatenate([mps, own], axis=1)
    close(cur.canonicalize(full.copy()), np.concatenate([canon, own], axis=1), 'canonical form', rtol=0, atol=1e-15, which=which)
    close(cur.Q, np.concatenate([Q, np.ones(extra)]), 'scale', rtol=0, atol=0, which=which)
    req(len(cur.modelparam_names) == k + extra and list(cur.modelparam_names)[:k] == list(base.modelparam_names),
        'parameter names', got=cur.modelparam_names)
    case.hit(which, when=extra > 0)


@sub('M04', 60, rule='three or more experiments')
def consistent_dtypes(d, case):
    """A batch has consistent outcome types exactly when every domain of it has the same one."""
    ne = d.int(0, 5)
    kinds = [d.pick([int, np.int8, float]) if d.chance(1, 3) else int for _ in range(ne)]

    class Typed(zoo.VarTableModel):
        def domain(self, expparams):
            return [qi.IntegerDomain(min=0, max=3) if kinds[int(ep['k'])] is int else qi.RealDomain(min=0, max=3) if kinds[int(ep['k'])] is float
                    else qi.MultinomialDomain(n_meas=2, n_elements=2) for ep in expparams]
    m = Typed(3)
    eps = np.zeros(ne, dtype=m.expparams_dtype)
    eps['k'] = np.arange(ne)
    req(bool(m.are_expparam_dtypes_consistent(eps)) == (len(set(kinds)) <= 1), 'consistency of outcome types', kinds=kinds)
    case.hit(when=ne > 2)


@sub('M04', 80, rule='both models were asked')
def two_of_a_kind(d, case):
    """Counters and settings of one model are not moved by another model of the same kind."""
    cls = d.pick(zoo.TWO + [zoo.Die, zoo.Binom, zoo.Multinom, zoo.Walk, zoo.GWalk, zoo.GHyper, zoo.MLE, zoo.Table])
    f, g = cls(d), cls(d)
    if isinstance(f.model, qi.FiniteOutcomeModel):
        f.model.n_outcomes_cutoff = 17
    np.random.seed(3)
    ask = lambda x: (x.mps(d, 2), x.eps(d, 2))
    mps, eps = ask(f)
    o = f.draw_outcomes(d, eps[0], 2)
    seed = d.seed()

    def answers():
        np.random.seed(seed)
        return [f.model.likelihood(o, mps, eps), f.model.update_timestep(mps, eps), np.asarray(f.model.are_models_valid(mps)),
                f.model.canonicalize(mps), f.model.Q]
    first = answers()
    c, s = f.model.call_count, f.model.sim_count
    h = cls(d)
    for x in (g, h):
        m2, e2 = ask(x)
        x.model.likelihood(x.draw_outcomes(d, e2[0], 2), m2, e2)
        x.model.simulate_experiment(m2, e2, repeat=2)
        if isinstance(x.model, qi.FiniteOutcomeModel):
            x.model.n_outcomes_cutoff = 5
    req(f.model.call_count == c and f.model.sim_count == s, 'counters moved by another model', model=f.name,
        got=[f.model.call_count, f.model.sim_count], expected=[c, s])
    if isinstance(f.model, qi.FiniteOutcomeModel):
        req(f.model.n_outcomes_cutoff == 17, 'a setting of another model')
    for a, b in zip(answers(), first):
        close(a, b, 'answers after another model of the same kind was made and asked', rtol=1e-12, model=f.name)
    case.hit(f.name.split('(')[0], when=True)
