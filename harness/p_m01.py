"""M01: likelihood tensors are normalised distributions, evaluated point by point."""
import numpy as np

from core import sub, req, close, same_shape
import qinfer as qi
import zoo

ASSUMPTIONS = ['model parameters are valid for the model; outcomes are drawn from the domain the model reports']


def np_names(fam):
    return fam.name.split('(')[0]


def domain_values(fam, eps, i):
    dom = fam.model.domain(eps[i:i + 1])
    req(len(dom) == 1, 'domain() returns one domain per experiment', got=len(dom))
    return dom[0].values


@sub('M01', 500, rule='several models, several experiments or more than two outcomes')
def normalised(d, case):
    """Likelihoods over an experiment's whole domain are in [0,1] and sum to one."""
    fam = zoo.draw_finite(d)
    nm, ne = d.int(1, 4), d.int(1, 3)
    mps, eps = fam.mps(d, nm), fam.eps(d, ne)
    case.label(np_names(fam))
    for i in range(ne):
        vals = domain_values(fam, eps, i)
        L = fam.model.likelihood(vals, mps, eps[i:i + 1])
        same_shape(L, (len(vals), nm, 1), 'likelihood tensor')
        req(np.isfinite(L), 'likelihoods are finite', model=fam.name, L=L)
        req((L >= -1e-12) & (L <= 1 + 1e-12), 'likelihoods lie in [0, 1]', model=fam.name, L=L)
        close(L.sum(axis=0), np.ones((nm, 1)), 'likelihoods sum to one over the domain', rtol=0, atol=1e-9,
              model=fam.name, domain=vals)
        case.hit(when=nm > 1 or len(vals) > 2)


@sub('M01', 500, rule='the tensor has at least two entries along two axes')
def pointwise(d, case):
    """likelihood(outcomes, models, experiments)[i, j, k] is the likelihood of the single triple."""
    fam = zoo.draw_any(d)
    nm, ne, no = d.int(1, 5), d.int(1, 4), d.int(1, 4)
    mps, eps = fam.mps(d, nm), fam.eps(d, ne)
    case.label(np_names(fam))
    k0 = d.int(0, ne - 1)
    os = fam.draw_outcomes(d, eps[k0], no)
    if os.dtype.kind == 'i' and (os >= 0).all() and d.bool():
        os = os.astype(d.pick(['uint8', 'uint64', 'int32', 'int64']))
    L = fam.model.likelihood(os, mps, eps)
    same_shape(L, (no, nm, ne), 'likelihood tensor')
    mps0, eps0, os0 = mps.copy(), eps.copy(), os.copy()
    for i in range(no):
        for j in range(nm):
            for k in range(ne):
                one = fam.model.likelihood(os[i:i + 1], mps[j:j + 1], eps[k:k + 1])
                same_shape(one, (1, 1, 1), 'single likelihood')
                close(L[i, j, k], one[0, 0, 0], 'tensor entry equals the likelihood of the single triple',
                      rtol=1e-9, atol=1e-12 if getattr(fam, 'power', 1) >= 1 else 1e-6, model=fam.name, index=(i, j, k))
    req(np.array_equal(mps, mps0) and np.array_equal(eps, eps0) and np.array_equal(os, os0),
        'likelihood leaves its arguments unchanged', model=fam.name)
    case.hit(when=(no > 1) + (nm > 1) + (ne > 1) >= 2)


@sub('M01', 300, rule='at least two models, and an array in another layout')
def layouts(d, case):
    """Every answer of a model depends on the values in its arguments, not on their place in memory; no argument needs to be writeable."""
    fam = zoo.draw_any(d)
    m = fam.model
    nm, ne, no = d.int(1, 4), d.int(1, 3), d.int(1, 4)
    rep = d.int(1, 3)
    mps, eps = fam.mps(d, nm), fam.eps(d, ne)
    os = fam.draw_outcomes(d, eps[0], no)
    os2, mps2, eps2 = zoo.relayout(d, os), zoo.relayout(d, mps), zoo.relayout(d, eps)
    tol = dict(rtol=1e-9, atol=1e-12 if getattr(fam, 'power', 1) >= 1 else 1e-6, model=fam.name)
    seed = d.seed()

    def both(what, f):
        np.random.seed(seed)
        a = np.asarray(f(os, mps, eps))
        np.random.seed(seed)
        b = np.asarray(f(os2, mps2, eps2))
        req(a.shape == b.shape and a.dtype == b.dtype, what + ' in another memory layout', model=fam.name, got=(b.shape, b.dtype),
            expected=(a.shape, a.dtype))
        if a.dtype.kind in 'fc':
            close(b, a, what + ' in another memory layout', **tol)
        else:
            req(np.array_equal(a, b), what + ' in another memory layout', model=fam.name, got=b, expected=a)
    both('likelihood', lambda o, x, e: m.likelihood(o, x, e))
    both('are_models_valid', lambda o, x, e: m.are_models_valid(x))
    both('canonicalize', lambda o, x, e: m.canonicalize(x))
    both('n_outcomes', lambda o, x, e: m.n_outcomes(e))
    both('experiment_cost', lambda o, x, e: m.experiment_cost(e))
    both('distance', lambda o, x, e: m.distance(x, x[::-1]))
    both('update_timestep', lambda o, x, e: m.update_timestep(x, e))
    both('simulate_experiment', lambda o, x, e: m.simulate_experiment(x, e, repeat=rep))
    if hasattr(m, 'score'):
        for what, f in (('score', lambda o, x, e: m.score(o, x, e)), ('fisher_information', lambda o, x, e: m.fisher_information(x, e))):
            try:
                with np.errstate(all='ignore'):
                    both(what, f)
            except (NotImplementedError, AssertionError):
                pass
    # a slice of the outcomes of a simulation is a set of outcomes
    sim = m.simulate_experiment(mps, eps, repeat=rep)
    if np.ndim(sim) == 3:
        for piece in (sim[:, 0, 0], sim[:, nm - 1, ne - 1], sim[0, :, ne - 1], sim[0].T[ne - 1]):
            k = 0 if piece.shape == (rep,) and np.array_equal(piece, sim[:, 0, 0]) else ne - 1
            close(m.likelihood(piece, mps, eps[k:k + 1]), m.likelihood(piece.copy(), mps, eps[k:k + 1]),
                  'likelihood of a slice of simulated outcomes', **tol)
    case.label(np_names(fam))
    case.hit(when=nm > 1)


@sub('M01', 200, rule='a permutation or repetition that moves at least one entry')
def equivariant(d, case):
    """Permuting or repeating outcomes, models or experiments permutes or repeats the tensor."""
    fam = zoo.draw_any(d)
    nm, ne, no = d.int(1, 12), d.int(1, 9), d.int(1, 9)
    mps, eps = fam.mps(d, nm), fam.eps(d, ne)
    os = fam.draw_outcomes(d, eps[0], no)
    L = fam.model.likelihood(os, mps, eps)
    ix = [d.ints(d.int(1, 10), 0, n - 1) for n in (no, nm, ne)]
    L2 = fam.model.likelihood(os[ix[0]], mps[ix[1]], eps[ix[2]])
    close(L2, L[np.ix_(*ix)], 'reindexed tensor', rtol=1e-9, atol=1e-12 if getattr(fam, 'power', 1) >= 1 else 1e-6, model=fam.name)
    case.hit(fam.name.split('(')[0], when=max(nm, ne, no) > 1)


@sub('M01', 120, rule='a domain of more than two outcomes')
def domain_matches(d, case):
    """The reported domain holds exactly n_outcomes outcomes, for every experiment of a batch."""
    fam = zoo.draw_finite(d)
    ne = d.int(1, 4)
    eps = fam.eps(d, ne)
    doms = fam.model.domain(eps)
    req(len(doms) == ne, 'one domain per experiment', got=len(doms), expected=ne)
    n = fam.model.n_outcomes(eps)
    for k in range(ne):
        want = fam.outcomes(eps[k])
        vals = doms[k].values
        nk = float(np.broadcast_to(np.asarray(n).reshape(-1), (ne,))[k]) if np.size(n) in (1, ne) else -1
        req(abs(nk - len(want)) < 1e-6, 'n_outcomes', model=fam.name, got=n, expected=len(want))
        req(sorted(map(str, np.asarray(vals).tolist())) == sorted(map(str, want.tolist())),
            'domain lists every outcome once', model=fam.name, got=vals, expected=want)
        case.hit(fam.name.split('(')[0], when=len(want) > 2)
    if fam.model.is_n_outcomes_constant:
        req(doms[0].n_members == fam.model.domain(None).n_members, 'domain(None) of a constant-outcome model')


@sub('M01', 100, rule='a vector that is no state')
def effects(d, case):
    """Tomographic likelihoods are probabilities for states measured in themselves, for the certain and the
    impossible effect, and for vectors that are no states but that the model reports as valid."""
    fam = zoo.Tomo(d)
    m, D = fam.model, fam.basis.dim
    nm, ne = d.int(1, 4), d.int(1, 3)
    mps, eps = fam.mps(d, nm), fam.eps(d, ne)
    kind = d.pick(['own', 'certain', 'impossible', 'no state', 'no state'])
    r = d.rng()
    if kind == 'own':
        for i in range(ne):
            v = np.linalg.eigh(fam.states(d, 1)[0])[1][:, -1]
            eps['meas'][i] = mps[i % nm, :D * D] = fam.vec(np.outer(v, v.conj()))
    elif kind != 'no state':
        eps['meas'][:] = fam.vec(np.eye(D) * (kind == 'certain'))
    else:
        mps[:, 1:D * D] += r.randn(nm, D * D - 1) * d.logfl(0.1, 10)
        if not np.all(m.are_models_valid(mps)):
            return
    L = m.likelihood(np.array([0, 1]), mps, eps)
    same_shape(L, (2, nm, ne), 'likelihood tensor')
    req((L >= -1e-12) & (L <= 1 + 1e-12), 'likelihoods lie in [0, 1]', kind=kind, L=L)
    close(L.sum(axis=0), np.ones((nm, ne)), 'likelihoods sum to one', rtol=0, atol=1e-9)
    if kind == 'own':
        for i in range(ne):
            if i + nm >= ne:
                close(L[1, i % nm, i], 1, 'a pure state passes its own test', rtol=0, atol=1e-9)
    elif kind != 'no state':
        close(L[1], np.full((nm, ne), float(kind == 'certain')), 'the %s effect' % kind, rtol=0, atol=1e-9)
    case.hit(kind, when=kind == 'no state')


@sub('M01', 60, rule='several outcomes, models and experiments')
def two_outcome_arrays(d, case):
    """The helper that two-outcome models use lays the probability of zero, or its complement, out by outcome."""
    nm, ne = d.int(1, 4), d.int(1, 4)
    p = d.arr((nm, ne), 0, 1)
    os = d.ints(d.int(1, 6), 0, 1).astype(d.pick([int, np.uint8, bool, float]))
    if d.chance(1, 3):
        os = os[0] if d.bool() else int(os[0])
    L = qi.FiniteOutcomeModel.pr0_to_likelihood_array(os, p)
    same_shape(L, (np.size(os), nm, ne), 'likelihood array')
    for i, o in enumerate(np.ravel(os)):
        close(L[i], p if o == 0 else 1 - p, 'probability of outcome %r' % o, rtol=1e-14, atol=1e-15)
    case.hit(when=np.size(os) > 1 and nm > 1 and ne > 1)


@sub('M01', 30, rule='an axis longer than a thousand, or more than a hundred outcomes')
def large(d, case):
    """Long lists of outcomes, models and experiments are answered entry by entry like short ones."""
    fam = zoo.draw_any(d)
    big = d.pick(['models', 'experiments', 'outcomes'])
    nm = d.pick([1100, 3000]) if big == 'models' else d.int(1, 3)
    ne = d.pick([150, 1100]) if big == 'experiments' else d.int(1, 3)
    mps = np.asarray(fam.mps(d, min(nm, 12)))
    mps = mps[d.rng().randint(0, len(mps), size=nm)]
    eps = fam.eps(d, min(ne, 12))
    eps = eps[d.rng().randint(0, len(eps), size=ne)]
    os = np.asarray([fam.draw_outcomes(d, eps[i % ne], 1)[0] for i in range(3)])
    no = d.pick([120, 400]) if big == 'outcomes' else d.int(1, 3)
    os = os[d.rng().randint(0, len(os), size=no)]
    L = fam.model.likelihood(os, mps, eps)
    same_shape(L, (no, nm, ne), 'likelihood')
    pick = lambda n: np.unique(np.concatenate([[0, n - 1], d.rng().randint(0, n, size=3)]))
    for i in pick(no):
        for j in pick(nm):
            for e in pick(ne):
                close(L[i, j, e], fam.model.likelihood(os[i:i + 1], mps[j:j + 1], eps[e:e + 1])[0, 0, 0],
                      'likelihood of a single triple', rtol=1e-7, atol=1e-9, model=fam.name, at=(i, j, e))
    v = fam.model.are_models_valid(mps)
    same_shape(v, (nm,), 'validity')
    uniq, inv = np.unique(mps, axis=0, return_inverse=True)
    one = np.array([bool(fam.model.are_models_valid(u[None, :])[0]) for u in uniq])
    req(v == one[np.ravel(inv)], 'validity is judged model by model')
    case.hit(big, when=max(nm, ne) > 1000 or no > 100)


@sub('M01', 120, rule='several models or several experiments')
def overwritten_arrays(d, case):
    """Asked again after the same arrays were overwritten, a model answers for what they hold now."""
    fam = zoo.draw_finite(d)
    nm, ne = d.int(1, 4), d.int(1, 3)
    mps, eps = fam.mps(d, nm).copy(), fam.eps(d, ne).copy()
    o = np.asarray(fam.outcomes(eps[0]))
    if o.dtype.names is None:
        o = o.copy()
    ask = lambda a, b: [fam.model.likelihood(o, a, b), fam.model.n_outcomes(b), np.asarray(fam.model.are_models_valid(a))]
    ask(mps, eps)
    which = d.pick(['models', 'experiments', 'both'])
    new_m, new_e = fam.mps(d, nm), fam.eps(d, ne)
    if isinstance(fam, zoo.Multinom) or isinstance(fam, zoo.Binom):
        new_e['n_meas'] = eps['n_meas']
    if which != 'experiments':
        mps[...] = new_m
    if which != 'models':
        eps[...] = new_e
    got, want = ask(mps, eps), ask(mps.copy(), eps.copy())
    for a, b in zip(got, want):
        close(a, b, 'an answer for overwritten arrays', rtol=1e-12, model=fam.name, overwritten=which)
    case.hit(fam.name.split('(')[0], when=nm > 1 or ne > 1)
