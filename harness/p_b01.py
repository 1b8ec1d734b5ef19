"""B01: particle weights are exactly the Bayes posterior on the particles."""
import numpy as np

from core import sub, req, close, same_shape, Reject
import qinfer as qi
import zoo

ASSUMPTIONS = ['reference likelihoods are the documented formulas, evaluated one number at a time']

STATIC = [zoo.Precession, zoo.Inversion, zoo.T2, zoo.Coin, zoo.NoisyCoin, zoo.RB, zoo.Die, zoo.Binom,
          zoo.Multinom, zoo.MLE, zoo.GHyper, zoo.Table, zoo.VarTable, 'tomo']


def draw_static(d):
    c = d.pick(STATIC)
    if c == 'tomo':
        return zoo.Tomo(d, basis=d.pick(['p1', 'g3', 'g2']), diffusive=False)
    if c in (zoo.Binom, zoo.MLE, zoo.GHyper):
        return c(d, under=zoo.draw_two(d, exclude=(zoo.Tomo,)))
    return c(d)


def plain(fam):
    """No diffusion at the bottom."""
    return fam


def start(d, fam, n, **kw):
    prior = zoo.FixedPrior(fam.mps(d, n))
    kw.setdefault('resample_thresh', 0.0)
    up = qi.SMCUpdater(fam.model, n, prior, **kw)
    close(up.particle_weights, np.ones(n) / n, 'initial weights are equal')
    close(up.particle_locations, prior.rows, 'initial particles are prior samples', rtol=1e-6, atol=1e-7)
    return up


def history(d, fam, T):
    eps = fam.eps(d, T)
    outs = [fam.draw_outcomes(d, eps[t], 1)[0] for t in range(T)]
    return outs, eps


def likes(fam, outs, eps, locs):
    return np.array([[fam.ref(o, x, ep) for x in locs] for o, ep in zip(outs, eps)])


def posterior(w0, L):
    """Exact posterior and per-datum normalisations; rejects histories that are nearly impossible."""
    w = np.array(w0, dtype=float)
    norms = []
    for l in L:
        w = w * l
        s = w.sum()
        if s < 1e-6:
            raise Reject()
        norms.append(s)
        w = w / s
    return w, np.array(norms)


def as_outcomes(fam, outs):
    if isinstance(outs[0], np.void):
        return np.array(outs, dtype=outs[0].dtype)
    return np.array(outs)


@sub('B01', 350, rule='at least two data and a posterior that differs from the prior')
def update(d, case):
    """Each update multiplies weights by the likelihood and normalises; the evidence is recorded."""
    fam = draw_static(d)
    n, T = d.int(1, 12), d.int(1, 4)
    up = start(d, fam, n)
    w0 = np.ones(n) / n
    if d.bool():
        w0 = d.weights(n)
        up.particle_weights = w0.copy()
    locs = up.particle_locations.copy()
    outs, eps = history(d, fam, T)
    w, norms = posterior(w0, likes(fam, outs, eps, locs))
    for t in range(T):
        o = outs[t]
        if d.bool():
            o = as_outcomes(fam, [o])
        elif not isinstance(o, np.void) and fam.outcomes(eps[0]) is not None:
            o = int(o)
        up.update(o, eps[t:t + 1])
        wt, _ = posterior(w0, likes(fam, outs[:t + 1], eps[:t + 1], locs))
        same_shape(up.particle_weights, (n,), 'weights')
        close(up.particle_weights, wt, 'posterior weights after %d data' % (t + 1), rtol=1e-6, atol=1e-9,
              model=fam.name, outcomes=outs[:t + 1])
        req(np.array_equal(up.particle_locations, locs), 'updating a static model leaves the particles in place')
    close(np.array(up.normalization_record, dtype=float).reshape(-1), norms, 'normalisation record', rtol=1e-6, atol=1e-9)
    close(np.exp(up.log_total_likelihood), np.prod(norms), 'total likelihood of the data', rtol=1e-5, atol=1e-12)
    req(len(up.data_record) == T, 'every datum is recorded')
    case.hit(fam.name.split('(')[0], when=T > 1 and n > 1 and np.abs(w - w0).max() > 1e-6)


@sub('B01', 120, rule='evidence below 1e-6')
def small_evidence(d, case):
    """Very unlikely, but possible, data are updated on like any other."""
    n = d.int(1, 6)
    p = np.array([d.logfl(1e-13, 1e-2) for _ in range(n)])
    w = d.weights(n, zeros=False)
    model = qi.CoinModel()
    up = qi.SMCUpdater(model, n, zoo.FixedPrior(p[:, None]), resample_thresh=0.0, zero_weight_policy='error')
    up.particle_weights = w.copy()
    ev = []
    for t in range(d.int(1, 4)):
        o = d.int(0, 3) == 0
        l = 1 - p if o else p
        if l.dot(w) < 1e-14:
            raise Reject()
        ev.append(l.dot(w))
        hyp = up.hypothetical_update(np.array([int(o)]), np.zeros(1, dtype=[]))[0, 0]
        w = l * w / l.dot(w)
        close(hyp, w, 'hypothetical posterior', rtol=1e-6, atol=1e-9)
        up.update(int(o), np.zeros(1, dtype=[]))
        close(up.particle_weights, w, 'posterior', rtol=1e-6, atol=1e-9)
    close(up.log_total_likelihood, np.log(ev).sum(), 'log evidence', rtol=1e-6, atol=1e-6)
    case.hit(when=min(ev) < 1e-6 and n > 1)


@sub('B01', 200, rule='at least two data, not all equal')
def batch(d, case):
    """A batch update equals the same data one at a time, in any chunking and any order."""
    fam = draw_static(d)
    n, T = d.int(1, 10), d.int(1, 6)
    rows = fam.mps(d, n)
    ups = [qi.SMCUpdater(fam.model, n, zoo.FixedPrior(rows), resample_thresh=0.0) for _ in range(4)]
    locs = ups[0].particle_locations.copy()
    outs, eps = history(d, fam, T)
    w, norms = posterior(np.ones(n) / n, likes(fam, outs, eps, locs))
    perm = d.rng().permutation(T)
    posterior(np.ones(n) / n, likes(fam, [outs[i] for i in perm], eps[perm], locs))
    O = as_outcomes(fam, outs)
    ups[0].batch_update(O, eps[:, None] if d.bool() else eps, resample_interval=d.int(1, 7))
    cut = d.int(0, T)
    if cut:
        ups[1].batch_update(O[:cut], eps[:cut])
    if cut < T:
        ups[1].batch_update(O[cut:], eps[cut:])
    for i in perm:
        ups[2].update(O[i:i + 1], eps[i:i + 1])
    for t in range(T):
        ups[3].update(O[t:t + 1], eps[t:t + 1], check_for_resample=False)
    for u, what in zip(ups, ['batch', 'two batches', 'permuted', 'one by one']):
        close(u.particle_weights, w, 'weights (%s)' % what, rtol=1e-6, atol=1e-9, model=fam.name)
        close(u.log_total_likelihood, np.log(norms).sum(), 'log evidence (%s)' % what, rtol=1e-6, atol=1e-6)
        req(len(u.data_record) == T and len(u.normalization_record) == T, 'records (%s)' % what)
    case.hit(fam.name.split('(')[0], when=T > 1 and n > 1)


@sub('B01', 200, rule='more than one experiment or outcome')
def hypothetical(d, case):
    """Hypothetical updates give, for each outcome and experiment, the posterior that outcome would give."""
    fam = d.pick([zoo.draw_constant, draw_static])(d)
    n, ne, no = d.int(1, 8), d.int(1, 6), d.int(1, 6)
    thresh = d.pick([None, None, 1e-12, 1e-3, 0.2, 0.9])
    up = start(d, fam, n, **({} if thresh is None else dict(zero_weight_thresh=thresh)))
    w0 = d.weights(n)
    up.particle_weights = w0.copy()
    locs = up.particle_locations.copy()
    eps = fam.eps(d, ne)
    if isinstance(fam, (zoo.Binom, zoo.VarTable, zoo.Multinom)):
        ne = 1
        eps = eps[:1]
    os = fam.draw_outcomes(d, eps[0], no)
    L = zoo.ref_table(fam, os, locs, eps).transpose(0, 2, 1)
    num = L * w0
    N = num.sum(axis=2)
    ok = N > 1e-6
    W, L2, N2 = up.hypothetical_update(os, eps, return_likelihood=True, return_normalization=True)
    same_shape(W, (no, ne, n), 'hypothetical weights')
    same_shape(L2, (no, ne, n), 'hypothetical likelihood')
    close(L2, L, 'likelihood', rtol=1e-7, atol=1e-9, model=fam.name)
    close(np.asarray(N2).reshape(no, ne), N, 'normalisation', rtol=1e-7, atol=1e-9)
    close(W[ok], (num / np.where(ok, N, 1)[..., None])[ok], 'hypothetical posterior', rtol=1e-6, atol=1e-9)
    req(np.isfinite(W), 'hypothetical weights are finite')
    zero = np.all(np.asarray(N2).reshape(no, ne, 1) == 0, axis=2)
    req(W[zero] == 0, 'impossible outcomes give zero weights')
    W1 = up.hypothetical_update(os, eps)
    req(np.array_equal(W1, W), 'weights do not depend on what else is returned')
    W2, N3 = up.hypothetical_update(os, eps, return_normalization=True)
    W3, L3 = up.hypothetical_update(os, eps, return_likelihood=True)
    req(np.array_equal(W2, W) and np.array_equal(W3, W) and np.array_equal(N3, N2) and np.array_equal(L3, L2),
        'return flags select, never change, the results')
    req(np.array_equal(up.particle_weights, w0) and np.array_equal(up.particle_locations, locs)
        and up.data_record == [] and list(up.normalization_record) == [] and up.resample_count == 0,
        'a hypothetical update changes nothing')
    if ok[0, 0] and thresh in (None, 1e-12):
        up.update(os[0], eps[:1])
        close(up.particle_weights, W[0, 0], 'the real update equals its hypothetical', rtol=1e-9, atol=1e-12)
    case.hit(when=(no > 1 or ne > 1) and n > 1)


class Drift(zoo.TableModel):
    def update_timestep(self, mps, eps):
        return mps[:, :, None] * (1 - 0.3 * np.sin(eps['e']) ** 2)[None, None, :]


@sub('B01', 150, rule='at least two data')
def moving(d, case):
    """The datum is scored at the particles' position before they move, then they move once."""
    k = d.int(2, 3)
    fam = zoo.Table(d, k=k, lo=0, n_mp=d.int(1, 2))
    fam.model = Drift(k, 0, fam.model.n_mp)
    n, T = d.int(1, 8), d.int(1, 4)
    up = start(d, fam, n)
    outs, eps = history(d, fam, T)
    locs, w, norms = up.particle_locations.copy(), np.ones(n) / n, []
    for t in range(T):
        w, nn = posterior(w, likes(fam, outs[t:t + 1], eps[t:t + 1], locs))
        norms.append(nn[0])
        locs = locs * (1 - 0.3 * np.sin(eps['e'][t]) ** 2)
        if d.bool():
            up.update(int(outs[t]), eps[t:t + 1])
        else:
            up.batch_update(np.array(outs[t:t + 1]), eps[t:t + 1])
        close(up.particle_weights, w, 'weights', rtol=1e-6, atol=1e-9, step=t)
        close(up.particle_locations, locs, 'locations', rtol=1e-9, atol=1e-12, step=t)
    close(np.array(up.normalization_record, dtype=float).reshape(-1), np.array(norms), 'evidence', rtol=1e-6, atol=1e-9)
    case.hit(when=T > 1 and n > 1)


@sub('B01', 40, rule='always')
def batch_mismatch(d, case):
    """A batch with differing numbers of outcomes and experiments is refused, untouched."""
    fam = zoo.draw_constant(d)
    up = start(d, fam, 4)
    a = d.int(0, 4)
    b = a + d.int(1, 2)
    if d.bool():
        a, b = b, a
    eps = fam.eps(d, b)
    os = fam.draw_outcomes(d, fam.eps(d, 1)[0], a) if a else np.zeros(0, dtype=int)
    w = up.particle_weights.copy()
    try:
        up.batch_update(os, eps)
    except ValueError:
        pass
    else:
        req(False, 'a batch of %d outcomes and %d experiments was accepted' % (a, b))
    req(np.array_equal(w, up.particle_weights) and up.data_record == [], 'nothing was changed')
    case.hit()


@sub('B01', 30, rule='more than two thousand particles, or more than seventy outcomes')
def large(d, case):
    """The same holds for thousands of particles, long lists of outcomes and long batches of experiments."""
    n = d.pick([3, 40, 1600, 2500, 6000, 20000])
    k = d.pick([2, 5, 80, 150]) if n < 3000 else d.pick([2, 3])
    m = zoo.TableModel(k, d.pick([0, 1]), d.int(1, 2))
    x = d.rng().uniform(0, 1, size=(n, m.n_mp))
    up = qi.SMCUpdater(m, n, zoo.FixedPrior(x), resample_thresh=0)
    w = d.rng().exponential(size=n)
    w /= w.sum()
    up.particle_weights = w.copy()
    for _ in range(d.int(1, 3)):
        ne = d.pick([1, 1, 3, 90 if n < 3000 and k < 10 else 2])
        eps = np.zeros(ne, dtype=m.expparams_dtype)
        eps['e'] = d.rng().uniform(0, 6, size=ne)
        outs = m.lo + np.arange(k)
        L = m.likelihood(outs, x, eps).transpose(0, 2, 1)
        num = L * w
        N = num.sum(axis=2)
        how = d.pick(['hypothetical', 'update', 'batch'])
        if how == 'hypothetical':
            W, LL, NN = up.hypothetical_update(outs, eps, return_likelihood=True, return_normalization=True)
            same_shape(W, (k, ne, n), 'hypothetical weights')
            close(W, num / N[:, :, None], 'hypothetical weights', rtol=1e-9, atol=1e-15, n=n, outcomes=k)
            close(LL, L, 'likelihoods', rtol=1e-12)
            close(np.asarray(NN).reshape(k, ne), N, 'normalisations', rtol=1e-10)
            continue
        o = d.ints(ne, 0, k - 1)
        before = len(up.data_record)
        if how == 'batch':
            up.batch_update(m.lo + o, eps, resample_interval=ne + 1)
        else:
            for t in range(ne):
                up.update(int(m.lo + o[t]), eps[t:t + 1], check_for_resample=False)
        norms = []
        for t in range(ne):
            w = w * L[o[t], t]
            norms.append(w.sum())
            w = w / w.sum()
        close(up.particle_weights, w, 'posterior weights', rtol=1e-8, atol=1e-14, n=n, data=ne)
        close(np.ravel(up.normalization_record)[before:], norms, 'normalisations recorded', rtol=1e-8)
        close(up.log_total_likelihood, np.sum(np.log(np.ravel(up.normalization_record))), 'evidence', rtol=1e-8)
        req(len(up.data_record) == before + ne, 'data recorded')
    req(np.array_equal(up.particle_locations, x), 'particles stay in place')
    case.hit(when=n > 2000 or k > 70)
