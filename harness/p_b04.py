"""B04: mixing an expensive and a cheap model."""
import numpy as np

from core import sub, req, close, same_shape
import qinfer as qi
import zoo
from p_b01 import posterior

ASSUMPTIONS = ['which of several equally heavy particles are judged by which model is not specified']


class Good(zoo.TableModel):
    seen = None

    def likelihood(self, outcomes, modelparams, expparams):
        req(len(modelparams) > 0, 'a model is never asked about no particles')
        if self.seen is not None:
            self.seen.append(modelparams.copy())
        return zoo.TableModel.likelihood(self, outcomes, modelparams, expparams)


class Cheap(Good):
    def likelihood(self, outcomes, modelparams, expparams):
        L = Good.likelihood(self, outcomes, modelparams, expparams)
        return 0.1 + 0.4 * L


def make(d, same=False, exact=False, **kw):
    k = d.int(2, 4)
    p = d.int(1, 2)
    n = d.int(1, 12)
    good = Good(k, 0, p)
    apx = good if same else Cheap(k, 0, p)
    rows = d.rng().uniform(0, 1, size=(n, p))
    w = d.weights(n)
    if exact:       # the weight of one of the particles
        kw['mixture_thresh'] = float(w[d.int(0, n - 1)])
    up = qi.MixedApproximateSMCUpdater(good, apx, n, zoo.FixedPrior(rows), resample_thresh=0.0, **kw)
    up.particle_weights = w.copy()
    fam = zoo.Table(d, k=k, lo=0, n_mp=p)
    fam.thresh = kw.get('mixture_thresh', 1.0)
    return good, apx, fam, up, w, rows


@sub('B04', 300, rule='both models were used')
def mixture(d, case):
    """The heaviest particles, holding at least the asked share of the weight, are judged by the
    complete model, all others by the approximate one."""
    ratio = d.pick([0.0, 0.1, 0.5, 0.5, 0.9, 0.99, 1.0])
    thresh = d.pick([1.0, 1.1, 0.3, 0.05])
    min_good = d.pick([0, 0, 1, 3])
    exact = d.chance(1, 4)
    good, apx, fam, up, w, rows = make(d, mixture_ratio=ratio, mixture_thresh=thresh, min_good=min_good, exact=exact)
    thresh = fam.thresh if exact else thresh
    n = len(w)
    no, ne = d.int(1, 2), d.int(1, 3)
    eps = fam.eps(d, ne)
    os = d.ints(no, 0, fam.model.k - 1)
    d.np_seed()
    good.seen, apx.seen = [], []
    W, L, N = up.hypothetical_update(os, eps, return_likelihood=True, return_normalization=True)
    same_shape(W, (no, ne, n), 'weights')
    same_shape(L, (no, ne, n), 'likelihood')
    sg = [tuple(r) for a in good.seen for r in a]
    sa = [tuple(r) for a in apx.seen for r in a]
    keys = [tuple(r) for r in rows]
    gmask = np.array([kk in sg for kk in keys])
    amask = np.array([kk in sa for kk in keys])
    req(gmask != amask, 'each particle is judged by exactly one of the models', good=gmask, approximate=amask)
    true = zoo.ref_table(fam, os, rows, eps).transpose(0, 2, 1)
    want = np.where(gmask, true, 0.1 + 0.4 * true)
    close(L, want, 'likelihood', rtol=1e-9)
    num = want * w
    close(np.asarray(N).reshape(no, ne), num.sum(axis=2), 'normalisation', rtol=1e-9, atol=1e-12)
    close(W, num / num.sum(axis=2, keepdims=True), 'posterior', rtol=1e-7, atol=1e-10)
    req(np.array_equal(up.particle_weights, w), 'nothing is changed')
    if gmask.any() and amask.any():
        req(w[gmask].min() >= w[amask].max() - 1e-12, 'heavier particles go to the complete model')
    req(w[gmask].sum() >= ratio - 1e-9, 'the complete model gets its share of the weight',
        share=w[gmask].sum(), asked=ratio)
    req(np.all(gmask[w >= thresh]), 'particles of at least the threshold go to the complete model')
    req(gmask.sum() >= min(min_good, n), 'at least the minimum number go to the complete model')
    pos = np.sort(w[gmask])
    if len(pos) > max(min_good, 0) and pos.size and pos[0] < thresh - 1e-12 and pos[0] > 1e-9:
        req(pos[1:].sum() <= ratio + 1e-9, 'no more particles than needed go to the complete model',
            weights=pos, asked=ratio)
    case.hit(when=gmask.any() and amask.any())


@sub('B04', 200, rule='at least two particles and two data')
def same_model(d, case):
    """When both models agree the mixture is an ordinary Bayes update."""
    good, apx, fam, up, w, rows = make(d, same=True, mixture_ratio=d.fl(0, 1), mixture_thresh=d.fl(0.01, 1.1),
                                       min_good=d.int(0, 5))
    T = d.int(1, 4)
    eps = fam.eps(d, T)
    os = d.ints(T, 0, fam.model.k - 1)
    L = np.array([[fam.ref(o, x, e) for x in rows] for o, e in zip(os, eps)])
    want, norms = posterior(w, L)
    d.np_seed()
    for t in range(T):
        up.update(int(os[t]), eps[t:t + 1])
    close(up.particle_weights, want, 'posterior', rtol=1e-6, atol=1e-9)
    close(up.log_total_likelihood, np.log(norms).sum(), 'evidence', rtol=1e-7, atol=1e-9)
    case.hit(when=len(rows) > 1 and T > 1)


@sub('B04', 30, rule='more than a thousand particles')
def large(d, case):
    """The split is by weight for any number of particles."""
    n = d.pick([40, 1200, 4000])
    ratio = d.pick([0.1, 0.5, 0.9, 0.999, 1.0])
    good, apx = Good(3, 0, 1), Cheap(3, 0, 1)
    rows = d.rng().uniform(0, 1, size=(n, 1))
    up = qi.MixedApproximateSMCUpdater(good, apx, n, zoo.FixedPrior(rows), resample_thresh=0.0, mixture_ratio=ratio,
                                       mixture_thresh=1.0, min_good=0)
    w = d.rng().exponential(size=n) if d.bool() else 10 ** d.rng().uniform(-9, 0, size=n)
    w /= w.sum()
    up.particle_weights = w.copy()
    eps = np.zeros(2, dtype=good.expparams_dtype)
    eps['e'] = d.rng().uniform(0, 6, size=2)
    good.seen, apx.seen = [], []
    W, L = up.hypothetical_update(np.arange(3), eps, return_likelihood=True)
    seen = np.concatenate([a[:, 0] for a in good.seen]) if good.seen else np.zeros(0)
    g = np.isin(rows[:, 0], seen)
    good.seen = apx.seen = None
    want = np.where(g, good.likelihood(np.arange(3), rows, eps).transpose(0, 2, 1),
                    apx.likelihood(np.arange(3), rows, eps).transpose(0, 2, 1))
    close(L, want, 'likelihood', rtol=1e-9)
    num = want * w
    close(W, num / num.sum(axis=2, keepdims=True), 'posterior', rtol=1e-8, atol=1e-15)
    if g.any() and not g.all():
        req(w[g].min() >= w[~g].max(), 'heavier particles go to the complete model')
    share = w[g].sum()
    req(share >= ratio - 1e-11 * n, 'the complete model gets its share of the weight', share=share, asked=ratio)
    if g.any() and w[g].min() > 1e-11 * n:
        req(share - w[g].min() <= ratio + 1e-11 * n, 'no more particles than needed go to the complete model', share=share,
            lightest=w[g].min(), asked=ratio)
    case.hit(when=n > 1000)
