"""B05: Bayes risk and expected information gain of candidate experiments."""
import math

import numpy as np

from core import sub, req, close, same_shape, Reject
import qinfer as qi
import zoo
from p_b01 import draw_static

ASSUMPTIONS = ['models whose likelihood is a normalised distribution over a finite list of outcomes']


def draw(d):
    while True:
        fam = draw_static(d)
        if not isinstance(fam, (zoo.MLE, zoo.GHyper)):
            break
    if isinstance(fam, zoo.Binom):
        fam.nmax = 6
    return fam


def brute(fam, w, locs, ep, Q):
    risk = gain = 0.0
    for o in fam.outcomes(ep):
        l = np.array([fam.ref(o, x, ep) for x in locs])
        u = w * np.maximum(l, 0)
        N = u.sum()
        if N <= 1e-14:
            continue
        p = u / N
        mu = p.dot(locs)
        risk += N * float(p.dot(((locs - mu) ** 2).dot(Q)))
        gain += N * sum(a * math.log(a / b) for a, b in zip(p, w) if a > 0)
    return risk, gain


def setup(d):
    fam = draw(d)
    n, ne = d.int(1, 8), d.int(1, 4)
    up = qi.SMCUpdater(fam.model, n, zoo.FixedPrior(fam.mps(d, n)), resample_thresh=0)
    w = d.weights(n)
    up.particle_weights = w.copy()
    locs = up.particle_locations.copy()
    eps = fam.eps(d, ne)
    if isinstance(fam, zoo.Binom) and d.bool():
        eps['n_meas'] = eps['n_meas'][0]
    return fam, up, w, locs, eps


@sub('B05', 300, rule='a risk strictly between zero and the prior risk')
def bayes_risk(d, case):
    """Bayes risk is the posterior variance, weighted by the scale matrix, averaged over outcomes."""
    fam, up, w, locs, eps = setup(d)
    Q = np.asarray(fam.model.Q, dtype=float)
    got = up.bayes_risk(eps)
    same_shape(got, (len(eps),), 'Bayes risk')
    want = np.array([brute(fam, w, locs, e, Q)[0] for e in eps])
    prior = float(w.dot(((locs - w.dot(locs)) ** 2).dot(Q)))
    close(got, want, 'Bayes risk', rtol=1e-6, atol=1e-9 * max(1, prior), model=fam.name, expparams=eps, weights=w)
    req(got <= prior * (1 + 1e-9) + 1e-12, 'the Bayes risk is at most the current risk', got=got, current=prior)
    req(got >= -1e-12, 'the Bayes risk is not negative')
    req(np.array_equal(up.particle_weights, w) and np.array_equal(up.particle_locations, locs),
        'nothing is changed')
    case.hit(fam.name.split('(')[0], when=np.any((got > 1e-9) & (got < prior - 1e-9)))


@sub('B05', 300, rule='a positive information gain')
def info_gain(d, case):
    """Expected information gain is the divergence of the posterior from the current distribution,
    averaged over outcomes."""
    fam, up, w, locs, eps = setup(d)
    got = up.expected_information_gain(eps)
    same_shape(got, (len(eps),), 'information gain')
    want = np.array([brute(fam, w, locs, e, np.ones(locs.shape[1]))[1] for e in eps])
    close(got, want, 'expected information gain', rtol=1e-6, atol=1e-8, model=fam.name, expparams=eps, weights=w)
    ent = -sum(x * math.log(x) for x in w if x > 0)
    req(got >= -1e-8, 'information gain is not negative')
    req(got <= ent + 1e-8, 'information gain is at most the entropy', got=got, entropy=ent)
    req(np.array_equal(up.particle_weights, w), 'nothing is changed')
    case.hit(fam.name.split('(')[0], when=np.any(got > 1e-6))


@sub('B05', 120, rule='more than one experiment')
def scaling(d, case):
    """Risk is linear in the scale matrix and each experiment is judged on its own."""
    k = d.int(2, 4)
    p = d.int(1, 3)
    Q = d.arr(p, 0.1, 4)
    fam = zoo.VarTable(d, n_mp=p, Q=Q) if d.bool() else zoo.Table(d, k=k, n_mp=p, Q=Q)
    n, ne = d.int(2, 6), d.int(1, 4)
    up = qi.SMCUpdater(fam.model, n, zoo.FixedPrior(fam.mps(d, n)), resample_thresh=0)
    w = d.weights(n)
    up.particle_weights = w
    eps = fam.eps(d, ne)
    full = up.bayes_risk(eps)
    gain = up.expected_information_gain(eps)
    if fam.model.expparams_dtype == [('e', float)]:
        close(up.risk(float(eps['e'][0])), full[:1], 'risk of an experiment given by its only field', rtol=1e-9, atol=1e-12)
    for i in range(ne):
        close(up.bayes_risk(eps[i:i + 1])[0], full[i], 'risk of one experiment on its own', rtol=1e-9, atol=1e-12)
        close(up.expected_information_gain(eps[i:i + 1])[0], gain[i], 'gain of one experiment on its own', rtol=1e-9,
              atol=1e-10)
    want = np.array([brute(fam, w, up.particle_locations, e, Q)[0] for e in eps])
    close(full, want, 'risk under the scale matrix', rtol=1e-7, atol=1e-9)
    case.hit(when=ne > 1)


@sub('B05', 40, rule='more than seventy experiments or outcomes, or two thousand particles')
def large(d, case):
    """The same holds for thousands of particles, many candidates and long lists of outcomes."""
    n, k, ne = d.pick([(2500, 3, 2), (6000, 2, 3), (4, 90, 2), (30, 60, 4), (5, 3, 150), (20, 2, 400), (2, 200, 80)])
    p = d.int(1, 3)
    Q = d.arr(p, 0.1, 4)
    fam = zoo.VarTable(d, n_mp=p, Q=Q) if k < 10 and ne < 10 and d.bool() else zoo.Table(d, k=k, n_mp=p, Q=Q)
    x = d.rng().uniform(0, 1, size=(n, p))
    up = qi.SMCUpdater(fam.model, n, zoo.FixedPrior(x), resample_thresh=0)
    w = d.rng().exponential(size=n)
    w /= w.sum()
    up.particle_weights = w.copy()
    eps = fam.eps(d, min(ne, 5))
    eps = np.concatenate([eps] * (ne // len(eps) + 1))[:ne]
    eps['e'] = d.rng().uniform(0, 6, size=ne)
    risk, gain = up.bayes_risk(eps), up.expected_information_gain(eps)
    same_shape(risk, (ne,), 'Bayes risk')
    same_shape(gain, (ne,), 'information gain')
    for i in range(ne):
        num = fam.model.likelihood(fam.outcomes(eps[i]), x, eps[i:i + 1])[:, :, 0] * w
        N = num.sum(axis=1)
        P = num / np.maximum(N, 1e-300)[:, None]
        var = P.dot(x ** 2) - P.dot(x) ** 2
        close(risk[i], N.dot(var.dot(Q)), 'Bayes risk', rtol=1e-6, atol=1e-12, experiment=i, n=n)
        kl = np.where(P > 0, P * np.log(np.where(P > 0, P, 1) / w), 0).sum(axis=1)
        close(gain[i], N.dot(kl), 'expected information gain', rtol=1e-6, atol=1e-9, experiment=i, n=n)
    case.hit(when=n > 2000 or k > 70 or ne > 70)


@sub('B05', 60, rule='more than one experiment')
def changing_cloud(d, case):
    """Risks and gains are those of the present particles, weights and experiments, all of which may
    have been overwritten since the last question."""
    p, change, fresh, moved = zoo.changed_cloud(d, zoo.table_updater)
    ne = d.int(1, 4)
    eps = np.zeros(ne, dtype=p.model.expparams_dtype)
    eps['e'] = d.arr(ne, 0, 6)

    def ask(q, e):
        return [q.bayes_risk(e), q.expected_information_gain(e)]
    ask(p, eps)
    change()
    if d.bool():
        eps['e'] = d.arr(ne, 0, 6)
    for a, b in zip(ask(p, eps), ask(fresh, eps.copy())):
        close(a, b, 'risk or gain after a change', rtol=1e-10, atol=1e-14)
    case.hit(when=moved and ne > 1)
