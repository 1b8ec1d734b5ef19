"""M07: scores and Fisher information are derivatives of the likelihood."""
import numpy as np

from core import sub, req, close, same_shape
import qinfer as qi
from qinfer.finite_difference import FiniteDifference
import zoo

ASSUMPTIONS = ['derivatives are compared where the likelihood is at least 1e-3 and differentiable']


def ref_score(fam, o, mp, ep, h=1e-5):
    g = np.zeros(len(mp))
    for i in range(len(mp)):
        s = np.zeros(len(mp))
        s[i] = h
        f = [fam.ref(o, mp + c * s, ep) for c in (-2, -1, 1, 2)]
        g[i] = (f[0] - 8 * f[1] + 8 * f[2] - f[3]) / (12 * h)
    return g / fam.ref(o, mp, ep)


def diff_fam(d):
    c = d.pick([zoo.Precession, zoo.Inversion, zoo.Coin, zoo.RB, zoo.Softmax, zoo.Softmax, 'scoremix', 'scorebinom', 'scoretable'])
    if not isinstance(c, str):
        return c(d)
    if c == 'scoremix':
        class M(qi.ScoreMixin, qi.UnknownT2Model):
            _h = d.pick([1e-6, np.array([1e-6, 3e-7])])
        fam = zoo.T2(d)
        fam.model = M()
        return fam
    if c == 'scorebinom':
        class M(qi.ScoreMixin, qi.BinomialModel):
            _h = 1e-6
        return zoo.Binom(d, under=zoo.draw_two(d, exclude=(zoo.Tomo,)), cls=M, nmax=4)

    class M(qi.ScoreMixin, zoo.TableModel):
        _h = 1e-6
    fam = zoo.Table(d, k=3, lo=0)
    fam.model = M(d.int(2, 4), 0, d.int(1, 3))
    return fam


def safe(fam, d, nm, ne):
    mps, eps = fam.mps(d, nm), fam.eps(d, ne)
    if isinstance(fam, zoo.RB):
        # keep away from the corners of the parameter region so that neighbours are evaluable
        mps = 0.05 + 0.85 * mps
        mps[:, -2] *= 0.5
        mps[:, -1] *= 0.5
    elif isinstance(fam, zoo.Coin):
        mps = 0.02 + 0.95 * mps
    elif isinstance(fam, zoo.Binom):
        b = fam.u
        mps, eps = safe(b, d, nm, ne)
        eps = zoo.add_field(eps, b.scalar, fam.model.expparams_dtype, d.ints(ne, 1, 4))
    elif isinstance(fam, (zoo.NoisyCoin, zoo.T2)):
        mps = 0.02 + 0.9 * mps
    elif isinstance(fam, zoo.Table):
        mps = 0.02 + 0.9 * mps
    return mps, eps


@sub('M07', 400, rule='a likelihood above 1e-3 with a score that is not zero')
def score(d, case):
    """score[p, i, j, k] is the derivative of the log-likelihood in parameter p."""
    fam = diff_fam(d)
    nm, ne, no = d.int(1, 4), d.int(1, 3), d.int(1, 3)
    mps, eps = safe(fam, d, nm, ne)
    os = fam.draw_outcomes(d, eps[0], no)
    m = fam.model
    q = m.score(os, mps, eps)
    npar = m.n_modelparams
    if np.ndim(q) == 3 and npar == 1:
        q = q[None]
    same_shape(q, (npar, no, nm, ne), 'score of %s' % fam.name)
    q2, L = m.score(os, mps, eps, return_L=True)
    ok = np.broadcast_to(m.likelihood(os, mps, eps)[None] >= 1e-3, q.shape)
    close(np.asarray(q2).reshape(q.shape)[ok], q[ok], 'score with and without return_L', rtol=1e-8, atol=1e-10)
    close(L, m.likelihood(os, mps, eps), 'likelihood returned by score', rtol=1e-10, atol=1e-12)
    for i in range(no):
        for j in range(nm):
            for k in range(ne):
                l0 = fam.ref(os[i], mps[j], eps[k])
                if l0 < 1e-3:
                    continue
                g = ref_score(fam, os[i], mps[j], eps[k])
                close(q[:, i, j, k], g, 'score is the log-likelihood gradient', rtol=2e-4,
                      atol=2e-5 * max(1.0, np.abs(g).max()), model=fam.name, outcome=os[i], mp=mps[j], ep=eps[k])
                case.hit(fam.name.split('(')[0], when=np.abs(g).max() > 1e-6)


@sub('M07', 250, rule='a Fisher matrix that is not zero')
def fisher(d, case):
    """Fisher information is the expected outer product of the score."""
    fam = diff_fam(d)
    nm, ne = d.int(1, 4), d.int(1, 3)
    mps, eps = safe(fam, d, nm, ne)
    m = fam.model
    if not isinstance(m, qi.DifferentiableModel):
        class D(type(m), qi.DifferentiableModel):
            pass
        m.__class__ = D
    if m.n_modelparams == 1 and isinstance(m, zoo.SoftmaxModel) and d.bool():
        class Flat(type(m)):
            """Scores of a single parameter, without an axis for it."""

            def score(self, outcomes, modelparams, expparams, return_L=False):
                q, L = super().score(outcomes, modelparams, expparams, return_L=True)
                return (q[0], L) if return_L else q[0]
        m.__class__ = Flat
    fi = m.fisher_information(mps, eps)
    p = m.n_modelparams
    same_shape(fi, (p, p, nm, ne), 'Fisher information of %s' % fam.name)
    for j in range(nm):
        for k in range(ne):
            want = np.zeros((p, p))
            ls = [fam.ref(o, mps[j], eps[k]) for o in fam.outcomes(eps[k])]
            if min(ls) < 1e-3:
                continue
            for o, l in zip(fam.outcomes(eps[k]), ls):
                g = ref_score(fam, o, mps[j], eps[k])
                want += l * np.outer(g, g)
            close(fi[:, :, j, k], want, 'Fisher information', rtol=1e-3, atol=1e-4 * max(1e-3, np.abs(want).max()),
                  model=fam.name, mp=mps[j], ep=eps[k])
            case.hit(fam.name.split('(')[0], when=np.abs(want).max() > 1e-9)


@sub('M07', 150, rule='a Fisher matrix that is not zero')
def fisher_binomial(d, case):
    """Repeating a differentiable two-outcome experiment multiplies its Fisher information."""
    u = d.pick([zoo.Precession, zoo.Inversion, zoo.Coin, zoo.RB, lambda d: zoo.Softmax(d, 2)])(d)
    m = qi.DifferentiableBinomialModel(u.model)
    nm, ne = d.int(1, 4), d.int(1, 3)
    mps, ue = safe(u, d, nm, ne)
    nmeas = d.ints(ne, 1, d.pick([30, 30, 2000, 10 ** 6]))
    eps = zoo.add_field(ue, u.scalar, m.expparams_dtype, nmeas)
    fi = m.fisher_information(mps, eps)
    p = u.model.n_modelparams
    same_shape(fi, (p, p, nm, ne), 'Fisher information')
    for j in range(nm):
        for k in range(ne):
            ls = [u.ref(o, mps[j], ue[k]) for o in (0, 1)]
            if min(ls) < 1e-3:
                continue
            want = sum(l * np.outer(g, g) for l, g in
                       ((l, ref_score(u, o, mps[j], ue[k])) for o, l in enumerate(ls))) * nmeas[k]
            close(fi[:, :, j, k], want, 'binomial Fisher information', rtol=1e-3,
                  atol=1e-4 * max(1e-3, np.abs(want).max()), model=u.name, n_meas=nmeas[k])
            case.hit(u.name, when=np.abs(want).max() > 1e-9)


@sub('M07', 100, rule='more than one argument')
def finite_difference(d, case):
    """Central differences of a quadratic are its exact gradient, with per-argument steps."""
    n = d.int(1, 4)
    A, b = d.arr((n, n), -2, 2), d.arr(n, -2, 2)
    f = lambda x: float(x.dot(A).dot(x) + b.dot(x))
    h = d.fl(1e-3, 0.5) if d.bool() else d.arr(n, 1e-3, 0.5)
    x = d.arr(n, -2, 2)
    fd = FiniteDifference(f, n, h)
    want = (A + A.T).dot(x) + b
    close(fd(x), want, 'central difference', rtol=1e-6, atol=1e-7)
    close(fd.central(x), want, 'central difference', rtol=1e-6, atol=1e-7)
    case.hit(when=n > 1)


@sub('M07', 100, rule='an outcome rarer than 1e-3')
def rare_outcomes(d, case):
    """Rare outcomes count in full: the information of coins and softmax models in closed form."""
    nm, ne = d.int(1, 4), d.int(1, 3)
    if d.bool():
        m = qi.CoinModel()
        p = np.array([d.logfl(1e-9, 0.4) for _ in range(nm)])
        p = np.where(d.ints(nm, 0, 1) == 1, 1 - p, p) if d.bool() else p
        mps, eps = p[:, None], np.zeros(ne, dtype=m.expparams_dtype)
        want = np.repeat((1 / (p * (1 - p)))[None, None, :, None], ne, axis=3)
        rare = min(p.min(), (1 - p).min())
    else:
        fam = zoo.Softmax(d)
        m = fam.model
        m.A = m.A * d.pick([1.0, 3.0, 8.0])
        mps, eps = fam.mps(d, nm), fam.eps(d, ne)
        pr = m.probabilities(mps, eps)
        want = np.empty((m.n_modelparams, m.n_modelparams, nm, ne))
        for j in range(nm):
            for k in range(ne):
                c = m.A - pr[:, j, k].dot(m.A)
                want[:, :, j, k] = (c * pr[:, j, k][:, None]).T.dot(c)
        rare = pr.min()
    fi = m.fisher_information(mps, eps)
    same_shape(fi, want.shape, 'Fisher information')
    for j in range(nm):
        for k in range(ne):
            close(fi[:, :, j, k], want[:, :, j, k], 'Fisher information', rtol=1e-6, atol=1e-9 * np.abs(want[:, :, j, k]).max() + 1e-14 * np.max(np.abs(getattr(m, 'A', 0))) ** 2, mp=mps[j])
    case.hit(when=rare < 1e-3)


@sub('M07', 40, rule='at least two models')
def flat_parameters(d, case):
    """Models of one parameter take a plain vector of parameters for a column of them."""
    kind = d.pick(['precession', 'inversion', 'coin', 'mixin'])
    if kind == 'mixin':
        class M(qi.ScoreMixin, zoo.Precession(d).model.__class__):
            _h = d.pick([1e-6, np.array([1e-5])])

            def likelihood(self, o, x, e):
                req(np.ndim(x) == 2, 'the likelihood is asked about a matrix of models', got=np.shape(x))
                return super().likelihood(o, x, e)
        fam, m = zoo.Precession(d), M()
    else:
        fam = {'precession': zoo.Precession, 'inversion': zoo.Inversion, 'coin': zoo.Coin}[kind](d)
        m = fam.model
    nm, ne = d.int(1, 4), d.int(1, 3)
    mps, eps = safe(fam, d, nm, ne)
    os = np.array([0, 1])
    col = m.score(os, mps, eps)
    if kind == 'coin':
        return
    flat = m.score(os, mps[:, 0].copy(), eps)
    same_shape(flat, np.shape(col), 'score of a vector of models')
    req(np.array_equal(np.nan_to_num(flat), np.nan_to_num(col)), 'score of a vector of models', flat=flat, column=col)
    case.hit(kind, when=nm > 1)
