"""Priors of every family, with the arrays and lists they were built from."""
import numpy as np

import boot  # noqa: F401
import qinfer as qi
from qinfer import tomography as tm


class Half(object):
    """What PostselectedDistribution needs of a model: the first parameter exceeds a half (with probability above 1/4)."""

    def __init__(self, cut):
        self.cut = cut

    def are_models_valid(self, x):
        return x[:, 0] >= self.cut


def elementary(d):
    """(name, distribution, arguments)"""
    kind = d.int(0, 13)
    k = d.int(1, 3)
    if kind == 0:
        lo = d.arr(k, -2, 2)
        r = np.stack([lo, lo + d.arr(k, 0.1, 2)], axis=1)
        r = r if d.bool() else r.tolist()
        return 'uniform', qi.UniformDistribution(r), [r]
    if kind == 1:
        lo = d.arr(k, -2, 2)
        r = np.stack([lo, lo + d.arr(k, 0.1, 2)], axis=1)
        return 'slanted', qi.SlantedNormalDistribution(r, d.pick([0.01, 0.3])), [r]
    if kind == 2:
        v = d.arr(k, -2, 2)
        v = v if d.bool() else v.tolist()
        return 'constant', qi.ConstantDistribution(v), [v]
    if kind == 3:
        t = d.pick([None, (-1.0, 2.0)])
        return 'normal', qi.NormalDistribution(d.fl(-1, 1), d.fl(0.1, 2), trunc=t), [t]
    if kind == 4:
        a = d.arr((k, k), -1, 1)
        mean, cov = d.arr(k, -2, 2), a.dot(a.T) + 0.1 * np.eye(k)
        return 'multivariate normal', qi.MultivariateNormalDistribution(mean, cov), [mean, cov]
    if kind == 5:
        return 'log-normal', qi.LogNormalDistribution(d.fl(-1, 1), d.fl(0.1, 1)), []
    if kind == 6:
        return 'beta', qi.BetaDistribution(mean=d.fl(0.2, 0.8), var=0.01), []
    if kind == 7:
        a = d.arr(k + 1, 0.5, 4)
        a = a if d.bool() else a.tolist()
        return 'dirichlet', qi.DirichletDistribution(a), [a]
    if kind == 8:
        return 'beta-binomial', qi.BetaBinomialDistribution(d.int(1, 20), alpha=d.fl(0.5, 3), beta=d.fl(0.5, 3)), []
    if kind == 9:
        return 'gamma', qi.GammaDistribution(alpha=d.fl(0.5, 3), beta=d.fl(0.5, 3)), []
    if kind == 10:
        return 'simplex', qi.MVUniformDistribution(k + 1), []
    if kind == 11:
        return 'discrete', qi.DiscreteUniformDistribution(d.int(1, 6)), []
    if kind == 12:
        return d.pick([('hilbert-schmidt', qi.HilbertSchmidtUniform(), []), ('haar', qi.HaarUniform(), []),
                       ('ginibre qubit', qi.GinibreUniform(), [])])
    x, w = d.arr((5, k), -1, 1), d.weights(5)
    return 'particles', qi.ParticleDistribution(particle_locations=x, particle_weights=w), [x, w]


def tomographic(d):
    kind = d.int(0, 3)
    b = d.pick([tm.pauli_basis(1), tm.gell_mann_basis(2), tm.gell_mann_basis(3)])
    if kind == 0:
        return 'ginibre', d.pick([tm.GinibreDistribution, tm.GinibreReditDistribution])(b, d.pick([None, 1, 2])), []
    if kind == 1:
        return 'bcsz', tm.BCSZChoiDistribution(tm.pauli_basis(1), d.pick([None, 1, 2])), []
    if kind == 2:
        import qutip as qt
        n = int(b.dim)
        mean = qt.Qobj(np.diag(np.arange(2.0, 2 + n)) / np.arange(2.0, 2 + n).sum())
        return 'gadfli', tm.GADFLIDistribution(tm.GinibreDistribution(b), mean), []
    return 'tensor', tm.TensorProductDistribution([tm.GinibreDistribution(tm.pauli_basis(1)) for _ in range(2)]), []


def draw_prior(d, depth=1):
    kind = d.int(0, 7 if depth else 3)
    if kind <= 3:
        return elementary(d)
    if kind == 4:
        return tomographic(d)
    if kind == 5:
        parts = [draw_prior(d, depth - 1) for _ in range(d.int(1, 3))]
        fs = [p[1] for p in parts]
        return 'product', qi.ProductDistribution(*fs) if d.bool() else qi.ProductDistribution(fs), \
            sum((p[2] for p in parts), [])
    if kind == 6:
        if d.bool():
            c = d.pick([0.2, 0.5])
            return 'postselected', qi.PostselectedDistribution(qi.UniformDistribution([[0, 1], [-1, 1]]), Half(c)), []
        if d.bool():
            w = d.weights(3)
            mu = d.arr((3, 1), -2, 2)
            var = d.arr((3, 1), 0.1, 1)
            return 'mixture of class', qi.MixtureDistribution(
                w, qi.NormalDistribution, dist_args=np.concatenate([mu, var], axis=1)), [w, mu, var]
        w = d.weights(2)
        k = d.int(1, 2)
        return 'mixture', qi.MixtureDistribution(w, [qi.UniformDistribution([[0, 1]] * k),
                                                     qi.ConstantDistribution([7.0] * k)]), [w]
    if d.bool():
        return 'interpolated', qi.InterpolatedUnivariateDistribution(lambda x: np.exp(-x ** 2 / 2), 1, 300), []
    return 'constrained sum', qi.ConstrainedSumDistribution(qi.UniformDistribution([[0.1, 1]] * 3), 2.0), []


def prec_data(d, n=6):
    """Counts a precession at some frequency inside (0, 1) explains."""
    w, ts = d.fl(0.2, 0.8), d.arr(n, 1, 4)
    return np.stack([np.round(10 * np.cos(w * ts / 2) ** 2), ts, np.full(n, 10)], axis=1)
