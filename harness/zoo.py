"""Models of every family, generators of valid inputs for them, and reference likelihoods
written from the models' documentation, one scalar at a time."""
import functools
import math

import numpy as np

import boot  # noqa: F401
import qinfer as qi
from qinfer.tomography import TomographyModel, DiffusiveTomographyModel, pauli_basis, gell_mann_basis, \
    tensor_product_basis


def _tied(gen):
    @functools.wraps(gen)
    def f(self, d, n, *a, **kw):
        x = gen(self, d, n, *a, **kw)
        if len(x) < 2 or not d.chance(1, 3):
            return x
        names = x.dtype.names
        if names and d.chance(2, 3):
            k = d.int(0, len(names) - 1)
            x[names[k]] = x[names[k]][d.int(0, len(x) - 1)].copy()
        elif d.bool():
            x[d.int(0, len(x) - 1)] = x[d.int(0, len(x) - 1)].copy()
        else:
            x[1:] = x[:1].copy()
        return x
    return f


class Fam(object):
    """One drawn model: .model, .mps(d, n), .eps(d, n), .ref(o, mp, ep) (a probability or a
    density), .outcomes(ep) (all outcomes of one experiment, None if continuous)."""
    two = True           # two outcomes 0/1, constant
    scalar = False       # scalar expparams
    name = '?'

    def __init_subclass__(cls, **kw):
        # Batches with repeated rows and with fields that agree across the batch are as
        # frequent as those in which everything differs.
        super().__init_subclass__(**kw)
        if 'eps' in cls.__dict__:
            cls.eps = _tied(cls.__dict__['eps'])
        if 'mps' in cls.__dict__:
            cls.mps = _tied(cls.__dict__['mps'])

    def outcomes(self, ep):
        return np.array([0, 1])

    def draw_outcomes(self, d, ep, n):
        os = self.outcomes(ep)
        return os[[d.int(0, len(os) - 1) for _ in range(n)]]


class Precession(Fam):
    name, scalar = 'precession', True

    def __init__(self, d):
        self.model = qi.SimplePrecessionModel()

    def mps(self, d, n):
        return d.arr((n, 1), 0.01, 3.0)

    def eps(self, d, n):
        return d.arr(n, 0.0, 12.0)

    def ref(self, o, mp, ep):
        p0 = math.cos(mp[0] * float(ep) / 2) ** 2
        return p0 if o == 0 else 1 - p0


class Inversion(Fam):
    name = 'inversion'

    def __init__(self, d):
        self.model = qi.SimpleInversionModel()

    def mps(self, d, n):
        return d.arr((n, 1), 0.01, 3.0)

    def eps(self, d, n):
        e = np.zeros(n, dtype=self.model.expparams_dtype)
        e['t'] = d.arr(n, 0.0, 12.0)
        e['w_'] = d.arr(n, -1.0, 3.0)
        return e

    def ref(self, o, mp, ep):
        p0 = math.cos((mp[0] - float(ep['w_'])) * float(ep['t']) / 2) ** 2
        return p0 if o == 0 else 1 - p0


class T2(Fam):
    name = 'unknown_t2'

    def __init__(self, d):
        self.model = qi.UnknownT2Model()

    def mps(self, d, n):
        return d.arr((n, 2), 0.0, 2.0)

    def eps(self, d, n):
        e = np.zeros(n, dtype=self.model.expparams_dtype)
        e['t'] = d.arr(n, 0.0, 12.0)
        return e

    def ref(self, o, mp, ep):
        t = float(ep['t'])
        v = math.exp(-t * mp[1])
        p0 = v * math.cos(mp[0] * t / 2) ** 2 + (1 - v) / 2
        return p0 if o == 0 else 1 - p0


class Coin(Fam):
    name = 'coin'

    def __init__(self, d):
        self.model = qi.CoinModel()

    def mps(self, d, n):
        return d.arr((n, 1), 0.0, 1.0)

    def eps(self, d, n):
        return np.zeros(n, dtype=[])

    def ref(self, o, mp, ep):
        return mp[0] if o == 0 else 1 - mp[0]


class NoisyCoin(Fam):
    name = 'noisy_coin'

    def __init__(self, d):
        self.model = qi.NoisyCoinModel()

    def mps(self, d, n):
        return d.arr((n, 1), 0.0, 1.0)

    def eps(self, d, n):
        e = np.zeros(n, dtype=self.model.expparams_dtype)
        e['alpha'] = d.arr(n, 0.0, 1.0)
        e['beta'] = d.arr(n, 0.0, 1.0)
        return e

    def ref(self, o, mp, ep):
        p0 = mp[0] * float(ep['alpha']) + (1 - mp[0]) * float(ep['beta'])
        return p0 if o == 0 else 1 - p0


def simplex_points(d, n, k):
    x = -np.log(1 - 0.999 * d.arr((n, k), 0.0, 1.0)) + 1e-12
    if d.chance(1, 4):      # put some exact zeros in
        x[:, d.int(0, k - 1)] = 0
        x[:, 0] += 1e-3
    return x / x.sum(axis=1, keepdims=True)


class Die(Fam):
    name, two = 'die', False

    def __init__(self, d, k=None):
        self.k = k or d.int(2, 6)
        self.two = False
        self.model = qi.NDieModel(n=self.k)

    def mps(self, d, n):
        return simplex_points(d, n, self.k)

    def eps(self, d, n):
        e = np.zeros(n, dtype=self.model.expparams_dtype)
        e['exp_num'] = d.ints(n, 0, 5)
        return e

    def ref(self, o, mp, ep):
        return mp[int(o)]

    def outcomes(self, ep):
        return np.arange(self.k)


class RB(Fam):
    name = 'rb'

    def __init__(self, d, il=None):
        self.il = d.bool() if il is None else il
        self.name = 'rb_interleaved' if self.il else 'rb'
        self.model = qi.RandomizedBenchmarkingModel(interleaved=self.il)

    def mps(self, d, n):
        ps = d.arr((n, 2 if self.il else 1), 0.0, 1.0)
        B = d.arr((n, 1), 0.0, 1.0)
        A = d.arr((n, 1), 0.0, 1.0) * (1 - B)
        return np.concatenate([ps, A, B], axis=1)

    def eps(self, d, n, lo=0):
        e = np.zeros(n, dtype=self.model.expparams_dtype)
        e['m'] = d.ints(n, lo, 200)
        if self.il:
            e['reference'] = d.ints(n, 0, 1)
        return e

    def ref(self, o, mp, ep):
        if self.il:
            pt, p, A, B = [float(x) for x in mp]
            q = p if bool(ep['reference']) else pt * p
        else:
            q, A, B = [float(x) for x in mp]
        p1 = A * q ** int(ep['m']) + B
        return p1 if o == 1 else 1 - p1


class Tomo(Fam):
    name = 'tomography'

    def __init__(self, d, basis=None, diffusive=None):
        if basis is None:
            basis = d.pick(['p1', 'g2', 'g3', 'p2', 'g2g3'])
        self.basis = {'p1': lambda: pauli_basis(1), 'g2': lambda: gell_mann_basis(2),
                      'g3': lambda: gell_mann_basis(3), 'p2': lambda: pauli_basis(2),
                      'g2g3': lambda: tensor_product_basis(gell_mann_basis(2), gell_mann_basis(3)),
                      'g4': lambda: gell_mann_basis(4)}[basis]()
        self.diff = d.bool() if diffusive is None else diffusive
        self.model = (DiffusiveTomographyModel if self.diff else TomographyModel)(self.basis)
        if self.diff:
            self.name = 'tomography_diffusive'

    def states(self, d, n):
        """Random density matrices of random rank."""
        D = self.basis.dim
        r = d.rng()
        out = []
        for i in range(n):
            k = r.randint(1, D + 1)
            g = r.randn(D, k) + 1j * r.randn(D, k)
            rho = g.dot(g.conj().T)
            out.append(rho / np.trace(rho).real)
        return np.array(out)

    def vec(self, rho):
        return np.real(np.array([np.trace(B.conj().T.dot(rho)) for B in self.basis.data]))

    def mps(self, d, n):
        m = np.array([self.vec(r) for r in self.states(d, n)])
        if self.diff:
            m = np.concatenate([m, 0.01 + 0.1 * d.arr((n, 1), 0, 1)], axis=1)
        return m

    def eps(self, d, n):
        e = np.zeros(n, dtype=self.model.expparams_dtype)
        # measurement effects: 0 <= E <= 1
        for i, rho in enumerate(self.states(d, n)):
            e['meas'][i] = self.vec(rho / np.linalg.norm(rho, 2))
        if self.diff:
            e['t'] = d.arr(n, 0.0, 2.0)
        return e

    def ref(self, o, mp, ep):
        D = self.basis.dim
        rho = sum(x * B for x, B in zip(mp[:D * D], self.basis.data))
        E = sum(x * B for x, B in zip(np.asarray(ep['meas']).reshape(-1), self.basis.data))
        p1 = float(np.clip(np.trace(E.dot(rho)).real, 0, 1))
        return p1 if o == 1 else 1 - p1


# ------------------------------------------------------------ derived

def add_field(eps, scalar, dtype, n_meas):
    e = np.zeros(eps.shape[0], dtype=dtype)
    if scalar:
        e['x'] = eps
    else:
        for f in (eps.dtype.names or ()):
            e[f] = eps[f]
    e['n_meas'] = n_meas
    return e


class Binom(Fam):
    two = False

    def __init__(self, d, under=None, cls=None, nmax=12):
        self.u = under or draw_two(d)
        self.cls = cls or qi.BinomialModel
        self.model = self.cls(self.u.model)
        self.name = 'binomial(%s)' % self.u.name
        self.nmax = nmax

    def mps(self, d, n):
        return self.u.mps(d, n)

    def eps(self, d, n, n_meas=None):
        nm = d.ints(n, 1, self.nmax) if n_meas is None else n_meas
        if d.chance(1, 12):
            nm = np.asarray(nm) * d.int(1, 20)
        return add_field(self.u.eps(d, n), self.u.scalar, self.model.expparams_dtype, nm)

    def uep(self, ep):
        return ep['x'] if self.u.scalar else ep

    def ref(self, o, mp, ep):
        n, k = int(ep['n_meas']), int(o)
        if k < 0 or k > n:
            return 0.0
        p1 = self.u.ref(1, mp, self.uep(ep))
        return math.comb(n, k) * (p1 ** k) * ((1 - p1) ** (n - k))

    def outcomes(self, ep):
        return np.arange(int(ep['n_meas']) + 1)


class Multinom(Fam):
    two = False

    def __init__(self, d, under=None):
        self.u = under or (Die(d, d.int(2, 4)) if d.chance(1, 2) else
                           Table(d, k=d.int(2, 4)) if d.chance(1, 2) else d.pick([Precession, NoisyCoin])(d))
        self.sides = self.u.outcomes(None)
        self.model = qi.MultinomialModel(self.u.model)
        self.name = 'multinomial(%s)' % self.u.name

    def mps(self, d, n):
        return self.u.mps(d, n)

    def eps(self, d, n, n_meas=None):
        nm = d.ints(n, 1, 5) if n_meas is None else n_meas
        return add_field(self.u.eps(d, n), self.u.scalar, self.model.expparams_dtype, nm)

    def uep(self, ep):
        return ep['x'] if self.u.scalar else ep

    def tuples(self, ep):
        k = len(self.u.outcomes(None))
        n = int(ep['n_meas'])

        def rec(k, n):
            if k == 1:
                yield (n,)
                return
            for i in range(n + 1):
                for r in rec(k - 1, n - i):
                    yield (i,) + r
        return list(rec(k, n))

    def outcomes(self, ep):
        k = len(self.u.outcomes(None))
        t = np.array(self.tuples(ep), dtype=int)
        out = np.zeros(len(t), dtype=[('k', int, (k,))])
        out['k'] = t
        return out

    def ref(self, o, mp, ep):
        ks = [int(x) for x in np.asarray(o['k']).reshape(-1)]
        n = int(ep['n_meas'])
        if sum(ks) != n:
            return 0.0
        c = math.factorial(n)
        p = 1.0
        for i, k in enumerate(ks):
            c //= math.factorial(k)
            p *= self.u.ref(self.sides[i], mp, self.uep(ep)) ** k
        return c * p


class MLE(Fam):
    def __init__(self, d, under=None, power=None):
        self.u = under or draw_two(d)
        self.two = self.u.two
        self.scalar = self.u.scalar
        self.power = power or d.pick([0.5, 1, 2, 3, 2.5])
        self.model = qi.MLEModel(self.u.model, self.power)
        self.name = 'mle(%s)' % self.u.name

    def mps(self, d, n):
        return self.u.mps(d, n)

    def eps(self, d, n):
        return self.u.eps(d, n)

    def ref(self, o, mp, ep):
        return max(self.u.ref(o, mp, ep), 0.0) ** self.power

    def outcomes(self, ep):
        return self.u.outcomes(ep)


class Walk(Fam):
    def __init__(self, d, under=None):
        self.u = under or draw_two(d)
        self.two, self.scalar = self.u.two, self.u.scalar
        k = self.u.model.n_modelparams
        self.model = qi.RandomWalkModel(self.u.model, qi.MultivariateNormalDistribution(
            np.zeros(k), 1e-4 * np.eye(k)) if k > 1 else qi.NormalDistribution(0, 1e-4))
        self.name = 'random_walk(%s)' % self.u.name

    def mps(self, d, n):
        return self.u.mps(d, n)

    def eps(self, d, n):
        return self.u.eps(d, n)

    def ref(self, o, mp, ep):
        return self.u.ref(o, mp, ep)

    def outcomes(self, ep):
        return self.u.outcomes(ep)


class GWalk(Fam):
    def __init__(self, d, under=None):
        self.u = under or draw_two(d)
        self.two, self.scalar = False, self.u.scalar
        k = self.u.model.n_modelparams
        self.fixed = d.bool()
        self.diag = d.bool()
        kw = dict(diagonal=self.diag)
        if self.fixed:
            kw['fixed_covariance'] = 1e-4 * (np.ones(k) if self.diag else np.eye(k))
        self.model = qi.GaussianRandomWalkModel(self.u.model, **kw)
        self.extra = self.model.n_modelparams - k
        self.name = 'gaussian_walk(%s)' % self.u.name

    def mps(self, d, n):
        return np.concatenate([self.u.mps(d, n), d.arr((n, self.extra), 0.0, 0.1)], axis=1)

    def eps(self, d, n):
        return self.u.eps(d, n)

    def ref(self, o, mp, ep):
        return self.u.ref(o, mp[:self.u.model.n_modelparams], ep)

    def outcomes(self, ep):
        return self.u.outcomes(ep)


class GHyper(Fam):
    two = False

    def __init__(self, d, under=None):
        self.u = under or draw_two(d)
        self.scalar = self.u.scalar
        self.model = qi.GaussianHyperparameterizedModel(self.u.model)
        self.name = 'gaussian_hyper(%s)' % self.u.name

    def mps(self, d, n):
        return np.concatenate([self.u.mps(d, n), d.arr((n, 2), -5, 5), d.arr((n, 2), 0.05, 9)], axis=1)

    def eps(self, d, n):
        return self.u.eps(d, n)

    def outcomes(self, ep):
        return None

    def draw_outcomes(self, d, ep, n):
        return d.floats(n, -12, 12)

    def ref(self, o, mp, ep):
        k = self.u.model.n_modelparams
        t = 0.0
        for b in (0, 1):
            mu, s2 = mp[k + b], mp[k + 2 + b]
            t += self.u.ref(b, mp[:k], ep) * math.exp(-(o - mu) ** 2 / (2 * s2)) / math.sqrt(2 * math.pi * s2)
        return t


TWO = [Precession, Inversion, T2, Coin, NoisyCoin, RB, Tomo]


def draw_two(d, exclude=()):
    return d.pick([c for c in TWO if c not in exclude])(d)


# Models that the user supplies: tables of probabilities.

class SoftmaxModel(qi.FiniteOutcomeModel, qi.DifferentiableModel):
    """Outcome o has probability proportional to exp((A x + t B)[o]); parameters are entangled, so
    that information matrices are dense with entries of both signs."""

    def __init__(self, A, B):
        self.A, self.B = A, B
        super().__init__()

    n_modelparams = property(lambda self: self.A.shape[1])
    modelparam_names = property(lambda self: ['x%d' % i for i in range(self.A.shape[1])])
    expparams_dtype = [('t', 'float')]
    is_n_outcomes_constant = True

    def n_outcomes(self, expparams):
        return len(self.A)

    @staticmethod
    def are_models_valid(modelparams):
        return np.all(np.abs(modelparams) < 50, axis=1)

    def probabilities(self, mps, eps):
        z = np.einsum('op,mp->om', self.A, mps)[:, :, None] + self.B[:, None, None] * np.asarray(eps['t'])[None, None, :]
        z = np.exp(z - z.max(axis=0))
        return z / z.sum(axis=0)

    def likelihood(self, outcomes, modelparams, expparams):
        super().likelihood(outcomes, modelparams, expparams)
        return self.probabilities(modelparams, expparams)[np.atleast_1d(outcomes)]

    def score(self, outcomes, modelparams, expparams, return_L=False):
        p = self.probabilities(modelparams, expparams)
        mean = np.einsum('ome,op->pme', p, self.A)
        os = np.atleast_1d(outcomes)
        q = self.A[os].T[:, :, None, None] - mean[:, None, :, :]
        return (q, self.likelihood(outcomes, modelparams, expparams)) if return_L else q


class Softmax(Fam):
    name = 'softmax'

    def __init__(self, d, n_outcomes=None):
        n, p = n_outcomes or d.int(2, 4), d.int(1, 3)
        self.two = n == 2
        self.model = SoftmaxModel(d.arr((n, p), -2, 2), d.arr((n,), -1, 1))
        self.n = n

    def mps(self, d, n):
        return d.arr((n, self.model.n_modelparams), -1, 1)

    def eps(self, d, n):
        e = np.zeros(n, dtype=self.model.expparams_dtype)
        e['t'] = d.arr((n,), -1, 1)
        return e

    def ref(self, o, mp, ep):
        z = np.exp(self.model.A.dot(mp) + self.model.B * ep['t'])
        return z[int(o)] / z.sum()

    def outcomes(self, ep):
        return np.arange(self.n)


class TableModel(qi.FiniteOutcomeModel):
    """k outcomes labelled lo..lo+k-1; the distribution depends on both the (single)
    model parameter and the experiment."""

    def __init__(self, k, lo=0, n_mp=1, Q=None):
        self.k, self.lo, self.n_mp = k, lo, n_mp
        super(TableModel, self).__init__()
        self._scale = np.ones(n_mp) if Q is None else np.asarray(Q, dtype=float)

    @property
    def Q(self):
        return self._scale

    def domain(self, expparams):
        dom = qi.IntegerDomain(min=self.lo, max=self.lo + self.k - 1)
        return dom if expparams is None else [dom for ep in expparams]

    n_modelparams = property(lambda s: s.n_mp)
    expparams_dtype = property(lambda s: [('e', float)])
    is_n_outcomes_constant = property(lambda s: True)

    def n_outcomes(self, expparams):
        return self.k

    def are_models_valid(self, mps):
        return np.all((mps >= 0) & (mps <= 1), axis=1)

    def prob(self, o, x, e):
        w = [1 + math.sin(3.1 * (j + 1) * x + e * (j + 2)) for j in range(self.k)]
        return w[int(o) - self.lo] / sum(w)

    def likelihood(self, outcomes, modelparams, expparams):
        super(TableModel, self).likelihood(outcomes, modelparams, expparams)
        j = np.arange(self.k)[:, None, None]
        x = modelparams.sum(axis=1)[None, :, None]
        e = expparams['e'][None, None, :]
        w = 1 + np.sin(3.1 * (j + 1) * x + e * (j + 2))
        w = w / w.sum(axis=0)
        return w[np.atleast_1d(outcomes).astype(int) - self.lo]


class VarTableModel(TableModel):
    """The number of outcomes and the first of them depend on the experiment."""
    is_n_outcomes_constant = property(lambda s: False)
    expparams_dtype = property(lambda s: [('e', float), ('k', int), ('lo', int)])

    def n_outcomes(self, expparams):
        return expparams['k']

    def domain(self, expparams):
        return [qi.IntegerDomain(min=int(ep['lo']), max=int(ep['lo'] + ep['k']) - 1) for ep in expparams]

    def likelihood(self, outcomes, modelparams, expparams):
        qi.FiniteOutcomeModel.likelihood(self, outcomes, modelparams, expparams)
        out = np.zeros((len(np.atleast_1d(outcomes)), len(modelparams), len(expparams)))
        for ie, ep in enumerate(expparams):
            k = int(ep['k'])
            j = np.arange(k)[:, None]
            w = 1 + np.sin(3.1 * (j + 1) * modelparams.sum(axis=1)[None, :] + ep['e'] * (j + 2))
            w = w / w.sum(axis=0)
            for io, o in enumerate(np.atleast_1d(outcomes)):
                if 0 <= int(o) - int(ep['lo']) < k:
                    out[io, :, ie] = w[int(o) - int(ep['lo'])]
        return out


class VarTable0Model(VarTableModel):
    """As before with outcomes from zero on, which the library's own domain describes."""
    domain = qi.FiniteOutcomeModel.domain


class Table(Fam):
    two = False

    def __init__(self, d, k=None, lo=None, n_mp=None, Q=None):
        self.model = TableModel(k or d.int(1, 5), d.pick([0, 0, 1, 3, -2]) if lo is None else lo,
                                n_mp or d.int(1, 3), Q)
        self.name = 'table'

    def mps(self, d, n):
        return d.arr((n, self.model.n_mp), 0, 1)

    def eps(self, d, n):
        e = np.zeros(n, dtype=self.model.expparams_dtype)
        e['e'] = d.arr(n, 0, 6)
        return e

    def ref(self, o, mp, ep):
        return self.model.prob(o, float(np.sum(mp)), float(ep['e']))

    def outcomes(self, ep):
        return np.arange(self.model.lo, self.model.lo + self.model.k)


class VarTable(Table):
    def __init__(self, d, n_mp=None, Q=None):
        self.zero = d.chance(1, 3)
        self.model = (VarTable0Model if self.zero else VarTableModel)(3, 0, n_mp or d.int(1, 3), Q)
        self.name = 'var_table'

    def eps(self, d, n):
        e = np.zeros(n, dtype=self.model.expparams_dtype)
        e['e'] = d.arr(n, 0, 6)
        e['k'] = d.ints(n, 1, 5)
        if d.bool() and not self.zero:
            e['lo'] = d.ints(n, -2, 2)
        if d.chance(1, 3):
            e['k'] = e['k'][0]
        return e

    def ref(self, o, mp, ep):
        k = int(ep['k'])
        x, e = float(np.sum(mp)), float(ep['e'])
        w = [1 + math.sin(3.1 * (j + 1) * x + e * (j + 2)) for j in range(k)]
        j = int(o) - int(ep['lo'])
        return w[j] / sum(w) if 0 <= j < k else 0.0

    def outcomes(self, ep):
        return int(ep['lo']) + np.arange(int(ep['k']))


def draw_finite(d):
    """Any finite-outcome model whose likelihood is a normalised distribution."""
    c = d.pick(TWO + [Die, Binom, Multinom, Walk, GWalk, Table, VarTable, 'binom_nest', 'walk_nest'])
    if c == 'binom_nest':
        return Binom(d, under=Walk(d))
    if c == 'walk_nest':
        return Walk(d, under=d.pick([Die, Table])(d))
    return c(d)


def draw_any(d):
    c = d.pick(['finite', 'finite', 'finite', MLE, GHyper])
    return draw_finite(d) if c == 'finite' else c(d)


def draw_constant(d):
    """Finite-outcome model for which one outcome array serves all the experiments."""
    return d.pick(TWO + [Die, Table, Walk])(d)


def ref_table(fam, outcomes, mps, eps):
    return np.array([[[fam.ref(o, mp, ep) for ep in eps] for mp in mps] for o in outcomes],
                    dtype=float).reshape(len(outcomes), len(mps), len(eps))


class FixedPrior(qi.Distribution):
    """A prior whose samples are the given rows (cyclically, then fresh ones by a rule)."""

    def __init__(self, rows):
        self.rows = np.array(rows, dtype=float)
        self.calls = 0

    n_rvs = property(lambda s: s.rows.shape[1])

    def sample(self, n=1):
        self.calls += 1
        idx = (np.arange(n) + 7 * (self.calls - 1)) % len(self.rows)
        return self.rows[idx].copy()


def changed_cloud(d, make):
    """(holder, fresh holder): one that was asked before its particles or weights changed, in place or
    by assignment, and one that was made with them."""
    n, k = d.int(3, 10), d.int(1, 3)
    r = d.rng()
    x, w = r.uniform(-1, 1, size=(n, k)), d.weights(n, zeros=False)
    x2, w2 = (x.copy() if d.chance(1, 3) else r.uniform(-1, 1, size=(n, k)) * d.pick([1.0, 1e-5, 3.0])), \
        (w.copy() if d.chance(1, 3) else d.weights(n, zeros=False))
    if d.chance(1, 4):
        w2 = w[::-1].copy()
    holder = make(x, w)

    def change():
        if d.bool():
            holder.particle_locations[...] = x2
        else:
            holder.particle_locations = x2.copy()
        if d.bool():
            holder.particle_weights[...] = w2
        else:
            holder.particle_weights = w2.copy()
    return holder, change, make(x2, w2), not (np.array_equal(x, x2) and np.array_equal(w, w2))


def table_updater(x, w):
    up = qi.SMCUpdater(TableModel(2, 0, x.shape[1]), len(x), FixedPrior(x), resample_thresh=0)
    up.particle_locations = x.copy()
    up.particle_weights = w.copy()
    return up


def relayout(d, a):
    """The same values in another memory layout: what slicing, transposing, repeating or freezing an array gives."""
    a = np.asarray(a)
    how = d.pick(['fortran', 'strided', 'reversed', 'field of a record', 'frozen', 'copy', 'column'])
    if how == 'fortran':
        b = np.asfortranarray(a)
    elif how == 'strided' and a.ndim:
        b = np.repeat(a, 2, axis=0)[::2]
    elif how == 'reversed' and a.ndim:
        b = np.ascontiguousarray(a[::-1])[::-1]
    elif how == 'field of a record' and a.ndim:
        rec = np.zeros(a.shape, dtype=[('pad', 'i1'), ('x', a.dtype), ('tail', 'f4')])
        rec['x'] = a
        b = rec['x']
    elif how == 'column' and a.ndim:
        b = np.stack([a, a], axis=-1)[..., 1]
    elif how == 'frozen':
        b = a.copy()
        b.flags.writeable = False
    else:
        b = a.copy()
    assert b.shape == a.shape and b.dtype == a.dtype
    return b
