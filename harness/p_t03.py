"""T03: heuristics choosing tomographic measurements."""
import itertools
from functools import reduce

import numpy as np

from core import sub, req, close, same_shape, raises
import qinfer as qi
import qutip as qt
import stats
from qinfer import tomography as tm
import tomo
from tomo import draw_basis, mat

ASSUMPTIONS = ['model parameter vectors are coefficients in the basis of the model', 'QuTiP 4 is installed and correct',
               'heuristics draw from numpy.random, seeded by the harness']


class Wide(qi.FiniteOutcomeModel):
    """A decorator with an experiment field of its own."""

    def __init__(self, base):
        self._b = base
        super(Wide, self).__init__()

    base_model = property(lambda self: self._b.base_model if hasattr(self._b, 'base_model') else self._b)
    n_modelparams = property(lambda self: self._b.n_modelparams)
    modelparam_names = property(lambda self: self._b.modelparam_names)
    expparams_dtype = property(lambda self: self._b.expparams_dtype + [('tag', 'i4')])

    def n_outcomes(self, e):
        return 2

    def are_models_valid(self, m):
        return self._b.are_models_valid(m)

    def likelihood(self, o, m, e):
        super(Wide, self).likelihood(o, m, e)
        return self._b.likelihood(o, m, e)


def undecorated(d, basis):
    """A tomography model, its prior and fields which may be set."""
    prior = tm.GinibreDistribution(basis)
    if d.chance(2, 3):
        return tm.TomographyModel(basis), prior, {}
    return tm.DiffusiveTomographyModel(basis), qi.ProductDistribution(prior, qi.UniformDistribution([0.01, 0.02])), \
        {'t': d.fl(0.1, 10)}


def decorate(d, model):
    """A model, maybe decorated, and the fields other than meas which may be set."""
    kind = d.int(0, 3)
    if kind == 0:
        return model, {}
    if kind == 1:
        return qi.BinomialModel(model), {'n_meas': d.int(1, 500)}
    if kind == 2:
        return Wide(model), {'tag': d.int(1, 99)}
    return qi.BinomialModel(Wide(model)), {'n_meas': d.int(1, 500), 'tag': d.int(1, 99)}


class Up(object):
    """Stands for an updater: the parts which heuristics use."""

    def __init__(self, model, cov=None):
        self.model, self.cov, self.n_cov = model, cov, 0

    def est_covariance_mtx(self):
        self.n_cov += 1
        return self.cov


def updater(d, model, prior):
    if d.bool():
        return Up(model)
    return qi.SMCUpdater(model, d.int(3, 40), prior)


def check_eps(e, model, fields):
    same_shape(e, (1,), 'experiment')
    req(e.dtype == np.dtype(model.expparams_dtype), 'dtype of the experiment', got=e.dtype)
    for f in e.dtype.names:
        if f != 'meas':
            req(e[f][0] == fields.get(f, 0), 'other fields', field=f, got=e[f][0], want=fields.get(f, 0))
    return e['meas'][0]


def draw_setup(d, qubits, maxdim=4):
    basis = draw_basis(d, maxdim, qubits)
    inner, prior, more = undecorated(d, basis)
    model, fields = decorate(d, inner)
    fields = {} if d.chance(3, 10) else dict(fields, **more)
    return basis, model, prior, fields


@sub('T03', 60, rule='two qubits, another basis or a decorated model')
def paulis(d, case):
    """RandomPauliHeuristic measures (1 + P) / 2 for a uniformly random Pauli operator P, in any basis."""
    d.np_seed()
    basis, model, prior, fields = draw_setup(d, True)
    D = basis.dim
    case.hit('basis:' + basis.name, 'dim:%d' % D, when=True)
    args = {} if not fields and d.bool() else {'other_fields': dict(fields)}
    if d.bool():
        args['basis'] = basis
    h = tm.RandomPauliHeuristic(updater(d, model, prior), **args)
    nq = int(round(np.log2(D)))
    ops = [reduce(np.kron, f) for f in itertools.product(tomo.PAULI, repeat=nq)][1:]
    # often enough to notice that one operator never comes, in some cases
    n = 110 * len(ops) if len(ops) < 64 and d.chance(1, 3) else d.int(20, 150)
    count = np.zeros(len(ops))
    proj = (np.eye(D) + np.array(ops)) / 2
    for _ in range(n):
        M = mat(basis, check_eps(h(), model, fields))
        dist = np.abs(M - proj).reshape(len(ops), -1).max(axis=1)
        k = int(np.argmin(dist))
        req(dist[k] < 1e-9, 'the measurement is not a Pauli measurement', M=M)
        count[k] += 1
    stats.freq(count, np.ones(len(ops)) / len(ops), 'Pauli operators')


@sub('T03', 25, rule='always')
def not_qubits(d, case):
    """Pauli measurements are refused for dimensions other than powers of two."""
    D = d.pick([3, 5, 6, 7])
    basis = tm.gell_mann_basis(D)
    case.hit('dim:%d' % D)
    model, _ = decorate(d, tm.TomographyModel(basis))
    raises(ValueError, lambda: tm.RandomPauliHeuristic(Up(model)), 'Pauli measurements of other dimensions')


def weyl(D):
    X = np.roll(np.eye(D), 1, axis=0)
    Z = np.diag(np.exp(2j * np.pi * np.arange(D) / D))
    return [np.linalg.matrix_power(X, i) @ np.linalg.matrix_power(Z, j) for i in range(D) for j in range(D)]


def stabilizers(D):
    """All stabilizer projectors of a prime dimension."""
    out = []
    for W in weyl(D)[1:]:
        _, v = np.linalg.eig(W)
        for k in range(D):
            P = np.outer(v[:, k], v[:, k].conj())
            if not any(np.abs(P - Q).max() < 1e-6 for Q in out):
                out.append(P)
    return out


@sub('T03', 50, rule='dimension above two, another basis or a decorated model')
def stabilizer_states(d, case):
    """RandomStabilizerStateHeuristic measures rank-one projectors onto eigenvectors of Heisenberg-Weyl operators, and for
    prime dimensions every stabilizer state occurs with the frequency of a random operator and eigenvector."""
    d.np_seed()
    basis, model, prior, fields = draw_setup(d, False, 5)
    D = basis.dim
    case.hit('dim:%d' % D, 'basis:' + str(basis.name), when=True)
    if len(basis.dims) > 1:
        case.label('several factors')
    h = tm.RandomStabilizerStateHeuristic(updater(d, model, prior), other_fields=dict(fields))
    W = weyl(D)
    stab = np.array(stabilizers(D)) if D in (2, 3, 5) else None
    n = 60 * len(stab) if stab is not None and d.chance(1, 4) else d.int(30, 150)
    count = None if stab is None else np.zeros(len(stab))
    for _ in range(n):
        P = mat(basis, check_eps(h(), model, fields))
        close(P @ P, P, 'the measurement is a projector', atol=1e-8)
        close(np.trace(P), 1 + 0j, 'the projector has rank one', atol=1e-8)
        if D in (2, 3, 5):
            dist = np.abs(P - stab).reshape(len(stab), -1).max(axis=1)
            k = int(np.argmin(dist))
            req(dist[k] < 1e-6, 'the measurement is not a stabilizer state', P=P)
            count[k] += 1
        else:
            res = [np.abs(U @ P - np.trace(P @ U) * P).max() for U in W]
            req(min(res) < 1e-7, 'the measurement is not an eigenvector of a Heisenberg-Weyl operator', P=P)
    if stab is not None:
        # the identity yields the computational basis: its states are the eigenstates of Z, too
        p = np.array([D * D - 1 - (D - 1) for _ in stab], dtype=float)
        comp = np.array([np.abs(np.diag(S)).max() > 0.99 for S in stab])
        p = np.where(comp, (1 + (D - 1)) / D ** 3, (D - 1) / D ** 3)
        stats.freq(count, p / p.sum(), 'stabilizer states')


def choi(basis_dim, r, n_kraus):
    """Normalised Choi state of a random channel, input factor first."""
    D = basis_dim
    G = r.randn(n_kraus * D, D) + 1j * r.randn(n_kraus * D, D)
    V, _ = np.linalg.qr(G)
    K = V.reshape(n_kraus, D, D)
    J = np.zeros((D * D, D * D), dtype=complex)
    for a in range(D):
        for b in range(D):
            E = np.zeros((D, D), dtype=complex)
            E[a, b] = 1
            J += np.kron(E, sum(k @ E @ k.conj().T for k in K)) / D
    return J, K


@sub('T03', 50, rule='other measurement heuristic than preparation heuristic, or two-qubit-size bases')
def channels(d, case):
    """ProductHeuristic prepares and measures: the likelihood of its experiments on the Choi state of a channel is the
    probability Tr(meas channel(prep^T))."""
    d.np_seed()
    D = d.pick([2, 2, 2, 3])
    b1 = tm.gell_mann_basis(D) if D == 3 or d.bool() else tm.pauli_basis(1)
    basis = tm.tensor_product_basis(b1, b1)
    inner, prior, more = undecorated(d, basis)
    model, fields = decorate(d, inner)
    fields.update(more)
    kinds = [tm.RandomStabilizerStateHeuristic] + ([tm.RandomPauliHeuristic] if D == 2 else [])
    P, Q = d.pick(kinds), d.pick(kinds)
    case.hit('prep:' + P.__name__, 'meas:' + Q.__name__, when=True)
    calls = []

    class Prep(P):
        def _next_measurement(self):
            calls.append(P._next_measurement(self))
            return calls[-1]

    class Meas(Q):
        def _next_measurement(self):
            calls.append(Q._next_measurement(self))
            return calls[-1]

    h = tm.ProductHeuristic(updater(d, model, prior), b1, Prep, Meas, other_fields=dict(fields))
    J, K = choi(D, d.rng(), d.int(1, 3))
    x = tomo.vec(basis, J)
    for _ in range(d.int(1, 8)):
        del calls[:]
        e = h()
        v = check_eps(e, model, fields)
        req(len(calls) == 2, 'one preparation and one measurement are drawn', n=len(calls))
        rho, M = [q.full() for q in calls]
        rho = rho / np.trace(rho)
        close(mat(basis, v), D * np.kron(rho, M), 'preparation and measurement', atol=1e-6)  # QuTiP's trace norm is good to 1e-8
        base = tm.TomographyModel(basis)
        ee = np.zeros((1,), dtype=base.expparams_dtype)
        ee['meas'] = v
        L = base.likelihood(np.array([0, 1]), x[None], ee)
        want = np.real(np.trace(M @ sum(k @ rho.T @ k.conj().T for k in K)))
        close(L[:, 0, 0], [1 - want, want], 'probabilities of a channel', atol=1e-6)


@sub('T03', 80, rule='several distinct designs')
def best_of_k(d, case):
    """BestOfKMetaheuristic draws k designs, and chooses one with the largest variance of its expectation value."""
    d.np_seed()
    r = d.rng()
    basis = draw_basis(d, 4)
    inner, prior, more = undecorated(d, basis)
    model, fields = decorate(d, inner)
    fields.update(more)
    n = basis.dim ** 2
    real = d.bool()
    if real:
        up = qi.SMCUpdater(model, d.int(3, 60), prior)
        up.particle_weights = up.particle_weights * r.rand(up.n_particles)
        up.particle_weights = up.particle_weights / up.particle_weights.sum()
        w, X = up.particle_weights, up.particle_locations
        mu = w @ X
        cov = (w[:, None] * (X - mu)).T @ (X - mu)
    else:
        A = r.randn(model.n_modelparams, model.n_modelparams)
        cov = A @ A.T
        up = Up(model, cov)
    drawn = []
    own = d.pick([{}, fields])

    def base():
        e = np.zeros((1,), dtype=model.expparams_dtype)
        e['meas'] = r.randn(n)
        if drawn and d.chance(1, 10):
            e['meas'] = drawn[-1]['meas']
        for f in e.dtype.names:
            if f != 'meas':
                e[f] = 1000 + len(drawn)
        drawn.append(e.copy()[0])
        return e

    k = d.pick([None, 1, 2, 3, 5, 10])
    h = tm.BestOfKMetaheuristic(up, base, **dict({} if k is None else {'k': k},
                                                 **({} if not own and d.bool() else {'other_fields': dict(own)})))
    for _ in range(d.int(1, 3)):
        del drawn[:]
        e = h()
        same_shape(e, (1,), 'experiment')
        req(e.dtype == np.dtype(model.expparams_dtype), 'dtype', got=e.dtype)
        req(len(drawn) == (3 if k is None else k), 'number of designs drawn', got=len(drawn), want=k)
        var = np.array([x['meas'] @ cov[:n, :n] @ x['meas'] for x in drawn])
        idx = [i for i, x in enumerate(drawn) if (x['meas'] == e['meas'][0]).all()]
        req(len(idx) >= 1, 'the design is not one of those drawn')
        req(var[idx[0]] >= var.max() * (1 - 1e-9) - 1e-12, 'the design does not have the largest variance', var=var,
            chosen=idx[0])
        for f in e.dtype.names:
            if f in own:
                req(e[f][0] == own[f], 'other fields', field=f, got=e[f][0])
            elif f != 'meas':
                req(e[f][0] in [drawn[i][f] for i in idx], 'fields of the chosen design are kept', field=f, got=e[f][0])
        case.hit('k=%s' % k, 'updater' if real else 'stand-in', 'diffusive' if more else 'static', when=len(drawn) > 1)
