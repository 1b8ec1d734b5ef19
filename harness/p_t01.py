"""T01: tomographic bases, states and their canonical form."""
import itertools
import re
from functools import reduce

import numpy as np

from core import sub, req, close, same_shape, raises
import qinfer as qi
import qutip as qt
from qinfer import tomography as tm
import tomo
from tomo import draw_basis, vec, mat

ASSUMPTIONS = ['bases consist of Hermitian matrices, the first proportional to the identity, the others traceless',
               'QuTiP 4 is installed and correct', 'truncated operators have a positive eigenvalue']


def check_tomographic(b, D):
    data = np.asarray(b.data)
    same_shape(data, (D * D, D, D), 'basis elements')
    close(data, data.conj().transpose(0, 2, 1), 'basis elements are Hermitian')
    close(np.einsum('aij,bij->ab', data.conj(), data), np.eye(D * D, dtype=complex), 'basis is orthonormal', atol=1e-10)
    close(data[0], np.eye(D) / np.sqrt(D) + 0j, 'first element is the normalised identity', atol=1e-10)
    close(np.einsum('aii->a', data[1:]), np.zeros(D * D - 1, dtype=complex), 'other elements are traceless', atol=1e-9)


@sub('T01', 120, rule='dimension above two or several factors')
def bases(d, case):
    """Every basis is an orthonormal set of Hermitian matrices, indexed, listed and named as documented."""
    kind = d.int(0, 3)
    if kind == 0:
        nq = d.int(1, 3)
        b = tm.pauli_basis(nq) if nq > 1 or d.bool() else tm.pauli_basis()
        D, dims, name = 2 ** nq, [2] * nq, 'pauli_basis'
        want = np.array([reduce(np.kron, f) for f in itertools.product(tomo.PAULI, repeat=nq)]) / np.sqrt(D)
        close(np.asarray(b.data), want, 'Pauli basis', atol=1e-12)
        one = ['𝟙', r'\sigma_x', r'\sigma_y', r'\sigma_z']
        labels = [r'\otimes'.join(l) for l in itertools.product(one, repeat=nq)]
    elif kind == 1:
        D = d.int(2, 6)
        b, dims, name = tm.gell_mann_basis(D), [D], 'gell_mann_basis'
        labels = [r'\gamma_%d' % i for i in range(D * D)]
        # diagonal, then real symmetric, then imaginary antisymmetric elements
        real = np.asarray(b.data)
        for a in range(D * D):
            off = real[a] - np.diag(np.diag(real[a]))
            if a < D:
                close(off, np.zeros((D, D), dtype=complex), 'the first elements are diagonal')
            else:
                req((np.abs(real[a]) > 1e-12).sum() == 2, 'off-diagonal elements connect two levels', element=a)
    elif kind == 2:
        fs = [draw_basis(d, 3) for _ in range(d.int(1, 3))]
        if len(fs) == 3:
            fs[2] = tm.gell_mann_basis(2)
        if len(fs) < 3 and d.bool():
            fs[d.int(0, len(fs) - 1)] = d.pick([lambda: tm.pauli_basis(2), lambda: tm.tensor_product_basis(
                tm.gell_mann_basis(d.pick([2, 3])), tm.pauli_basis(1))])()
        kept = [list(f.dims) for f in fs]
        b, name = tm.tensor_product_basis(*fs), None
        D = int(np.prod([f.dim for f in fs]))
        dims = sum([list(f.dims) for f in fs], [])
        want = np.array([reduce(np.kron, f) for f in itertools.product(*[f.data for f in fs])])
        close(np.asarray(b.data), want, 'tensor product basis', atol=1e-12)
        labels = [r'\otimes'.join(l) for l in itertools.product(*[f.labels for f in fs])]
        for f, k in zip(fs, kept):
            req(list(f.dims) == k, 'the bases of the factors were changed', dims=f.dims)
    else:
        D = d.pick([2, 3, 4, 6])
        b, data, dims, lab = tomo.custom(d, D)
        name = 'custom'
        close(np.asarray(b.data), data, 'data of a basis', rtol=0, atol=0)
        labels = ['B_%d' % i for i in range(D * D)] if lab is None else \
            ['s_%d' % i for i in range(D * D)] if lab == 's' else lab
    check_tomographic(b, D)
    req(int(b.dim) == D and list(b.dims) == dims and len(b) == D * D, 'dimensions', dim=b.dim, dims=b.dims, len=len(b))
    req(list(b.labels) == labels, 'labels', got=list(b.labels)[:6], want=labels[:6])
    if name is not None:
        req(b.name == name and name in repr(b), 'name', got=b.name)
    close(np.asarray(b.flat()), np.asarray(b.data).reshape(D * D, D * D), 'flattened basis', rtol=0, atol=0)
    i, js = d.int(0, D * D - 1), [d.int(0, D * D - 1) for _ in range(d.int(0, 3))]
    for k, q in [(i, b[i])] + list(zip(js, b[js])):
        req(q.dims == [dims, dims], 'dims of an element', got=q.dims)
        close(q.full(), np.asarray(b.data)[k], 'element', atol=1e-12)
    req(len(b[js]) == len(js), 'list of elements')
    listed = list(b)
    req(len(listed) == len(b), 'a basis lists its elements', got=len(listed))
    close(listed[i].full(), b[i].full(), 'elements in their order', atol=1e-12)
    es = list(b)
    req(len(es) == D * D, 'iteration')
    close(es[i].full(), np.asarray(b.data)[i], 'element in iteration', atol=1e-12)
    for bad in ('x', 1.5, (0, 1)):
        raises(TypeError, lambda: b[bad], 'index %r' % (bad,))
    case.hit(['pauli', 'gell_mann', 'tensor', 'custom'][kind], when=D > 2)


@sub('T01', 120, rule='dimension above two')
def states(d, case):
    """Operators and parameter vectors convert into each other, one or many at a time."""
    b = draw_basis(d)
    D = int(b.dim)
    r = d.rng()
    M = tomo.hermitian(r, D)
    q = tomo.qobj(M, b)
    x = b.state_to_modelparams(q)
    same_shape(x, (D * D,), 'parameter vector')
    req(np.asarray(x).dtype.kind == 'f', 'parameters are real')
    close(x, vec(b, M), 'parameters are Tr(B M)', atol=1e-10)
    back = b.modelparams_to_state(np.asarray(x))
    close(back.full(), M, 'round trip', atol=1e-10)
    req(back.dims == [list(b.dims)] * 2, 'dims of a state', got=back.dims)
    n = d.int(1, 4)
    X = r.randn(n, D * D)
    Y = b.modelparams_to_state(X)
    req(isinstance(Y, list) and len(Y) == n, 'many states are a list')
    for y, v in zip(Y, X):
        close(y.full(), mat(b, v), 'one of many states', atol=1e-10)
        close(b.state_to_modelparams(y), v, 'round trip of parameters', atol=1e-10)
    # expectation of a covariance superoperator
    C = np.cov(r.randn(D * D, 5)) if D > 1 else np.eye(1)
    S = b.covariance_mtx_to_superop(C)
    req(S.type == 'super', 'type of the superoperator', got=S.type)
    u, v = r.randn(2, D * D)
    # QuTiP stacks columns
    U, V = mat(b, u).flatten('F'), mat(b, v).flatten('F')
    close(U.conj().dot(S.full()).dot(V), complex(u.dot(C).dot(v)), 'matrix element of the superoperator', atol=1e-8)
    case.hit('several factors' if len(b.dims) > 1 else 'one factor', when=D > 2)


def number(s):
    """Value of a displayed entry."""
    s = s.strip()
    im = s.endswith(r'\mathrm{i}')
    s = s.replace(r'\mathrm{i}', '')
    s = re.sub(r'\\times10\^\{([^}]*)\}', r'e\1', s)
    return complex(0, float(s)) if im else complex(float(s), 0)


@sub('T01', 60, rule='always')
def display(d, case):
    """The HTML form shows dimensions and labels and, for small bases, every element's matrix."""
    b = draw_basis(d)
    if d.chance(1, 8):
        b = tm.tensor_product_basis(tm.pauli_basis(2), tm.gell_mann_basis(3))
    D = int(b.dim)
    html = b._repr_html_()
    req(r'\times'.join(map(str, b.dims)) in html, 'dims are shown', html=html[:200])
    if D <= 10:
        mats = re.findall(r'\\begin\{matrix\}(.*?)\\end\{matrix\}', html, re.S)
        req(len(mats) == D * D, 'number of matrices', got=len(mats), want=D * D)
        for k, (m, B) in enumerate(zip(mats, np.asarray(b.data))):
            rows = [row.split('&') for row in m.strip().split(r'\\')]
            req(len(rows) == D and all(len(row) == D for row in rows), 'shape of a displayed matrix')
            for i in range(D):
                for j in range(D):
                    txt = rows[i][j]
                    z = sum(number(t) for t in txt.split(' + '))
                    dz = z - B[i, j]
                    req(max(abs(dz.real), abs(dz.imag)) <= 5.1e-4, 'displayed entry', got=txt, want=B[i, j], element=k)
    for l in b.labels:
        req(l in html, 'label is shown', label=l)
    case.hit('elements' if D <= 10 else 'labels')


def spectra(d, r, D):
    """Eigenvalues, often degenerate, often negative, of trace one, the largest positive."""
    if d.bool():
        e = r.choice([-0.3, -0.1, 0.0, 0.2, 0.5, 1.0], size=D)
    else:
        e = r.randn(D)
    e = e + 0.0
    e[r.randint(D)] = abs(e).sum() + 0.5
    return e / e.sum()


@sub('T01', 250, rule='a negative eigenvalue')
def canonical(d, case):
    """The canonical form cuts negative eigenvalues, keeps eigenvectors, restores the trace unless states may be
    subnormalised, and leaves states as they are; every row is treated on its own."""
    b = draw_basis(d, 4)
    D = int(b.dim)
    diff = d.chance(1, 3)
    subn = d.chance(1, 3)
    cls = tm.DiffusiveTomographyModel if diff else tm.TomographyModel
    m = cls(b, allow_subnormalized=subn) if subn or d.bool() else cls(b)
    r = d.rng()
    n = d.int(1, 4)
    rows, want, neg, degenerate = [], [], False, False
    for _ in range(n):
        e = spectra(d, r, D)
        if d.chance(1, 4):
            e = np.abs(e) / np.abs(e).sum()
        if d.chance(1, 3):
            e = e * d.fl(0.3, 1.5)
        U = np.eye(D) if d.chance(1, 4) else tomo.unitary(r, D)
        pos = np.maximum(e, 0)
        if not subn:
            pos = pos / pos.sum()
        neg = neg or bool((e < -1e-9).any())
        degenerate = degenerate or len(set(np.round(e, 9))) < D
        rows.append(vec(b, (U * e).dot(U.conj().T)))
        want.append(vec(b, (U * pos).dot(U.conj().T)))
    X, W = np.array(rows), np.array(want)
    if diff:
        eps = d.arr((n, 1), 0.01, 1)
        X, W = np.concatenate([X, eps], axis=1), np.concatenate([W, eps], axis=1)
    X0 = X.copy()
    got = m.canonicalize(X)
    close(X, X0, 'parameters after canonicalize', rtol=0, atol=0)
    close(got, W, 'canonical form', rtol=1e-7, atol=1e-7)
    close(m.canonicalize(np.array(got)), got, 'canonicalising twice', rtol=1e-7, atol=1e-7)
    case.hit('degenerate' if degenerate else 'generic', 'subnormalised' if subn else 'normalised',
             'diffusive' if diff else 'static', when=neg)


@sub('T01', 60, rule='updater resampled')
def learning(d, case):
    """Particles of an updater that learns a state are states after resampling; the model reports its basis."""
    b = draw_basis(d, 4)
    D = int(b.dim)
    diff = d.chance(1, 3)
    m = (tm.DiffusiveTomographyModel if diff else tm.TomographyModel)(b)
    req(m.basis is b and int(m.dim) == D, 'basis and dimension of the model')
    req(m.n_modelparams == D * D + diff and len(m.modelparam_names) == D * D + diff, 'number of parameters',
        got=m.n_modelparams, names=len(m.modelparam_names))
    for l, nm in zip(b.labels, m.modelparam_names):
        req(l in nm, 'parameter names hold the labels', label=l, name=nm)
    r = d.rng()
    d.np_seed()
    prior = tm.GinibreDistribution(b)
    if diff:
        prior = qi.ProductDistribution(prior, qi.UniformDistribution([[0.01, 0.1]]))
    up = qi.SMCUpdater(m, 40, prior, zero_weight_policy='ignore')
    rho = tm.GinibreDistribution(b, 1).sample()
    if diff:
        rho = np.concatenate([rho, [[0.05]]], axis=1)
    for _ in range(d.int(2, 8)):
        psi = tomo.unitary(r, D)[:, 0]
        e = np.zeros(1, dtype=m.expparams_dtype)
        e['meas'] = vec(b, np.outer(psi, psi.conj()))
        if diff:
            e['t'] = 1.0
        up.update(m.simulate_experiment(rho, e), e)
    up.resample()
    for x in up.particle_locations:
        M = mat(b, x[:D * D])
        close(np.trace(M).real, 1.0, 'trace of a particle', rtol=1e-7)
        req(np.linalg.eigvalsh(M).min() > -1e-7, 'a particle is not a state', eigenvalues=np.linalg.eigvalsh(M))
    mean = mat(b, up.est_mean()[:D * D])
    req(np.linalg.eigvalsh(mean).min() > -1e-7, 'the mean is not a state')
    case.hit('diffusive' if diff else 'static')


@sub('T01', 40, rule='always')
def two_models(d, case):
    """The canonical form of one tomography model is not that of another one made later."""
    b = tm.pauli_basis(1)
    m = tm.TomographyModel(b, allow_subnormalized=True)
    n = tm.TomographyModel(tm.gell_mann_basis(3), allow_subnormalized=False)
    x = np.concatenate([d.arr((3, 1), 0.3, 0.7), d.arr((3, 3), -0.15, 0.15)], axis=1)
    y = m.canonicalize(x)
    close(y, x, 'a subnormalised state is left unchanged', rtol=0, atol=1e-9)
    z = n.canonicalize(np.concatenate([x, np.zeros((3, 5))], axis=1))
    close(z[:, 0], np.full(3, 3 ** -0.5), 'unit trace is restored', rtol=0, atol=1e-9)
    close(m.canonicalize(x), x, 'a subnormalised state after another model was used', rtol=0, atol=1e-9)
    req(m.dim == 2 and n.dim == 3 and m.basis is b and m.n_modelparams == 4, 'attributes of two models')
    case.hit(when=True)
