"""T02: priors over states and channels."""
import math

import numpy as np

from core import sub, req, close, same_shape, raises, Reject
import qinfer as qi
import qutip as qt
from qinfer import tomography as tm
import stats
import tomo
from tomo import draw_basis, vec, mat

ASSUMPTIONS = ['QuTiP 4 is installed and its random matrices follow their ensembles',
               'statistical comparisons reject at a per-case probability below 1e-9 under the stated law']


def state_of(b, x, msg):
    req(np.asarray(x).dtype.kind == 'f', msg + ': real parameters')
    M = mat(b, x)
    close(np.trace(M).real, 1.0, msg + ': trace', rtol=1e-9)
    w = np.linalg.eigvalsh(M)
    req(w.min() > -1e-9, msg + ': a sample is not positive', eigenvalues=w)
    return M, w


def draw(dist, n, b, msg):
    x = dist.sample(n) if n > 1 else dist.sample()
    same_shape(x, (n, int(b.dim) ** 2), msg + ': samples')
    req(dist.n_rvs == int(b.dim) ** 2 and int(dist.dim) == int(b.dim) and dist.basis is b, msg + ': members')
    return x


@sub('T02', 40, rule='rank above one and below the dimension, or a large sample')
def ginibre(d, case):
    """Complex and real Ginibre states have the stated rank, a maximally mixed mean and the ensemble's purity."""
    b = draw_basis(d, 4)
    N = int(b.dim)
    real = d.chance(1, 3)
    cls = tm.GinibreReditDistribution if real else tm.GinibreDistribution
    K = d.pick([None] + list(range(1, N + 1)))
    dist = cls(b) if K is None else cls(b, K) if d.bool() else cls(b, rank=K)
    K = N if K is None else K
    d.np_seed()
    n = d.pick([1, 3, 1500])
    X = draw(dist, n, b, cls.__name__)
    P = np.empty(n)
    for i, x in enumerate(X):
        M, w = state_of(b, x, cls.__name__)
        req((w > 1e-12).sum() <= K, 'rank', eigenvalues=w, rank=K)
        if real:
            close(M.imag, np.zeros((N, N)), 'real states', atol=1e-9)
        P[i] = (w ** 2).sum()
        if K == N and n <= 3:
            req(w.min() > 0, 'full rank states')
    if K == 1:
        close(P, np.ones(n), 'purity of pure states', rtol=1e-8)
    if n > 100:
        EP = (N + K + 1) / (N * K + 2) if real else (N + K) / (N * K + 1)
        # purity lies in [1/N, 1]: its variance is at most (1 - m)(m - 1/N)
        if K > 1:
            stats.mean(P[:, None], EP, max((1 - EP) * (EP - 1 / N), 1e-12), 'mean purity', z=7.5, N=N, K=K)
            s = (P.mean() - EP) / (P.std() / math.sqrt(n))
            req(abs(s) < 8, 'mean purity', score=s, got=P.mean(), want=EP, N=N, K=K, real=real)
        e0 = vec(b, np.eye(N) / N)
        sd = X.std(axis=0)
        s = (X.mean(axis=0) - e0) / (sd / math.sqrt(n) + 1e-12)
        req(np.abs(s) < 8, 'mean state is maximally mixed', scores=s)
        if N == 2 and K == 2 and not real:
            rad = np.sqrt(np.maximum(2 * P - 1, 0))
            stats.ks(rad, lambda t: np.clip(t, 0, 1) ** 3, 'Bloch radii of Hilbert-Schmidt qubits')
        if N == 2 and K == 1:
            z = np.array([np.real(np.trace(np.diag([1.0, -1]).dot(mat(b, x)))) for x in X])
            cdf = (lambda t: (np.clip(t, -1, 1) + 1) / 2) if not real else \
                (lambda t: 1 - np.arccos(np.clip(t, -1, 1)) / math.pi)
            stats.ks(z, cdf, 'pure qubits are uniform')
        stats.serial(X[:, sd > 1e-6], cls.__name__)
        lag = np.corrcoef(P[1:], P[:-1])[0, 1] * math.sqrt(n) if P.std() > 1e-6 else 0
        req(abs(lag) < 7.5, 'successive samples are independent', lag=lag)
    case.hit('real' if real else 'complex', 'large' if n > 100 else 'small', when=n > 100 or 1 < K < N)


@sub('T02', 20, rule='always')
def arguments(d, case):
    """A dimension stands for its Gell-Mann basis; ranks above the dimension are refused."""
    N = d.int(2, 4)
    for dist in (tm.GinibreDistribution(N), tm.GinibreReditDistribution(N)):
        req(int(dist.dim) == N, 'dimension')
        close(np.asarray(dist.basis.data), np.asarray(tm.gell_mann_basis(N).data), 'default basis')
    raises(ValueError, lambda: tm.GinibreDistribution(N, N + d.int(1, 3)), 'rank above the dimension')
    K = d.pick([None] + list(range(1, N + 1)))
    txt = repr(tm.GinibreDistribution(tm.gell_mann_basis(N), K))
    req('rank=%d' % (N if K is None else K) in txt and 'dims=%d' % N in txt, 'representation', got=txt)
    case.hit(str(N))


@sub('T02', 24, rule='rank given or trace not preserved')
def channels(d, case):
    """BCSZ samples are Choi states: positive, of trace one and the stated rank, and trace preserving if asked."""
    hb = draw_basis(d, 3)
    N = int(hb.dim)
    tp = d.chance(2, 3)
    K = d.pick([None] + list(range(1 if not tp else 1, N * N + 1)))
    kw = {}
    if not tp or d.bool():
        kw['enforce_tp'] = tp
    if K is not None:
        kw['rank'] = K
    dist = tm.BCSZChoiDistribution(hb if d.bool() or hb.name != 'gell_mann_basis' else N, **kw)
    b = dist.basis
    req(int(b.dim) == N * N and len(hb.dims) == 1, 'dimension of the channel basis')
    d.np_seed()
    n = d.pick([1, 4, 400] if N == 2 else [1, 4])
    X = draw(dist, n, b, 'BCSZ')
    traced = []
    for x in X:
        M, w = state_of(b, x, 'BCSZ')
        if K is not None:
            req((w > 1e-9).sum() <= K, 'rank', eigenvalues=w, rank=K)
        J = M.reshape(N, N, N, N)
        out = np.einsum('iaja->ij', J)       # trace over the output
        if tp:
            close(out, np.eye(N) / N + 0j, 'trace preservation', atol=1e-7)
        traced.append(np.abs(out - np.eye(N) / N).max())
    if not tp:
        req(max(traced) > 1e-6, 'channels preserve the trace although not asked to')
    q = b.modelparams_to_state(X[0])
    req(q.superrep == 'choi' and q.type == 'super', 'samples convert into Choi superoperators', superrep=q.superrep)
    if tp:
        req((q * N).iscptp, 'QuTiP finds the channel to be CPTP')
    close(b.state_to_modelparams(q), X[0], 'round trip', atol=1e-10)
    if n > 100:
        s = (X.mean(axis=0) - vec(b, np.eye(N * N) / N ** 2)) / (X.std(axis=0) / math.sqrt(n) + 1e-9)
        req(np.abs(s) < 8.5, 'mean channel is completely depolarising', scores=s)
    case.hit('tp' if tp else 'not tp', when=K is not None or not tp)


@sub('T02', 40, rule='a mean other than the maximally mixed state, in a large sample')
def informative(d, case):
    """Damped priors have the requested mean, and samples between the fiducial state and its extreme point."""
    channel = d.chance(1, 4)
    r = d.rng()
    if channel:
        fid = tm.BCSZChoiDistribution(tm.pauli_basis(1))
        b = fid.basis
        D = 4
        U = qt.Qobj(tomo.unitary(r, 2))
        V = qt.Qobj(tomo.unitary(r, 2))
        lam = d.fl(0.2, 0.9)
        S = (1 - lam) * 0.5 * (qt.to_super(U) + qt.to_super(V))
        # completely depolarising part
        dep = qt.Qobj(np.outer(np.eye(2).flatten('F'), np.eye(2).flatten('F')) / 2, dims=[[[2], [2]]] * 2)
        S = S + lam * dep
        S.superrep = 'super'
        C = qt.to_choi(S)
        target = C.full() / 2
        mean = S if d.bool() else C.unit()
    else:
        b = draw_basis(d, 4)
        D = int(b.dim)
        K = d.pick([D, d.int(1, D)])
        fid = tm.GinibreDistribution(b, *([] if K == D and d.bool() else [K]))
        e = r.dirichlet(np.ones(D)) + d.pick([0.02, 0.2])
        e /= e.sum()
        U = tomo.unitary(r, D)
        target = (U * e).dot(U.conj().T)
        mean = tomo.qobj(target, b)
    if abs(D * np.linalg.eigvalsh(target).min() - 1) < 1e-3:
        raise Reject()
    dist = tm.GADFLIDistribution(fid, mean)
    d.np_seed()
    n = d.pick([1, 5, 1500 if D < 4 else 600])
    X = draw(dist, n, b, 'damped prior')
    w0 = np.linalg.eigvalsh(target).min()
    star = (target - w0 * np.eye(D)) / (1 - D * w0)
    for x in X[:300]:
        M, w = state_of(b, x, 'damped prior')
    if n > 100 and not channel:
        # the share of the extreme point is a beta variable of mean 1 / (1 + beta)
        beta = D * w0 / (1 - D * w0)
        e1, e2 = 1 / (1 + beta), 2 / ((1 + beta) * (2 + beta))
        want = (1 - 2 * e1 + e2) * (D + K) / (D * K + 1) + 2 * (e1 - e2) / D + e2 * np.real(np.trace(star.dot(star)))
        pur = (X ** 2).sum(axis=1)
        s = (pur.mean() - want) / (pur.std() / math.sqrt(n) + 1e-9)
        req(abs(s) < 8.5, 'purity of the damped prior', score=s, got=pur.mean(), want=want, beta=beta)
    if n > 100:
        stats.serial(X[:, X.std(axis=0) > 1e-6], 'damped prior')
        m = vec(b, target)
        s = (X.mean(axis=0) - m) / (X.std(axis=0) / math.sqrt(n) + 1e-9)
        req(np.abs(s) < 8.5, 'mean of the damped prior', scores=s, got=X.mean(axis=0), want=m)
    case.hit('channel' if channel else 'state', 'several factors' if len(b.dims) > 1 else 'one factor', when=n > 100)


@sub('T02', 30, rule='a large sample')
def between(d, case):
    """Damped samples lie on the line from the fiducial sample to the extreme point, as far as gives the
    requested mean; making priors leaves the bases of other priors alone."""
    from qinfer.tomography.distributions import DensityOperatorDistribution
    b = draw_basis(d, 4)
    D = int(b.dim)
    r = d.rng()
    U = tomo.unitary(r, D)
    e = r.dirichlet(np.ones(D)) + d.pick([0.02, 0.3])
    e /= e.sum()
    target = (U * e).dot(U.conj().T)
    w0 = e.min()
    if D * w0 > 0.97:
        raise Reject()
    v = np.linalg.qr(r.randn(D, D) + 1j * r.randn(D, D))[0][:, 0]
    F = np.outer(v, v.conj())

    class Fixed(DensityOperatorDistribution):
        def _sample_dm(self):
            return tomo.qobj(F, b)
    dist = tm.GADFLIDistribution(Fixed(b), tomo.qobj(target, b))
    n = d.pick([1, 5, 2000])
    d.np_seed()
    X = draw(dist, n, b, 'damped prior')
    star = (target - w0 * np.eye(D)) / (1 - D * w0)
    f, s = vec(b, F), vec(b, star)
    t = (X - f).dot(s - f) / (s - f).dot(s - f)
    close(X, f + t[:, None] * (s - f), 'samples on the line to the extreme point', rtol=0, atol=1e-9)
    req((t > -1e-9) & (t < 1 + 1e-9), 'samples beyond the ends of the line', t=t)
    if n > 100:
        beta = D * w0 / (1 - D * w0)
        if beta > 0.4:      # otherwise many shares are one to rounding
            stats.ks(t, lambda y: 1 - (1 - np.clip(y, 0, 1)) ** beta, 'share of the extreme point', beta=beta)
    p1, p2 = tm.pauli_basis(1), tm.tensor_product_basis(tm.pauli_basis(1), tm.pauli_basis(1))
    tm.BCSZChoiDistribution(p1)
    g1 = tm.gell_mann_basis(2)
    tm.BCSZChoiDistribution(g1)
    for q, dims in ((p1, [2]), (p2, [2, 2]), (g1, [2]), (tm.tensor_product_basis(p1, p1), [2, 2]), (tm.pauli_basis(2), [2, 2]),
                    (tm.tensor_product_basis(g1, g1), [2, 2])):
        req(list(q.dims) == dims and q.superrep is None, 'a basis other than that of the channel prior', dims=q.dims, superrep=q.superrep)
    case.hit(when=n > 100)


@sub('T02', 20, rule='always')
def uninformative_means(d, case):
    """Means with negative eigenvalues are refused."""
    b = draw_basis(d, 4)
    D = int(b.dim)
    r = d.rng()
    e = np.abs(r.randn(D)) + 0.1
    e[0] = -d.fl(0.05, 1)
    if e.sum() <= 0.01:
        e[1] += 2
    e /= e.sum()
    U = tomo.unitary(r, D)
    raises(ValueError, lambda: tm.GADFLIDistribution(tm.GinibreDistribution(b), tomo.qobj((U * e).dot(U.conj().T), b)),
           'a mean with a negative eigenvalue')
    case.hit(str(D))


@sub('T02', 24, rule='factors of different dimension or rank')
def tensor_products(d, case):
    """Tensor products of priors give product states of independent samples of the factors, in order."""
    bs = [draw_basis(d, 3), tm.pauli_basis(1)]
    if d.bool():
        bs = bs[::-1]
    if d.chance(1, 4):
        bs.append(tm.gell_mann_basis(2))
    Ks = [d.int(1, int(b.dim)) for b in bs]
    fs = [tm.GinibreDistribution(b, K) for b, K in zip(bs, Ks)]
    if d.chance(1, 3):
        # one distribution may stand for several factors
        i, j = d.pick([(0, 1), (1, 0)])
        bs[i], Ks[i], fs[i] = bs[j], Ks[j], fs[j]
        case.label('same factor')
    dist = tm.TensorProductDistribution(fs if d.bool() else tuple(fs))
    dims = [int(b.dim) for b in bs]
    D = int(np.prod(dims))
    close(np.asarray(dist.basis.data), np.asarray(tm.tensor_product_basis(*bs).data), 'basis')
    d.np_seed()
    n = d.pick([1, 4, 300])
    X = draw(dist, n, dist.basis, 'tensor product')
    pur = np.empty((n, len(fs)))
    along = np.empty((n, len(fs)))
    for k, x in enumerate(X):
        M, w = state_of(dist.basis, x, 'tensor product')
        parts = []
        T = M.reshape(dims + dims)
        for i in range(len(dims)):
            idx = list(range(len(dims))) * 2
            idx[i], idx[len(dims) + i] = 10, 11
            p = np.einsum(T, idx, [10, 11])
            parts.append(p)
            wp = np.linalg.eigvalsh(p)
            req((wp > 1e-12).sum() <= Ks[i], 'rank of a factor', eigenvalues=wp, rank=Ks[i])
            pur[k, i] = (wp ** 2).sum()
            along[k, i] = p[0, 0].real
        prod = parts[0]
        for p in parts[1:]:
            prod = np.kron(prod, p)
        close(prod, M, 'samples are product states', atol=1e-9)
    if n > 100:
        for i in range(len(dims)):
            N, K = dims[i], Ks[i]
            if K > 1:
                s = (pur[:, i].mean() - (N + K) / (N * K + 1)) / (pur[:, i].std() / math.sqrt(n))
                req(abs(s) < 8.5, 'purity of a factor', score=s, factor=i)
        stats.uncorrelated(pur + 1e-6 * np.random.RandomState(0).rand(*pur.shape), 'purities of factors')
        stats.uncorrelated(along, 'factors')
        stats.serial(along, 'tensor products')
    case.hit('%d factors' % len(fs), when=len(set(dims)) > 1 or len(set(Ks)) > 1)
