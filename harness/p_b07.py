"""B07: credible regions hold the mass they promise."""
import numpy as np
import scipy.stats as ss
from scipy.spatial import ConvexHull

from core import sub, req, close, same_shape, Reject
import qinfer as qi
from qinfer import utils
import zoo

ASSUMPTIONS = ['hulls and ellipsoids are judged for credible sets in general position']


def cloud(d, nmin, nmax, kmin, kmax):
    n, k = d.int(nmin, nmax), d.int(kmin, kmax)
    x = d.rng().randn(n, k)
    x[:, 0] += 1e-3 * np.arange(n)
    w = d.weights(n) if d.bool() else d.rng().dirichlet(np.ones(n))
    p = qi.ParticleDistribution(particle_locations=x, particle_weights=w)
    return n, k, x, p.particle_weights, p


def level(d):
    return d.pick([0.0, 0.1, 0.5, 0.9, 0.95, 0.99, 1.0]) if d.chance(1, 4) else d.fl(0.3, 0.98)


def draw_slice(d, k, kmin=1):
    a = d.int(0, k - kmin)
    b = d.int(a + kmin, k)
    return np.s_[a:b]


def which(x, pts):
    return np.array([int(np.argmin(np.abs(x[:, 0] - v))) for v in pts[:, 0]], dtype=int)


@sub('B07', 400, rule='the region is a proper subset of at least two particles')
def credible(d, case):
    """The credible set is the smallest set of heaviest particles that reaches the level."""
    n, k, x, w, p = cloud(d, d.pick([1, 3, 6]), 14, 1, 3)
    lv = level(d)
    ins, out = p.est_credible_region(level=lv, return_outside=True)
    ins2 = p.est_credible_region(level=lv)
    req(np.array_equal(ins, ins2), 'the region does not depend on what else is returned')
    same_shape(ins, (len(ins), k), 'inside')
    same_shape(out, (n - len(ins), k), 'outside')
    a, b = which(x, ins), which(x, out)
    req(np.array_equal(np.sort(np.concatenate([a, b])), np.arange(n)), 'inside and outside split the particles')
    req(np.array_equal(x[a], ins) and np.array_equal(x[b], out), 'regions consist of particles')
    mass = w[a].sum()
    req(mass >= lv - 1e-9, 'the region holds at least the level', mass=mass, level=lv, weights=w)
    if len(a) and len(b):
        req(w[a].min() >= w[b].max() - 1e-15, 'heaviest particles first', inside=w[a], outside=w[b])
    if len(a) > 1:
        req(mass - w[a].min() <= lv + 1e-9, 'no particle more than needed', inside=w[a], level=lv)
    if k > 1:
        sl = draw_slice(d, k)
        s = p.est_credible_region(level=lv, modelparam_slice=sl)
        req(np.array_equal(s, ins[:, sl]), 'a slice of the parameters shows the same particles')
    lv2 = level(d)
    lo, hi = (ins, p.est_credible_region(level=lv2)) if lv <= lv2 else (p.est_credible_region(level=lv2), ins)
    if len(np.unique(w)) == n:
        req(set(which(x, lo)) <= set(which(x, hi)), 'regions are nested')
    case.hit(when=2 <= len(a) < n)


def good_position(pts, k):
    if len(pts) < k + 2:
        raise Reject()
    c = pts - pts.mean(axis=0)
    if np.linalg.svd(c, compute_uv=False)[-1] < 0.05:
        raise Reject()


@sub('B07', 250, rule='a credible particle that is not a vertex')
def hull(d, case):
    """The hull region's vertices are credible particles, and it contains all of them."""
    n, k, x, w, p = cloud(d, 12, 40, 2, 3) if d.chance(9, 10) else cloud(d, 300, 400, 3, 4)
    lv = d.pick([0.5, 0.9, 0.95, 1.0])
    sl = draw_slice(d, k, 2) if d.bool() else None
    pts = p.est_credible_region(level=lv, modelparam_slice=sl)
    kk = pts.shape[1]
    good_position(pts, kk)
    faces, verts = p.region_est_hull(level=lv, modelparam_slice=sl)
    same_shape(faces, (len(faces), kk, kk), 'faces')
    same_shape(verts, (len(verts), kk), 'vertices')
    known = {tuple(r) for r in pts}
    req(all(tuple(v) in known for v in verts), 'vertices are credible particles')
    vs = {tuple(v) for v in verts}
    req(len(vs) == len(verts), 'vertices are listed once')
    req({tuple(v) for f in faces for v in f} == vs, 'faces are made of exactly the vertices')
    ctr = verts.mean(axis=0)
    for f in faces:
        # the plane through a face has all credible particles on one side
        nrm = np.linalg.svd(f[1:] - f[0])[2][-1]
        side = (pts - f[0]).dot(nrm)
        req(side.min() > -1e-7 or side.max() < 1e-7, 'every credible particle is on the inner side of every face')
    # membership
    r = d.rng()
    lam = r.dirichlet(np.ones(len(pts)), size=5)
    inner = lam.dot(pts)
    got = p.in_credible_region(inner, level=lv, modelparam_slice=sl, method='hpd-hull')
    req(np.all(got), 'averages of credible particles are inside the hull', got=got)
    dirs = r.randn(6, kk)
    outer = []
    for u in dirs:
        t = pts.dot(u).max()
        outer.append(ctr + u * (t - ctr.dot(u) + 0.05) / u.dot(u))
    got = p.in_credible_region(np.array(outer), level=lv, modelparam_slice=sl, method='hpd-hull')
    req(not np.any(got), 'points beyond a supporting plane are outside of the hull', got=got)
    one = p.in_credible_region(inner[0], level=lv, modelparam_slice=sl, method='hpd-hull')
    req(np.size(one) == 1 and bool(np.all(one)), 'a single point')
    case.hit(when=len(verts) < len(pts))


@sub('B07', 120, 1500, rule='a credible particle that is not a vertex')
def ellipsoid(d, case):
    """The ellipsoid region contains every credible particle, and membership agrees with it."""
    n, k, x, w, p = cloud(d, 12, 40, 2, 3)
    lv = d.pick([0.25, 0.5, 0.9, 0.95])
    sl = draw_slice(d, k, 2) if d.bool() else None
    pts = p.est_credible_region(level=lv, modelparam_slice=sl)
    kk = pts.shape[1]
    good_position(pts, kk)
    tol = d.pick([2e-3, 1e-3, 5e-4])
    A, c = p.region_est_ellipsoid(level=lv, tol=tol, modelparam_slice=sl)
    same_shape(A, (kk, kk), 'ellipsoid')
    same_shape(c, (kk,), 'centre')
    q = np.einsum('ij,jk,ik->i', pts - c, np.linalg.inv(A), pts - c)
    slack = 1 + 40 * tol * (kk + 1) ** 2
    req(q.max() <= slack, 'every credible particle is inside the ellipsoid', largest=q.max(), tol=tol)
    req(q.max() >= 0.95, 'the ellipsoid touches the credible particles', largest=q.max())
    req(np.sum(q > 0.95) >= kk, 'the ellipsoid is held by several particles', near=np.sum(q > 0.95))
    r = d.rng()
    test = np.concatenate([c + 1.5 * r.randn(30, kk), pts])
    qq = np.einsum('ij,jk,ik->i', test - c, np.linalg.inv(A), test - c)
    got = p.in_credible_region(test, level=lv, modelparam_slice=sl, method='hpd-mvee', tol=tol)
    if d.chance(1, 8):
        # the documented default tolerance
        A1, c1 = p.region_est_ellipsoid(level=lv, modelparam_slice=sl)
        q1 = np.einsum('ij,jk,ik->i', test - c1, np.linalg.inv(A1), test - c1)
        req(q1[30:].max() <= 1 + 40e-4 * (kk + 1) ** 2, 'every credible particle is inside the ellipsoid of the default tolerance')
        for kw in ({}, dict(tol=None)):
            g1 = p.in_credible_region(test, level=lv, modelparam_slice=sl, method='hpd-mvee', **kw)
            req((np.asarray(g1) == (q1 <= 1))[np.abs(q1 - 1) > 1e-6], 'membership with the default tolerance', got=g1, q=q1)
    sure = np.abs(qq - 1) > 1e-6
    req((np.asarray(got) == (qq <= 1))[sure], 'membership agrees with the ellipsoid', got=got, q=qq)
    # the hull is inside of the ellipsoid
    inner = r.dirichlet(np.ones(len(pts)), size=8).dot(pts)
    inn = np.einsum('ij,jk,ik->i', inner - c, np.linalg.inv(A), inner - c)
    req(inn <= slack, 'the hull is inside of the ellipsoid')
    case.hit(when=len(ConvexHull(pts).vertices) < len(pts))


@sub('B07', 200, rule='points on both sides of the boundary')
def covariance_ellipsoid(d, case):
    """The covariance ellipsoid of a level is the Gaussian one."""
    n, k, x, w, p = cloud(d, 6, 30, 1, 4)
    lv = d.fl(0.05, 0.99)
    sl = draw_slice(d, k) if d.bool() else None
    s = sl if sl is not None else np.s_[:]
    mu = w.dot(x)
    C = (x - mu).T.dot((x - mu) * w[:, None])
    mu, C = mu[s], C[s, s]
    if np.linalg.eigvalsh(C)[0] < 1e-4:
        raise Reject()
    pts = mu + d.rng().randn(20, len(mu)).dot(np.linalg.cholesky(C).T) * 1.3
    q = np.einsum('ij,jk,ik->i', pts - mu, np.linalg.inv(C), pts - mu)
    lim = ss.chi2.ppf(lv, len(mu))
    sure = np.abs(q - lim) > 1e-6
    got = p.in_credible_region(pts, level=lv, modelparam_slice=sl, method='pce')
    same_shape(got, (20,), 'membership')
    req((np.asarray(got) == (q <= lim))[sure], 'membership of the covariance ellipsoid', got=got, q=q, limit=lim)
    one = p.in_credible_region(pts[0], level=lv, modelparam_slice=sl, method='pce')
    if sure[0]:
        req(bool(one) == bool(q[0] <= lim), 'a single point')
    case.hit(when=0 < np.sum(q <= lim) < 20)


def known_points(d, k):
    kind = d.pick(['cube', 'cross', 'simplex'])
    if kind == 'cube':
        v = np.array(np.meshgrid(*[[-1, 1]] * k)).reshape(k, -1).T / np.sqrt(k)
    elif kind == 'cross':
        v = np.concatenate([np.eye(k), -np.eye(k)])
    else:
        e = np.eye(k + 1) - 1.0 / (k + 1)
        b = np.linalg.svd(e)[2][:k]
        v = e.dot(b.T)
        v = v / np.linalg.norm(v[0])
    return v.astype(float)


@sub('B07', 120, 1500, rule='at least one inner point')
def min_ellipse(d, case):
    """The minimum-volume ellipsoid of the image of a cube, cross-polytope or simplex (with further
    inner points) is the image of the sphere around it."""
    k = d.int(1, 4)
    v = known_points(d, k)
    r = d.rng()
    m = d.int(0, 6)
    if m:
        g = r.randn(m, k)
        v = np.concatenate([v, 0.9 * g / np.linalg.norm(g, axis=1)[:, None] * r.uniform(0, 1, (m, 1))])
    v = v[r.permutation(len(v))]
    Mx = r.randn(k, k)
    if np.linalg.cond(Mx) > 30:
        raise Reject()
    t = r.randn(k)
    tol = d.pick([1e-2, 1e-3, 1e-3, 1e-3, 1e-3, 1e-4])
    A, c = utils.mvee(v.dot(Mx.T) + t, tol=tol) if tol != 1e-3 or d.bool() else utils.mvee(v.dot(Mx.T) + t)
    B = Mx.T.dot(A).dot(Mx)
    far = min(0.3, 100 * tol)
    close(B, np.eye(k), 'minimum-volume ellipsoid', rtol=0, atol=far, tol=tol)
    close(np.linalg.inv(Mx).dot(c - t), np.zeros(k), 'centre', rtol=0, atol=far, tol=tol)
    vol = utils.ellipsoid_volume(A)
    from scipy.special import gamma
    close(vol, np.pi ** (k / 2.) / gamma(1 + k / 2.) * abs(np.linalg.det(Mx)), 'volume', rtol=max(0.02, 2 * far), tol=tol)
    close(utils.ellipsoid_volume(invA=np.linalg.inv(A)), vol, 'volume from the inverse', rtol=1e-6)
    case.hit(when=m > 0)


@sub('B07', 200, rule='points on both sides of the boundary')
def in_ellipsoid(d, case):
    """Membership of an ellipsoid, for one point and for many."""
    k = d.int(1, 4)
    r = d.rng()
    g = r.randn(k, k)
    A = g.dot(g.T) + 0.1 * np.eye(k)
    c = r.randn(k)
    L = np.linalg.cholesky(A)
    rad = d.arr(8, 0, 2)
    u = r.randn(8, k)
    u /= np.linalg.norm(u, axis=1)[:, None]
    x = c + (rad[:, None] * u).dot(L.T)
    sure = np.abs(rad - 1) > 1e-6
    got = utils.in_ellipsoid(x, A, c)
    same_shape(got, (8,), 'membership')
    req((got == (rad <= 1))[sure], 'membership', got=got, radius=rad)
    for i in range(8):
        if sure[i]:
            req(bool(utils.in_ellipsoid(x[i], A, c)) == (rad[i] <= 1), 'membership of a single point')
    case.hit(when=0 < np.sum(rad <= 1) < 8)


@sub('B07', 60, rule='the particles or weights changed')
def changing_cloud(d, case):
    """Regions are those of the present particles and weights."""
    p, change, fresh, moved = zoo.changed_cloud(d, zoo.table_updater)
    k = p.particle_locations.shape[1]
    lev = d.fl(0.3, 0.95)
    pts = d.arr((6, k), -1, 1)

    def ask(q):
        out = [q.est_credible_region(level=lev)]
        C = q.est_covariance_mtx()
        if np.linalg.eigvalsh(C)[0] > 1e-6 * np.trace(C):
            out.append(q.in_credible_region(pts * np.abs(q.particle_locations).max(), level=lev, method='pce'))
        return out
    ask(p)
    change()
    got, want = ask(p), ask(fresh)
    req(len(got) == len(want), 'covariance after the cloud changed')
    for a, b in zip(got, want):
        req(np.array_equal(a, b), 'region after the cloud changed', got=a, expected=b)
    case.hit(when=moved)
