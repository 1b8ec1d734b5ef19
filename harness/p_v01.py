"""V01: plots draw the numbers that they name."""
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.patches import Ellipse, Polygon, Circle

from core import sub, req, close, same_shape
import qinfer as qi
import qinfer.smc as smc
from qinfer import tomography as tm
from qinfer.tomography import plotting_tools as pt
import zoo

ASSUMPTIONS = ['matplotlib draws the artists that it holds; plots are read back from the artists of the current axes',
               'the Hinton diagrams of mpltools do not run under the installed matplotlib: a stand-in records the matrix']


def fresh():
    plt.close('all')
    return plt.figure()


def draw_updater(d, k=None):
    """An updater after some data, and its family."""
    k = d.int(1, 3) if k is None else k
    fam = zoo.Table(d, n_mp=k)
    n = d.pick([6, 15, 40])
    rows = d.rng().uniform(0.05, 0.95, size=(n, k)) * d.arr(k, 0.5, 2) + d.arr(k, -1, 1)
    up = qi.SMCUpdater(fam.model, n, zoo.FixedPrior(rows), resample_thresh=0.0)
    if d.chance(3, 4):
        w = d.rng().uniform(0.05, 1, size=n)
        up.particle_weights = w / w.sum()
    return up, k


def verticals(ax, but):
    """Vertical segments (x, lowest, highest) among all artists but the given lines."""
    out = []
    segs = [s for c in ax.collections if hasattr(c, 'get_segments') for s in c.get_segments()]
    segs += [l.get_xydata() for l in ax.lines if l not in but]
    for s in segs:
        s = np.asarray(s)
        req(np.ptp(s[:, 0]) == 0, 'a segment other than the marginal is vertical', segment=s)
        out.append((s[0, 0], s[:, 1].min(), s[:, 1].max()))
    return out


@sub('V01', 60, rule='several parameters, a range or a true model')
def marginals(d, case):
    """plot_posterior_marginal draws the marginal with its name and a line at the true model, leaving the scale alone."""
    up, k = draw_updater(d)
    i = d.int(0, k - 1)
    kw = {}
    if i or d.bool():
        kw['idx_param'] = i
    if d.bool():
        kw['res'] = d.pick([7, 50, 101])
    if d.bool():
        kw['smoothing'] = d.pick([0.02, 0.1])
    if d.bool():
        kw.update(range_min=d.fl(-2, 0), range_max=d.fl(0.5, 3))
    want = up.posterior_marginal(**kw)
    style = {'color': '#123456', 'linewidth': d.pick([1.5, 3.0])} if d.bool() else {}
    more = dict(other_plot_args=dict(style)) if style else {}
    label = d.pick([None, True, False])
    if label is not None:
        more['label_xaxis'] = label
    fresh()
    lines = up.plot_posterior_marginal(**dict(kw, **more))
    ax = plt.gca()
    plain_y, plain_x = ax.get_ylim(), ax.get_xlim()
    true = None
    if d.bool():
        true = d.arr(k, -1, 2)
        fresh()
        lines = up.plot_posterior_marginal(true_model=true[None, :] if d.bool() else true, **dict(kw, **more))
        ax = plt.gca()
    req(len(lines) == 1 and lines[0] in ax.lines, 'the line is returned')
    close(lines[0].get_xdata(), want[0], 'positions', rtol=1e-12)
    close(lines[0].get_ydata(), want[1], 'densities', rtol=1e-9, atol=1e-12)
    req(ax.get_xlabel() == ('' if label is False else '$%s$' % up.model.modelparam_names[i]), 'axis label', got=ax.get_xlabel())
    for f, v in style.items():
        req(getattr(lines[0], 'get_' + f)() == v, 'plot options', option=f)
    v = verticals(ax, lines)
    if true is None:
        req(not v, 'nothing else is drawn', segments=v)
    else:
        req(len(v) == 1, 'one line for the true model', segments=v)
        close(v[0][0], true[i], 'position of the true model', rtol=1e-12)
        lo, hi = sorted(plain_y)
        req(v[0][1] <= lo + 1e-9 and v[0][2] >= hi - 1e-9, 'the true model runs over the whole height', segment=v, limits=(lo, hi))
        close(ax.get_ylim(), plain_y, 'the true model leaves the scale alone', rtol=1e-9)
    case.hit('true' if true is not None else 'plain', when=k > 1 or 'range_min' in kw or true is not None)
    plt.close('all')


def levels_and_lines(cs):
    return np.asarray(cs.levels), [[np.asarray(s) for s in level] for level in cs.allsegs]


@sub('V01', 24, rule='parameters other than the first two, or unequal resolutions')
def contours(d, case):
    """plot_posterior_contour draws the contours of the posterior mesh of the parameters asked for."""
    k = d.int(2, 3)
    up, _ = draw_updater(d, k)
    i = d.int(0, k - 1)
    j = (i + d.int(1, k - 1)) % k
    kw = {}
    if d.chance(4, 5) or (i, j) != (0, 1):
        kw.update(idx_param1=i, idx_param2=j)
    if d.chance(4, 5):
        kw.update(res1=d.int(5, 25), res2=d.int(5, 25))
    if d.bool():
        kw['smoothing'] = d.pick([0.05, 0.2])
    fresh()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        want = levels_and_lines(plt.contour(*up.posterior_mesh(**kw)))
        fresh()
        cs = up.plot_posterior_contour(**kw)
    got = levels_and_lines(cs)
    close(got[0], want[0], 'contour levels')
    req([len(l) for l in got[1]] == [len(l) for l in want[1]], 'number of contour lines')
    for a, b in zip(got[1], want[1]):
        for s, t in zip(a, b):
            close(s, t, 'contour lines', rtol=1e-9)
    x = plt.gca().dataLim
    if any(len(l) for l in got[1]):
        locs = up.particle_locations
        lo, hi = locs.min(axis=0)[[i, j] if kw.get('idx_param1') is not None else [0, 1]], \
            locs.max(axis=0)[[i, j] if kw.get('idx_param1') is not None else [0, 1]]
        pts = np.concatenate([s for l in got[1] for s in l if len(s)])
        req((pts >= lo - 1e-9) & (pts <= hi + 1e-9), 'contours lie among the particles of these parameters', x=x)
    case.hit(when=(i, j) != (0, 1) or kw.get('res1') != kw.get('res2'))
    plt.close('all')


class Hinton(object):
    """Stands for mpltools.special: records what is drawn."""

    def __init__(self):
        self.seen = []

    def hinton(self, inarray, *args, **kwargs):
        self.seen.append(np.array(inarray))
        n, m = np.shape(inarray)
        plt.gca().set_xlim(-0.5, m - 0.5)
        plt.gca().set_ylim(n - 0.5, -0.5)
        return self


@sub('V01', 40, rule='at least two parameters drawn')
def covariances(d, case):
    """plot_covariance draws the covariance or correlations of the chosen parameters, under their names."""
    up, k = draw_updater(d, d.int(2, 4))
    corr = d.pick([None, True, False])
    sl = d.pick([None, np.s_[:2], np.s_[1:], np.s_[::2], np.s_[:1]])
    labels = None
    idx = list(range(k))[sl] if sl is not None else list(range(k))
    if d.bool():
        labels = ['L%d' % i for i in idx]
    kw = {}
    if corr is not None:
        kw['corr'] = corr
    if sl is not None:
        kw['param_slice'] = sl
    if labels is not None:
        kw['tick_labels'] = list(labels)
    if d.bool():
        kw['tick_params'] = {'rotation': 30}
    h = Hinton()
    old, smc.mpls = smc.mpls, h
    fresh()
    try:
        ret = up.plot_covariance(**kw)
    finally:
        smc.mpls = old
    req(ret is h and len(h.seen) == 1, 'the diagram is drawn once and returned')
    w = up.particle_weights
    mu = w @ up.particle_locations
    C = (up.particle_locations - mu).T @ (w[:, None] * (up.particle_locations - mu))
    if corr:
        s = np.sqrt(np.diag(C))
        C = C / np.outer(s, s)
    close(h.seen[0], C[np.ix_(idx, idx)], 'matrix of the diagram', rtol=1e-7, atol=1e-10)
    ax = plt.gca()
    names = labels if labels is not None else ['$%s$' % up.model.modelparam_names[i] for i in idx]
    for axis in (ax.xaxis, ax.yaxis):
        close(axis.get_ticklocs(), np.arange(len(idx)), 'tick positions', rtol=0, atol=0)
        req([t.get_text() for t in axis.get_ticklabels()] == names, 'tick labels', got=[t.get_text() for t in axis.get_ticklabels()], want=names)
    case.hit('correlations' if corr else 'covariance', when=len(idx) > 1)
    plt.close('all')


def scatters(ax):
    """Offsets and sizes of all scatter plots."""
    return [(np.ma.getdata(c.get_offsets()), c.get_sizes()) for c in ax.collections]


def has_points(sc, pts, msg):
    hits = [s for o, s in sc if np.shape(o) == np.shape(pts) and np.allclose(o, pts, rtol=1e-9, atol=1e-12)]
    req(len(hits) >= 1, msg, wanted=pts[:3], drawn=[o[:3] for o, _ in sc])
    return hits[0]


def on_ellipse(patch, cov, pos, nstd):
    th = np.linspace(0, 2 * np.pi, 17)
    p = patch.get_patch_transform().transform(np.stack([np.cos(th), np.sin(th)], axis=1)) - np.asarray(pos)
    r = np.einsum('ni,ij,nj->n', p, np.linalg.inv(cov), p)
    close(r, np.full(17, float(nstd) ** 2), 'the ellipse lies at the given number of standard deviations', rtol=1e-5, atol=1e-9)


def draw_cov(d):
    L = d.arr((2, 2), -1, 1) + np.diag(d.arr(2, 0.5, 1.5) * d.pick([1, 0.1]))
    C = L @ L.T
    return C if np.linalg.cond(C) < 1e8 else np.diag([1.0, 0.25])


@sub('V01', 60, rule='always')
def ellipses(d, case):
    """plot_cov_ellipse draws where the deviation from the centre is the given number of standard deviations."""
    C, pos = draw_cov(d), d.arr(2, -2, 2)
    if d.chance(1, 3):
        C = np.diag(np.diag(C))
    f = fresh()
    kw = {}
    n = 2
    if d.bool():
        n = kw['nstd'] = d.pick([1, 3, 0.5])
    other = None
    if d.bool():
        ax = kw['ax'] = f.add_subplot(1, 2, 1)
        other = f.add_subplot(1, 2, 2)
    else:
        ax = plt.gca()
    copy = C.copy()
    e = pt.plot_cov_ellipse(C, pos, alpha=0.25, **kw)
    req(isinstance(e, Ellipse) and e in ax.get_children(), 'the ellipse is drawn in the axes asked for and returned')
    req(other is None or not any(isinstance(c, Ellipse) for c in other.get_children()), 'no other axes are drawn in')
    on_ellipse(e, C, pos, n)
    req(e.get_alpha() == 0.25, 'options reach the ellipse')
    req(np.array_equal(C, copy), 'the covariance is left alone')
    case.hit('n=%s' % n)
    plt.close('all')


def decorations(ax, basis, axes):
    req(ax.get_xlabel() == r'$\langle\!\langle %s | \rho \rangle\!\rangle$' % basis.labels[axes[0]]
        and ax.get_ylabel() == r'$\langle\!\langle %s | \rho \rangle\!\rangle$' % basis.labels[axes[1]],
        'labels name the basis elements', got=(ax.get_xlabel(), ax.get_ylabel()))
    c = [a for a in ax.get_children() if isinstance(a, Circle)]
    req(len(c) == 1 and c[0].get_radius() == 1 and np.allclose(c[0].center, 0), 'one circle of pure states')
    req(min(ax.get_xlim()) <= -1 and max(ax.get_xlim()) >= 1 and min(ax.get_ylim()) <= -1 and max(ax.get_ylim()) >= 1,
        'all states are in view')
    req(ax.get_aspect() in ('equal', 1), 'equal scales')


@sub('V01', 60, rule='axes other than the defaults, or a true state')
def rebits(d, case):
    """Plots of priors and posteriors over one qubit show particles, means, true states and regions in Bloch coordinates."""
    basis = tm.pauli_basis(1) if d.bool() else tm.gell_mann_basis(2)
    axes = d.pick([None, [1, 3], [2, 3], [3, 1], [1, 2]])
    ax_kw = {} if axes is None else {'rebit_axes': list(axes)}
    ra = [1, 2] if axes is None else axes
    d.np_seed()
    gin = tm.GinibreDistribution(basis)
    true = gin.sample(1) if d.bool() else None
    kind = d.int(0, 2)
    fresh()
    if kind == 0:
        mps = gin.sample(d.int(1, 9))
        pt.plot_rebit_modelparams(mps, marker='x', **ax_kw)
        pt.plot_decorate_rebits(basis, **ax_kw)
        ax = plt.gca()
        has_points(scatters(ax), mps[:, ra] * np.sqrt(2), 'states in Bloch coordinates')
        decorations(ax, basis, ra)
    elif kind == 1:
        informed = d.bool()
        mean = basis.modelparams_to_state(0.5 * gin.sample(1)[0] + 0.5 * np.array([1 / np.sqrt(2), 0, 0, 0])) if informed else None
        prior = tm.GADFLIDistribution(gin, mean) if informed else gin
        kw = dict(ax_kw)
        if true is not None:
            kw['true_state'] = true
        forced = None
        if d.chance(1, 3):
            forced = kw['force_mean'] = basis.modelparams_to_state(0.3 * gin.sample(1)[0] + 0.7 * np.array([1 / np.sqrt(2), 0, 0, 0]))
        n = 2000
        if d.chance(3, 4):
            n = kw['n_samples'] = d.int(3, 40)
        leg = d.pick([None, True, False])
        if leg is not None:
            kw['legend'] = leg
        s = d.seed()
        np.random.seed(s)
        want = prior.sample(n)
        np.random.seed(s)
        pt.plot_rebit_prior(prior, **kw)
        ax = plt.gca()
        sc = scatters(ax)
        has_points(sc, want[:, ra] * np.sqrt(2), 'samples of the prior in Bloch coordinates')
        count = 1
        if true is not None:
            has_points(sc, true[:, ra] * np.sqrt(2), 'the true state')
            count += 1
        m = forced if forced is not None else mean
        if m is not None:
            has_points(sc, basis.state_to_modelparams(m)[None, ra] * np.sqrt(2), 'the mean')
            count += 1
        req(len(sc) == count, 'nothing else is drawn', got=len(sc), expected=count)
        decorations(ax, basis, ra)
        req((ax.get_legend() is None) == (leg is False), 'a legend, unless unwanted')
    else:
        model = tm.TomographyModel(basis)
        model = qi.BinomialModel(model) if d.bool() else model
        up = qi.SMCUpdater(model, d.int(8, 40), gin)
        w = d.rng().uniform(0.05, 1, size=up.n_particles)
        up.particle_weights = w / w.sum()
        kw = dict(ax_kw)
        if true is not None:
            kw['true_state'] = true
        mean = None
        if d.bool():
            mean = basis.modelparams_to_state(0.5 * gin.sample(1)[0] + 0.5 * np.array([1 / np.sqrt(2), 0, 0, 0])) if d.bool() else None
            kw['prior'] = tm.GADFLIDistribution(gin, mean) if mean is not None else gin
        method = d.pick(['default', 'cov', 'hull', None])
        n, level = 3, 0.95
        if method != 'default':
            kw['region_est_method'] = method
        if d.bool():
            n = kw['n_std'] = d.pick([1, 2])
            level = kw['level'] = d.pick([0.5, 0.9] + ([0.3] if up.n_particles >= 20 else []))
        leg = d.pick([None, True, False])
        if leg is not None:
            kw['legend'] = leg
        pt.plot_rebit_posterior(up, **kw)
        ax = plt.gca()
        sc = scatters(ax)
        r2 = np.sqrt(2)
        sizes = has_points(sc, up.particle_locations[:, ra] * r2, 'particles in Bloch coordinates')
        o = np.argsort(up.particle_weights)
        req(len(sizes) == len(o) and np.all(np.diff(sizes[o]) >= -1e-12), 'heavier particles are drawn no smaller')
        mu = up.particle_weights @ up.particle_locations
        has_points(sc, mu[None, ra] * r2, 'the posterior mean')
        count = 2
        if true is not None:
            has_points(sc, true[:, ra] * r2, 'the true state')
            count += 1
        if mean is not None:
            has_points(sc, basis.state_to_modelparams(mean)[None, ra] * r2, 'the prior mean')
            count += 1
        req(len(sc) == count, 'nothing else is drawn', got=len(sc), expected=count)
        ell = [a for a in ax.get_children() if isinstance(a, Ellipse) and not isinstance(a, Circle)]
        pol = [a for a in ax.get_children() if isinstance(a, Polygon)]
        if method in ('default', 'cov'):
            req(len(ell) == 1 and not pol, 'one ellipse')
            C = (up.particle_locations - mu).T @ (w[:, None] / w.sum() * (up.particle_locations - mu))
            on_ellipse(ell[0], 2 * C[np.ix_(ra, ra)], mu[ra] * r2, n)
        elif method == 'hull':
            req(len(pol) == 1 and not ell, 'one polygon')
            xy = pol[0].get_xy()[:-1]
            region = up.est_credible_region(level)[:, ra] * r2
            x, y = xy.T
            cross = x * np.roll(y, -1) - np.roll(x, -1) * y
            from scipy.spatial import ConvexHull
            close(abs(cross.sum()) / 2, ConvexHull(region).volume, 'area of the polygon is that of the hull of the region', rtol=1e-6, atol=1e-9)
        else:
            req(not ell and not pol, 'no region')
        decorations(ax, basis, ra)
        req((ax.get_legend() is None) == (leg is False), 'a legend, unless unwanted')
    case.hit(['states', 'prior', 'posterior'][kind], when=axes is not None or true is not None)
    plt.close('all')
