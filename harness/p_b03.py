"""B03: when the updater resamples, and what it remembers, over whole histories."""
import numpy as np

from core import sub, req, close, caught, Reject
import qinfer as qi
from qinfer import ApproximationWarning, ResamplerWarning
from qinfer.resamplers import Resampler
import zoo

ASSUMPTIONS = ['histories in which a resampling decision is a floating-point tie are not judged']


class Recorder(Resampler):
    """Resamples to a rule the harness knows, and remembers what it was given."""

    def __init__(self, rng, size=None):
        self.rng, self.size, self.seen, self.outs = rng, size, [], []

    def __call__(self, model, particle_dist, n_particles=None, precomputed_mean=None, precomputed_cov=None):
        n = self.size or particle_dist.n_particles
        self.seen.append((particle_dist.particle_weights.copy(), particle_dist.particle_locations.copy()))
        locs = self.rng.uniform(0, 3, size=(n, particle_dist.n_rvs))
        w = self.rng.uniform(0.2, 1, size=n)
        self.outs.append((w / w.sum(), locs.copy()))
        return qi.ParticleDistribution(particle_locations=locs, particle_weights=w)


class Moving(zoo.TableModel):
    cleared = 0
    fail_clear = False

    def update_timestep(self, mps, eps):
        return np.mod(mps + 0.05, 1.0)[:, :, None] * np.ones((1, 1, len(eps)))

    def canonicalize(self, x):
        return np.mod(x, 1.0)

    def clear_cache(self):
        self.cleared += 1
        if self.fail_clear:
            raise RuntimeError('cache')


def n_warn(ws, cat, word):
    return sum(1 for q in ws if issubclass(q.category, cat) and word in str(q.message))


@sub('B03', 350, rule='at least one resampling happened and at least one check did not resample')
def history(d, case):
    """Over any sequence of updates, batches and resamplings the updater resamples exactly when its
    effective sample size is below the threshold at a check, and its counters and records agree."""
    k = d.int(2, 4)
    m = Moving(k, 0, d.int(1, 2))
    m.fail_clear = d.chance(1, 5)
    fam = zoo.Table(d, k=k, lo=0, n_mp=m.n_mp)
    fam.model = m
    n = d.pick([2, 3, 5, 9, 15, 30])
    rows = d.rng().uniform(0, 1, size=(2 * n, m.n_mp))
    rec = Recorder(d.rng(), d.pick([None, None, 7, n + 3]))
    thresh = d.pick([0.0, 0.6, 0.8, 0.9, 0.95, 0.98])
    can, track = d.bool(), d.bool()
    up = qi.SMCUpdater(m, n, zoo.FixedPrior(rows), resampler=rec, resample_thresh=thresh, canonicalize=can,
                       track_resampling_divergence=track, debug_resampling=d.bool())
    W, X = np.ones(n) / n, up.particle_locations.copy()
    req(up.resample_count == 0 and up.min_n_ess == n and up.data_record == [], 'fresh updater')
    count, min_ess, data, norms, just = 0, float(n), [], 0, False
    stats = dict(yes=0, no=0)

    def resampled(before):
        nonlocal W, X, count, just
        count += 1
        req(len(rec.seen) >= count, 'a resampling took place', got=len(rec.seen), expected=count)
        sw, sx = rec.seen[count - 1]
        close(sw, before[0], 'the resampler was given the posterior weights', rtol=1e-6, atol=1e-9)
        close(sx, before[1], 'the resampler was given the moved particles', rtol=1e-9, atol=1e-9)
        W, X = rec.outs[count - 1]
        X = np.mod(X, 1.0) if can else X
        just = True

    def check():
        ess = 1 / np.sum(W ** 2)
        bound = len(W) * thresh
        if abs(ess - bound) < 1e-6 or abs(ess - 10) < 1e-6:
            raise Reject()
        low = ess <= 10
        if ess < bound:
            resampled((W, X))
            stats['yes'] += 1
        else:
            stats['no'] += 1
        return int(low)

    def datum(o, e):
        nonlocal W, X, min_ess, norms, just
        L = np.array([fam.ref(o, x, e[0]) for x in X])
        W = W * L
        if W.sum() < 1e-6:
            raise Reject()
        W = W / W.sum()
        X = np.mod(X + 0.05, 1.0)
        min_ess = min(min_ess, 1 / np.sum(W ** 2))
        data.append(int(o))
        norms += 1
        just = False

    for _ in range(d.int(1, 8)):
        op = d.pick(['update', 'update', 'quiet', 'batch', 'resample'])
        T = d.int(1, 7) if op == 'batch' else 1
        eps = fam.eps(d, T)
        eps['e'] += 0.37
        outs = d.ints(T, 0, k - 1)
        interval = d.int(1, 4)
        lows = 0
        again = just
        with caught() as ws:
            if op == 'resample':
                up.resample()
            elif op == 'batch':
                up.batch_update(outs, eps, resample_interval=interval)
            elif op == 'quiet':
                up.update(int(outs[0]), eps, check_for_resample=False)
            else:
                up.update(int(outs[0]), eps)
        if op == 'resample':
            old = qi.ParticleDistribution(particle_locations=X.copy(), particle_weights=W.copy())
            resampled((W, X))
            if track:
                close(up.resampling_divergences[-1], up.est_kl_divergence(old), 'recorded divergence of the new particles from the old',
                      rtol=1e-6, atol=1e-6)
            req((n_warn(ws, ResamplerWarning, 'without additional data') > 0) == again,
                'resampling twice without data is warned about, and only that')
        else:
            if op == 'batch':
                # replay the batch
                for t in range(T):
                    datum(outs[t], eps[t:t + 1])
                    if (t + 1) % interval == 0:
                        lows += check()
            else:
                datum(outs[0], eps)
                if op == 'update':
                    lows += check()
            req((n_warn(ws, ApproximationWarning, 'n_ess') > 0) == (lows > 0),
                'a tiny effective sample size at a check is warned about, and only that',
                ess=1 / np.sum(W ** 2), op=op)
        req(len(rec.seen) == count and up.resample_count == count, 'resampled exactly when below the threshold',
            op=op, resamplings=len(rec.seen), count=up.resample_count, expected=count, thresh=thresh)
        req(m.cleared == count, 'the model cache is cleared at each resampling', got=m.cleared, expected=count)
        close(up.particle_weights, W, 'weights', rtol=1e-6, atol=1e-9)
        close(up.particle_locations, X, 'locations', rtol=1e-9, atol=1e-9)
        req(up.n_particles == len(W), 'number of particles')
        close(up.min_n_ess, min_ess, 'smallest effective sample size', rtol=1e-6)
        req([int(np.atleast_1d(o)[0]) for o in up.data_record] == data, 'data record', got=up.data_record,
            expected=data)
        req(len(up.normalization_record) == norms, 'normalisation record')
        req(bool(up.just_resampled) == just or (count == 0 and not data), 'just_resampled')
        dv = up.resampling_divergences
        req((dv is None) if not track else (len(dv) == count), 'one divergence per resampling when tracked')
    snap = up.data_record
    snap.append('x')
    req(len(up.data_record) == len(data), 'the data record handed out is a copy')
    case.hit(when=stats['yes'] > 0 and stats['no'] > 0)


@sub('B03', 60, rule='an invalid or a legacy combination')
def arguments(d, case):
    """The resampler may be given as an object or by its parameter, not both."""
    m = zoo.TableModel(2, 0, 1)
    pr = zoo.FixedPrior(d.arr((5, 1), 0, 1))
    a = d.fl(0.5, 0.99)
    kind = d.int(0, 2)
    if kind == 0:
        try:
            qi.SMCUpdater(m, 5, pr, resample_a=a, resampler=qi.LiuWestResampler())
        except ValueError:
            pass
        else:
            req(False, 'both resampler and resample_a were accepted')
        case.hit()
    elif kind == 1:
        with caught():
            up = qi.SMCUpdater(m, 5, pr, resample_a=a)
        close(up.resampler.a, a, 'resample_a reaches the resampler')
        case.hit()
    else:
        up = qi.SMCUpdater(m, 5, pr)
        req(isinstance(up.resampler, qi.LiuWestResampler), 'Liu-West by default')
        close(up.resample_thresh, 0.5, 'default threshold')
        for other in (qi.SMCUpdaterBCRB(qi.SimplePrecessionModel(), 5, pr, initial_bim=np.zeros((1, 1))), qi.MixedApproximateSMCUpdater(m, m, 5, pr)):
            close(other.resample_thresh, 0.5, 'default threshold of ' + type(other).__name__)
            req(isinstance(other.resampler, qi.LiuWestResampler), 'Liu-West by default')


@sub('B03', 30, rule='a batch of more than seventy data or more than two thousand particles')
def large(d, case):
    """Resampling is checked for at the stated interval throughout long batches, whatever the number of particles."""
    n, T = d.pick([(5, 150), (30, 300), (200, 90), (2500, 4), (6000, 3)])
    m = Moving(d.int(2, 3), 0, 1)
    rec = Recorder(d.rng())
    thresh = d.pick([0.5, 0.9, 0.97])
    up = qi.SMCUpdater(m, n, zoo.FixedPrior(d.rng().uniform(0, 1, size=(n, 1))), resampler=rec, resample_thresh=thresh,
                       canonicalize=False)
    interval = d.pick([1, 1, 2, 3, 7, 50]) if T > 10 else 1
    eps = np.zeros(T, dtype=m.expparams_dtype)
    eps['e'] = d.rng().uniform(0.3, 6, size=T)
    outs = d.ints(T, 0, m.k - 1)
    W, X = np.ones(n) / n, up.particle_locations.copy()
    with caught():
        if d.bool() or interval > 1:
            up.batch_update(outs, eps, resample_interval=interval)
        else:
            for t in range(T):
                up.update(int(outs[t]), eps[t:t + 1])
    count, low = 0, float(n)
    for t in range(T):
        W = W * m.likelihood(outs[t:t + 1], X, eps[t:t + 1])[0, :, 0]
        if W.sum() < 1e-6:
            raise Reject()
        W = W / W.sum()
        X = np.mod(X + 0.05, 1.0)
        ess = 1 / np.sum(W ** 2)
        low = min(low, ess)
        if (t + 1) % interval == 0:
            if abs(ess - n * thresh) < 1e-6:
                raise Reject()
            if ess < n * thresh:
                req(len(rec.seen) > count, 'a resampling took place', datum=t, ess=ess, threshold=n * thresh)
                close(rec.seen[count][0], W, 'weights that were resampled', rtol=1e-6, atol=1e-12, datum=t)
                W, X = rec.outs[count]
                count += 1
    req(len(rec.seen) == count == up.resample_count, 'resampled exactly when below the threshold', got=len(rec.seen),
        expected=count, interval=interval, n=n, data=T)
    close(up.particle_weights, W, 'weights', rtol=1e-6, atol=1e-12)
    close(up.particle_locations, X, 'locations', rtol=1e-9, atol=1e-9)
    close(up.min_n_ess, low, 'smallest effective sample size', rtol=1e-6)
    req(len(up.data_record) == T, 'data recorded')
    case.hit(when=T > 70 or n > 2000)


@sub('B03', 40, rule='a resampling took place')
def two_updaters(d, case):
    """Two updaters with settings of their own, used in turns, keep books and resample as each does alone."""
    n_mp = d.int(1, 2)
    fam = zoo.Table(d, n_mp=n_mp)
    rows = [d.rng().uniform(0, 1, size=(d.int(12, 30), n_mp)) for _ in range(2)]
    opts = [dict(resample_thresh=d.pick([0.3, 0.6, 0.9]), zero_weight_policy=d.pick(['skip', 'ignore', 'reset']),
                 track_resampling_divergence=d.bool(), resample_a=d.pick([None, 0.5, 0.98])) for _ in range(2)]

    def make(i):
        np.random.seed(i)
        return qi.SMCUpdater(fam.model, len(rows[i]), zoo.FixedPrior(rows[i]), **opts[i])
    steps = []
    for _ in range(d.int(2, 8)):
        i = d.int(0, 1)
        e = fam.eps(d, 1)
        steps.append((i, d.pick(list(fam.outcomes(e[0]))), e, d.seed(), d.chance(1, 5)))

    def run(which, ups):
        for i, o, e, s, force in steps:
            if i in which:
                np.random.seed(s)
                with caught():
                    ups[i].update(o, e)
                    if force:
                        ups[i].resample()
    with caught():
        both = [make(0), make(1)]
        run((0, 1), both)
        for i in (0, 1):
            alone = make(i)
            run((i,), {i: alone})
            a, b = both[i], alone
            req(np.array_equal(a.particle_weights, b.particle_weights) and np.array_equal(a.particle_locations, b.particle_locations),
                'particles of an updater used along with another', updater=i, options=opts)
            req(a.resample_count == b.resample_count and list(a.data_record) == list(b.data_record) and a.min_n_ess == b.min_n_ess,
                'books of an updater used along with another', got=[a.resample_count, a.data_record], expected=[b.resample_count, b.data_record])
            close(a.normalization_record, b.normalization_record, 'evidence record')
            close(a.resampling_divergences if opts[i]['track_resampling_divergence'] else [],
                  b.resampling_divergences if opts[i]['track_resampling_divergence'] else [], 'divergence record')
            if a.resample_count:
                case.hit(when=True)
