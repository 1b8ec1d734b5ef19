"""F01: numbers shown to the user are the numbers that were computed."""
import math
import re

import numpy as np

from core import sub, req, close, Reject
import qinfer as qi
from qinfer.perf_testing import timing
import zoo
from qinfer import utils as u

ASSUMPTIONS = ['a displayed number is compared with the exact one up to half a unit of its last displayed digit']

NUM = r'(-?\d+(?:\.\d+)?)'


def parse(s):
    """(value, uncertainty, half a unit of the last digit)"""
    m = re.fullmatch(NUM + r' \\pm ' + NUM, s)
    e = 0
    if not m:
        m = re.fullmatch(r'\(' + NUM + r' \\pm ' + NUM + r'\) \\times 10\^\{(-?\d+)\}', s)
        req(m is not None, 'text is neither "v \\pm u" nor "(v \\pm u) \\times 10^{e}"', text=s)
        e = int(m.group(3))
    v, un = m.group(1), m.group(2)
    digs = [len(t.split('.')[1]) if '.' in t else 0 for t in (v, un)]
    req(digs[0] == digs[1], 'value and uncertainty are shown with equal precision', text=s)
    return float(v) * 10. ** e, float(un) * 10. ** e, 0.5 * 10. ** (e - digs[0])


def check_text(s, value, unc):
    v, un, half = parse(s)
    tol = half * (1 + 1e-6) + 1e-12 * abs(value)
    req(abs(v - value) <= tol, 'displayed value', text=s, value=value, uncertainty=unc)
    req(abs(un - unc) <= half * (1 + 1e-6) + 1e-12 * unc, 'displayed uncertainty', text=s, value=value, uncertainty=unc)
    req(un > 0, 'a positive uncertainty is not displayed as zero', text=s, value=value, uncertainty=unc)
    req(half <= max(unc, 0) * 0.5 * (1 + 1e-6), 'the uncertainty keeps a significant digit', text=s, value=value, uncertainty=unc)


@sub('F01', 250, rule='value and uncertainty of different magnitude')
def value_with_uncertainty(d, case):
    """A displayed value and its uncertainty read back as the numbers, up to the last displayed digit."""
    kind = d.int(0, 3)
    value = 0.0 if kind == 0 else d.logfl(1e-9, 1e9) * d.pick([1, -1])
    unc = d.logfl(1e-9, 1e9) if kind < 2 else max(abs(value), 1e-9) * d.logfl(1e-5, 3)
    if d.chance(1, 4):      # exact powers of ten and other round numbers
        value, unc = float('%.0e' % value), float('%.0e' % unc)
    kw = {} if d.chance(2, 3) else dict(scinotn_break=d.int(0, 8))
    s = u.format_uncertainty(value, unc, **kw)
    check_text(s, value, unc)
    big = max(abs(math.log10(abs(value))) if value else 0, abs(math.log10(unc)))
    if big < 1 and not kw:
        req('times' not in s, 'numbers of moderate size are shown plainly', text=s)
    case.hit(when=value != 0 and abs(math.log10(abs(value) / unc)) > 1)


@sub('F01', 60, rule='always')
def exact_values(d, case):
    """Values without uncertainty are shown as plain numbers that read back as the value."""
    value = d.fl(-1000, 1000) if d.bool() else float(d.int(-50, 50))
    s = u.format_uncertainty(value, 0)
    req(re.fullmatch(NUM, s), 'a plain number', text=s)
    close(float(s), value, 'value without uncertainty', rtol=0, atol=0.6e-6)
    case.hit()


def seconds(text):
    """Seconds and resolution of a displayed duration."""
    days = 0
    m = re.match(r'(\d+) days, ', text)
    if m:
        days, text = int(m.group(1)), text[m.end():]
    m = re.fullmatch(r'(\d+\.\d\d) seconds', text)
    if m:
        return days * 86400 + float(m.group(1)), 0.0051, [None, None]
    parts = text.split(':')
    req(2 <= len(parts) <= 3 and all(re.fullmatch(r'\d+', t) for t in parts), 'unreadable duration', text=text)
    req(len(parts[-1]) == 2 and (len(parts) == 2 or len(parts[1]) == 2), 'minutes and seconds have two digits', text=text)
    v = [int(t) for t in parts]
    req(v[-1] < 60, 'seconds below sixty', text=text)
    h, mi, s = ([0] + v) if len(v) == 2 else v
    return days * 86400 + h * 3600 + mi * 60 + s, 1.0, [h, mi]


@sub('F01', 150, rule='an hour or more')
def durations(d, case):
    """Displayed durations read back as the duration, up to their last unit."""
    kind = d.int(0, 3)
    t = [d.fl(0, 60), d.fl(60, 3600), d.fl(3600, 86400), d.fl(86400, 2e6)][kind]
    if d.chance(1, 3):
        t = float(int(t))
    if d.chance(1, 5):
        t = d.pick([60., 3600., 86400.]) * d.int(1, 30) + d.pick([0, 1, 59])
    s = u.pretty_time(t)
    got, res, hm = seconds(s)
    req(0 <= t - got < 1 + 1e-9 if res == 1.0 else abs(t - got) < res, 'displayed duration', seconds=t, text=s, read=got)
    if d.chance(1, 20):
        with timing() as tm:
            pass
        req(u.pretty_time(tm.delta_t) in str(tm) and u.pretty_time(tm.delta_t) in repr(tm), 'a timer shows its duration', text=str(tm))
    case.hit(when=t >= 3600)


@sub('F01', 60, rule='at least two parameters')
def updater_table(d, case):
    """The HTML table of an updater names the model and shows its estimates with standard deviations."""
    fam = d.pick([zoo.T2, zoo.RB, zoo.Coin, zoo.Table, zoo.Precession, zoo.Walk, zoo.Binom])(d)
    n = d.int(4, 12)
    up = qi.SMCUpdater(fam.model, n, zoo.FixedPrior(fam.mps(d, n)), resample_thresh=0.0)
    if d.bool():
        w = d.weights(n)
        up.particle_weights = w
    var = np.diag(up.est_covariance_mtx())
    if np.any(var < 1e-10 * (1 + up.est_mean() ** 2)) and np.any(var != 0):
        raise Reject()       # rounding decides the variance
    std = np.sqrt(var)
    html = up._repr_html_()
    req(type(fam.model).__name__ in html and 'SMCUpdater' in html, 'names', html=html)
    for m in fam.model.model_chain:
        req(type(m).__name__ in html, 'names of the underlying models', html=html)
    names = fam.model.modelparam_names
    cells = re.findall(r'<td>\$(.*?)\$</td>', html, re.S)
    k = fam.model.n_modelparams
    req(len(cells) == 2 * k, 'one name and one value per parameter', cells=cells)
    req(cells[:k] == list(names), 'parameter names', got=cells[:k], expected=names)
    mu = up.est_mean()
    for i in range(k):
        if std[i] > 1e-12:
            check_text(cells[k + i], mu[i], std[i])
    req(re.search(r'Resample count:</em>\s*%d' % up.resample_count, html), 'resample count', html=html)
    case.hit(when=k > 1)
