"""Statistical oracles with a per-comparison false-alarm probability below about 1e-9."""
import math

import numpy as np
import scipy.stats as ss

from core import req
from p_m03 import chi2_ok


def freq(obs, p, msg, **info):
    obs = np.asarray(obs)
    ok, stat = chi2_ok(obs, np.asarray(p, float), int(obs.sum()))
    req(np.all(obs[np.asarray(p) <= 0] == 0), msg + ': an impossible value occurred', counts=obs, probabilities=p, **info)
    req(ok, msg, chi2=stat, counts=obs, probabilities=p, **info)


def ks(x, cdf, msg, **info):
    """Kolmogorov-Smirnov against a cumulative distribution; Massart bound 2 exp(-2 n D^2)."""
    x = np.sort(np.asarray(x, float).reshape(-1))
    n = len(x)
    F = np.asarray(cdf(x), float)
    i = np.arange(1, n + 1)
    # discrete laws are compared at their own atoms by the callers; here F is continuous
    D = max(np.max(i / n - F), np.max(F - (i - 1) / n))
    req(D * math.sqrt(n) < 3.5, msg, D=D, n=n, smallest=x[:3], largest=x[-3:], **info)
    if n >= 200:
        # Kolmogorov's law has P(sqrt(n) D < x) ~ sqrt(2 pi) / x exp(-pi^2 / 8 x^2), 5e-13 at 0.2
        req(D * math.sqrt(n) > 0.2, msg + ': samples are too even to be independent', D=D, n=n, **info)


def mean(x, mu, var, msg, z=7.5, **info):
    """Sample mean of iid rows with known mean and variance."""
    x = np.asarray(x, float)
    n = x.shape[0]
    s = (x.mean(axis=0) - mu) / np.sqrt(np.asarray(var) / n + 1e-300)
    req(np.abs(s) < z, msg, scores=s, mean=x.mean(axis=0), expected=mu, **info)


def uncorrelated(x, msg, z=7.5, **info):
    """Columns of iid rows are uncorrelated, and rows too (lag one); ranks, so no moments needed."""
    x = np.asarray(x, float)
    r = np.array([ss.rankdata(c) for c in x.T]).T
    sd = r.std(axis=0)
    keep = sd > 0
    r = (r[:, keep] - r[:, keep].mean(axis=0)) / sd[keep]
    n, k = r.shape
    for i in range(k):
        lag = float(np.mean(r[1:, i] * r[:-1, i])) * math.sqrt(n)
        req(abs(lag) < z, msg + ': successive samples are independent', lag=lag, **info)
        for j in range(i):
            c = float(np.mean(r[:, i] * r[:, j])) * math.sqrt(n)
            req(abs(c) < z, msg + ': components are independent', correlation=c, pair=(i, j), **info)


def jointly(counts, p, msg, **info):
    """counts[i, j]: how often the first of two samples of one call was of class i and the second of class j; classes of
    probabilities p. Samples of one call are independent, so the law is the product."""
    counts = np.asarray(counts)
    p = np.asarray(p, float)
    freq(counts.reshape(-1), np.outer(p, p).reshape(-1), msg + ': samples of one call are independent', **info)


def serial(x, msg, lags=None):
    """Rows of one call are independent: ranks of each column do not correlate with those of rows further on."""
    n = len(x)
    for j in range(x.shape[1]):
        v = ss.rankdata(x[:, j]) if hasattr(ss, 'rankdata') else x[:, j]
        if np.std(v) < 1e-9 * n:
            continue
        v = (v - v.mean()) / v.std()
        if np.abs(v).max() > 6:
            continue
        for lag in lags or (1, 2, n // 2):
            z = float(np.mean(v[lag:] * v[:n - lag])) * math.sqrt(n - lag)
            req(abs(z) < 7.5, msg + ': samples of one call are independent', column=j, lag=lag, z=z)


def two_at_a_time(sample, msg, calls=250, at=(0, 1), n=2, median=None, **info):
    """Each call gives n rows; rows `at` of every call lie on the same side of the median half of the time."""
    x = np.array([np.asarray(sample(n), float)[list(at), 0] for _ in range(calls)])
    m = np.median(x) if median is None else median
    same = int(np.sum((x[:, 0] > m) == (x[:, 1] > m)))
    # Hoeffding: 2 exp(-2 t^2 / calls) < 1e-9 for t = 3.3 sqrt(calls); an estimated median only moves by o(sqrt) of this
    req(abs(same - calls / 2) < 3.6 * math.sqrt(calls), msg + ': samples of one call are independent', same=same,
        calls=calls, **info)
