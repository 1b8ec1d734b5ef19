"""Small property-testing framework on top of Hypothesis.

A sub-check is a function f(d, case): `d` draws every random choice (Hypothesis in a
search, the recorded list in a replay), `case` records what kind of case it was.
An oracle failure raises Violation; so does the harness for an exception that the code
under test raises on an input it is required to handle.
"""
import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

import boot  # noqa: F401

SUBS = {}          # pid -> [Sub]


class Violation(AssertionError):
    pass


class Inconclusive(BaseException):
    pass


class Hang(BaseException):
    """A single case used up CASE_CPU_S seconds of processor time (cases normally take well below two)."""


CASE_CPU_S = 30


class Reject(Exception):
    """The generated case is outside of the property's domain."""


class StopShrink(BaseException):
    pass


class Sub(object):
    def __init__(self, pid, name, fn, quick, thorough, rule, known):
        self.pid, self.name, self.fn = pid, name, fn
        self.quick, self.thorough, self.rule, self.known = quick, thorough, rule, known


def sub(pid, quick, thorough=None, rule='', known=None):
    """Register a sub-check of property `pid` with its number of generated cases.
    `known`: this sub-check probes one listed known finding (key in known_findings.json)."""
    def deco(fn):
        SUBS.setdefault(pid, []).append(
            Sub(pid, fn.__name__, fn, quick, thorough or quick * 25, rule, known))
        return fn
    return deco


# ---------------------------------------------------------------- oracles

def _short(x):
    with np.printoptions(threshold=20, edgeitems=4, precision=10):
        s = repr(x)
    return s if len(s) < 600 else s[:600] + '...'


def req(cond, msg, **info):
    if isinstance(cond, (list, tuple, dict, set, str)):
        raise TypeError('a condition must be a truth value or an array of them')
    if not bool(np.all(cond)):
        raise Violation(msg + ''.join('\n    %s = %s' % (k, _short(v)) for k, v in info.items()))


def same_shape(got, shape, msg):
    req(np.shape(got) == tuple(shape), msg + ': wrong shape', got=np.shape(got), expected=tuple(shape))


def close(got, want, msg, rtol=1e-9, atol=1e-12, **info):
    got = np.asarray(got)
    want = np.asarray(want)
    req(got.shape == want.shape, msg + ': wrong shape', got=got.shape, expected=want.shape,
        got_value=got, expected_value=want, **info)
    if got.dtype.kind in 'biufc' and want.dtype.kind in 'biufc':
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=False)
        # infinities of equal sign are equal under isclose already
        req(ok, msg, got=got, expected=want, **info)
    else:
        req(np.array_equal(got, want), msg, got=got, expected=want, **info)


def raises(excs, fn, msg):
    try:
        r = fn()
    except excs as e:
        return e
    raise Violation(msg + ' (no exception; returned %s)' % _short(r))


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


@contextlib.contextmanager
def caught():
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        yield w


# ---------------------------------------------------------------- drawing

class Draw(object):
    GRID = 1 << 20

    def __init__(self, data=None, recorded=None):
        self.data = data
        self.rec = []
        self.recorded = list(recorded) if recorded is not None else None

    def __call__(self, strategy_fn):
        """strategy_fn(st) -> strategy; the values must have an eval()-able repr."""
        if self.recorded is not None:
            if not self.recorded:
                raise RuntimeError('replay: ran out of recorded values')
            v = self.recorded.pop(0)
        else:
            from hypothesis import strategies as st
            v = self.data.draw(strategy_fn(st))
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        if lo == hi:
            return lo
        return self(lambda st: st.integers(lo, hi))

    def bool(self):
        return self(lambda st: st.booleans())

    def chance(self, num, den):
        return self(lambda st: st.integers(1, den)) > den - num

    def pick(self, seq):
        seq = list(seq)
        return seq[self.int(0, len(seq) - 1)]

    def fl(self, lo, hi):
        """A float of a 2^20-step grid on [lo, hi], end points included (no subnormals)."""
        k = self(lambda st: st.integers(0, self.GRID))
        return lo + (hi - lo) * (k / self.GRID)

    def logfl(self, lo, hi):
        return float(np.exp(self.fl(np.log(lo), np.log(hi))))

    def floats(self, n, lo, hi):
        ks = self(lambda st: st.lists(st.integers(0, self.GRID), min_size=n, max_size=n))
        return lo + (hi - lo) * (np.array(ks, dtype=float).reshape(n) / self.GRID)

    def ints(self, n, lo, hi):
        return np.array(self(lambda st: st.lists(st.integers(lo, hi), min_size=n, max_size=n)),
                        dtype=int).reshape(n)

    def seed(self):
        return self(lambda st: st.integers(0, 2 ** 31 - 1))

    def rng(self):
        return np.random.RandomState(self.seed())

    def np_seed(self):
        np.random.seed(self.seed())

    def arr(self, shape, lo, hi):
        """Array of grid floats; each entry drawn while small, a drawn bulk seed otherwise."""
        shape = tuple(int(s) for s in np.atleast_1d(shape))
        n = int(np.prod(shape))
        if n <= 24 and self.chance(2, 3):
            return self.floats(n, lo, hi).reshape(shape)
        return self.rng().uniform(lo, hi, size=shape)

    def weights(self, n, zeros=True):
        """A normalised weight vector; sometimes with exact zeros, sometimes very peaked."""
        kind = self.int(0, 3)
        if kind == 0 or n == 1:
            w = np.ones(n)
        elif kind == 1 and n <= 24:
            w = np.array(self(lambda st: st.lists(st.integers(0 if zeros else 1, 1000),
                                                  min_size=n, max_size=n)), dtype=float)
        elif kind == 2:
            w = self.rng().gamma(0.3, size=n) + 1e-9
        else:
            w = self.rng().dirichlet(np.ones(n)) + (0 if zeros else 1e-9)
        if w.sum() <= 0:
            w = np.ones(n)
        return w / w.sum()


class Case(object):
    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def hit(self, *labels, when=True):
        """Mark the case as non-trivial (by the sub-check's rule)."""
        if when:
            self.nontrivial = True
            self.labels.extend(labels)

    def label(self, *labels):
        self.labels.extend(labels)


# ---------------------------------------------------------------- running one sub-check

def _reset_globals():
    np.random.seed(12345)
    np.seterr(all='ignore')
    import random
    random.seed(12345)


def _on_hang(*a):
    raise Hang()


def call_once(s, draw):
    """Run one case; returns the Case, raises Violation for any failure."""
    _reset_globals()
    case = Case()
    signal.signal(signal.SIGVTALRM, _on_hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        with quiet():
            s.fn(draw, case)
    except (Violation, Reject):
        raise
    except Hang:
        raise Violation('the case does not end within %d s of processor time\n%s' % (
            CASE_CPU_S, '\n'.join(traceback.format_exc().splitlines()[-24:])))
    except Exception as e:
        mod = type(e).__module__ or ''
        if mod.startswith('hypothesis'):
            raise
        tb = traceback.format_exc()
        raise Violation('unexpected exception %s: %s\n%s' % (
            type(e).__name__, e, '\n'.join(tb.splitlines()[-24:])))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        np.seterr(all='ignore')
    return case


def search(s, n, seed, shrink_s=40, hard_s=600):
    """Returns a dict with counts and, if a case failed, the smallest failing one."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity, strategies as st

    out = dict(sub=s.name, requested=n, seed=seed, evaluations=0, rejected=0,
               labels={}, samples=[], failure=None, error=None, slowest_s=0.)
    seen = set()
    state = dict(first=None, best=None)
    t0 = time.time()

    def body(data):
        if state['first'] is not None and time.time() - state['first'] > shrink_s:
            raise StopShrink()
        d = Draw(data=data)
        t = time.process_time()
        try:
            case = call_once(s, d)
            out['slowest_s'] = max(out['slowest_s'], time.process_time() - t)
        except Reject:
            out['rejected'] += 1
            return
        except Violation as e:
            if state['first'] is None:
                state['first'] = t0 if time.process_time() - t > CASE_CPU_S / 2 else time.time()
            key = (len(d.rec), sum(len(repr(v)) for v in d.rec))
            if state['best'] is None or key <= state['best'][0]:
                state['best'] = (key, list(d.rec), str(e))
            raise
        if state['first'] is None:
            out['evaluations'] += 1
            for l in set(case.labels):
                out['labels'][l] = out['labels'].get(l, 0) + 1
            if case.nontrivial:
                h = hashlib.sha1(repr(d.rec).encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(out['samples']) < 3 and len(seen) % 7 == 1:
                        out['samples'].append(dict(sub=s.name, labels=sorted(set(case.labels)),
                                                   drawn=_short(d.rec)[:300]))

    test = given(st.data())(body)
    test = settings(max_examples=n, deadline=None, database=None,
                    suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
                    phases=[Phase.generate] + ([] if os.environ.get('VERIF_NOSHRINK') else [Phase.shrink]), print_blob=False,
                    report_multiple_bugs=False)(test)
    test = hypothesis.seed(seed)(test)

    def on_alarm(*a):
        raise Inconclusive()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(hard_s)
    try:
        with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
            test()
    except StopShrink:
        pass
    except Violation:
        pass
    except Inconclusive:
        if state['best'] is None:
            out['error'] = 'time budget of %d s exhausted (inconclusive)' % hard_s
    except BaseException as e:
        if state['best'] is None:
            out['error'] = 'harness: ' + traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
    if state['best'] is not None:
        out['failure'] = dict(drawn=state['best'][1], message=state['best'][2])
        out['error'] = None
    out['distinct_nontrivial'] = len(seen)
    out['hashes'] = sorted(seen)
    out['wall_s'] = time.time() - t0
    return out


def find_sub(pid, name):
    for s in SUBS.get(pid, []):
        if s.name == name:
            return s
    raise KeyError((pid, name))
