"""U01: outcome domains describe their sets."""
import itertools
import math

import numpy as np

from core import sub, req, close, same_shape
import qinfer as qi
import zoo

ASSUMPTIONS = ['points are arrays of the documented data types']


def key(row):
    """A hashable form of one point of any domain."""
    if isinstance(row, (np.void, tuple)):
        return tuple(key(v) for v in row)
    if isinstance(row, np.ndarray):
        return tuple(key(v) for v in row)
    return float(row)


def basics(dom, fin, members, cont):
    req(dom.is_finite == fin and dom.is_continuous == cont and dom.is_discrete == (not cont), 'finite, continuous, discrete',
        got=(dom.is_finite, dom.is_continuous, dom.is_discrete), expected=(fin, cont, not cont))
    req(dom.n_members == members, 'number of members', got=dom.n_members, expected=members)
    ex = dom.example_point
    same_shape(ex, (1,), 'example point')
    req(ex.dtype == dom.dtype, 'type of the example point', got=ex.dtype, expected=dom.dtype)
    req(bool(dom.in_domain(ex)), 'the example point belongs to the domain', example=ex)
    v = dom.values
    req(v.ndim == 1 and v.dtype == np.dtype(dom.dtype), 'values', got=v)
    req(bool(dom.in_domain(v)), 'the values belong to the domain', values=v)
    if fin:
        req(len(v) == members and len(set(key(r) for r in v)) == members, 'each member once', values=v, members=members)


@sub('U01', 120, rule='a bound is finite')
def real(d, case):
    """Real domains accept exactly the numbers between their bounds."""
    a = d.pick([-np.inf, d.fl(-5, 5)])
    b = d.pick([np.inf, (a if np.isfinite(a) else d.fl(-5, 5)) + d.pick([0, d.fl(0, 4)])])
    kw = {}
    if np.isfinite(a) or d.bool():
        kw['min'] = a
    if np.isfinite(b) or d.bool():
        kw['max'] = b
    dom = qi.RealDomain(**kw)
    req(dom.min == a and dom.max == b, 'bounds')
    basics(dom, False, np.inf, True)
    x = d.arr(d.int(1, 5), -9, 9)
    want = bool(np.all((x >= a) & (x <= b)))
    req(bool(dom.in_domain(x)) == want, 'membership', points=x, bounds=(a, b))
    inside = np.clip(x, a, b)
    req(bool(dom.in_domain(inside)), 'points between the bounds', points=inside, bounds=(a, b))
    bad = inside.copy()
    i = d.int(0, len(x) - 1)
    for v, ok in ((a, np.isfinite(a)), (b, np.isfinite(b))):
        if ok:
            bad[i] = v + (-1 if v == a else 1) * 1e-6
            req(not dom.in_domain(bad) or a == b and a <= bad[i] <= b, 'one point outside', points=bad, bounds=(a, b))
    bad[i] = np.nan
    req(not dom.in_domain(bad), 'not a number')
    req(not dom.in_domain(inside + 1j), 'complex points')
    case.hit(when=np.isfinite(a) or np.isfinite(b))


@sub('U01', 120, rule='a bound is finite')
def integer(d, case):
    """Integer domains list, count and accept exactly the integers between their bounds."""
    a = d.pick([-np.inf, d.int(-8, 8), 0])
    b = d.pick([np.inf, int(a if np.isfinite(a) else 0) + d.int(0, 9)])
    as_float = d.bool()
    cast = (lambda v: v if np.isinf(v) else float(v)) if as_float else (lambda v: v)
    kw = {}
    if a != 0 or d.bool():
        kw['min'] = cast(a)
    if np.isfinite(b) or d.bool():
        kw['max'] = cast(b)
    dom = qi.IntegerDomain(**kw)
    req(dom.min == a and dom.max == b, 'bounds')
    fin = np.isfinite(a) and np.isfinite(b)
    basics(dom, fin, int(b - a + 1) if fin else np.inf, False)
    if fin:
        req(np.array_equal(dom.values, np.arange(a, b + 1)), 'values in order', got=dom.values)
    x = d.ints(d.int(1, 5), -12, 20)
    x = x.astype(d.pick([int, float, np.int32]))
    req(bool(dom.in_domain(x)) == bool(np.all((x >= a) & (x <= b))), 'membership', points=x, bounds=(a, b))
    inside = np.clip(x, a, b)
    req(bool(dom.in_domain(inside)), 'points between the bounds', points=inside)
    bad = inside.astype(float)
    i = d.int(0, len(x) - 1)
    bad[i] += 0.5 if bad[i] + 0.5 < b else -0.5
    req(not dom.in_domain(bad), 'a fraction', points=bad)
    req(not dom.in_domain(inside + 0.5j), 'complex points')
    case.hit(when=np.isfinite(a) or np.isfinite(b))


@sub('U01', 120, rule='at least two elements and two counts')
def multinomial(d, case):
    """Multinomial domains list, count and accept exactly the tuples of the given total."""
    k, n = d.int(2, 5) if d.chance(5, 6) else 1, d.int(0, 6)
    dom = qi.MultinomialDomain(n, k) if k != 2 or d.bool() else qi.MultinomialDomain(n_meas=n)
    req(dom.n_meas == n and dom.n_elements == k, 'parameters')
    members = math.comb(n + k - 1, k - 1)
    basics(dom, True, members, False)
    v = dom.to_regular_array(dom.values)
    same_shape(v, (members, k), 'values as a plain array')
    want = {c for c in itertools.product(range(n + 1), repeat=k) if sum(c) == n}
    req({tuple(int(i) for i in r) for r in v} == want, 'members are the tuples of the given sum', got=v)
    # conversion round trips for any leading shape
    shape = tuple(d.int(1, 3) for _ in range(d.int(1, 3)))
    g = d.rng()
    idx = g.randint(members, size=shape)
    arr = v[idx]
    st = dom.from_regular_array(zoo.relayout(d, arr))
    same_shape(st, shape, 'structured array')
    other = zoo.relayout(d, st)
    req(np.array_equal(dom.to_regular_array(other), arr) and bool(dom.in_domain(other)),
        'conversion and membership do not depend on the memory layout', got=dom.to_regular_array(other), expected=arr)
    turned = st.transpose()
    req(np.array_equal(dom.to_regular_array(turned), arr.transpose(tuple(range(arr.ndim - 2, -1, -1)) + (arr.ndim - 1,))) and bool(dom.in_domain(turned)),
        'a transposed array of tuples', got=dom.to_regular_array(turned))
    req(st.dtype == dom.dtype, 'type of the structured array')
    req(np.array_equal(dom.to_regular_array(st), arr), 'structured and plain arrays are inverse', got=dom.to_regular_array(st), expected=arr)
    req(np.array_equal(st['k'].reshape(arr.shape), arr), 'field k holds the tuple')
    req(bool(dom.in_domain(st)), 'members are in the domain')
    bad = arr.copy().reshape(-1, k)
    r, c = d.int(0, len(bad) - 1), d.int(0, k - 1)
    bad[r, c] += d.pick([1, -1])
    req(not dom.in_domain(dom.from_regular_array(bad.reshape(arr.shape))), 'wrong sum', points=bad)
    if len(bad) > 1:
        # errors of opposite sign in two points do not make up for each other
        bad = arr.copy().reshape(-1, k)
        o = (r + d.int(1, len(bad) - 1)) % len(bad)
        bad[r, c] += 1
        bad[o, int(np.argmax(bad[o]))] -= 1
        req(not dom.in_domain(dom.from_regular_array(bad.reshape(arr.shape))), 'wrong sums which cancel', points=bad)
    if k > 1:
        bad = arr.copy().reshape(-1, k)
        o = (c + 1) % k
        bad[r, o] += bad[r, c] + 1
        bad[r, c] = -1
        req(not dom.in_domain(dom.from_regular_array(bad.reshape(arr.shape))), 'negative count with the right sum', points=bad)
    case.hit(when=k > 1 and n > 1)


@sub('U01', 40, rule='more than a thousand members')
def multinomial_sizes(d, case):
    """The number of members is exact for larger sizes, too."""
    k, n = d.int(2, 12), d.int(0, 40)
    want = math.comb(n + k - 1, k - 1)
    if want < 2 ** 50:
        dom = qi.MultinomialDomain(n_meas=n, n_elements=k)
        req(dom.n_members == want, 'number of members', got=dom.n_members, expected=want)
        req(bool(dom.in_domain(dom.example_point)), 'example point')
        case.hit(when=want > 1000)


def some_domain(d, depth=1, finite=None):
    """(domain, list of members or None, list of sample points, a bad point or None)"""
    kind = d.int(0, 3 if depth else 2)
    if finite and kind == 0:
        kind = 1
    if kind == 0:
        a = d.fl(-3, 3)
        dom = qi.RealDomain(min=a, max=a + 1)
        return dom, None, np.array([a, a + 0.25, a + 1]), np.array([a - 1.])
    if kind == 1:
        a, n = d.int(-3, 3), d.int(1, 3)
        dom = qi.IntegerDomain(min=a, max=a + n - 1)
        return dom, np.arange(a, a + n), np.arange(a, a + n), np.array([a - 1])
    if kind == 2:
        dom = qi.MultinomialDomain(n_meas=d.int(0, 2), n_elements=d.int(2, 3))
        v = dom.values
        bad = v[:1].copy()
        bad['k'] = 7
        return dom, v, v, bad
    parts, dom = product_of(d, depth - 1, finite)
    pts = [np.array(p[2]) for p in parts]
    idx = d.rng()
    n = 3
    cols = [p[idx.randint(len(p), size=n)] for p in pts]
    sample = dom.from_regular_arrays(cols)
    badcols = [c[:1] for c in cols]
    badcols[0] = np.array(parts[0][3])
    return dom, None if not dom.is_finite else dom.values, sample, dom.from_regular_arrays(badcols)


def product_of(d, depth, finite=None):
    parts = [some_domain(d, depth, finite) for _ in range(d.int(1, 3))]
    doms = [p[0] for p in parts]
    form = d.int(0, 2)
    dom = qi.ProductDomain(*doms) if form == 0 else qi.ProductDomain(doms) if form == 1 else qi.ProductDomain(iter(doms))
    return parts, dom


def same(a, b):
    return [key(r) for r in a] == [key(r) for r in b]


@sub('U01', 200, rule='at least two factors')
def products(d, case):
    """A product domain is the Cartesian product: members, conversions and membership."""
    parts, dom = product_of(d, 1)
    doms = [p[0] for p in parts]
    fin = all(x.is_finite for x in doms)
    members = int(np.prod([x.n_members for x in doms])) if fin else np.inf
    basics(dom, fin, members, any(x.is_continuous for x in doms))
    if fin:
        cols = dom.to_regular_arrays(dom.values)
        req(len(cols) == len(doms), 'one array per factor')
        for c, x in zip(cols, doms):
            req(c.dtype == np.dtype(x.dtype), 'type of a factor', got=c.dtype, expected=x.dtype)
        got = set(zip(*[[key(r) for r in c] for c in cols]))
        want = set(itertools.product(*[[key(r) for r in x.values] for x in doms]))
        req(got == want, 'members are the tuples of members', got=got, expected=want)
    n = d.int(1, 4)
    g = d.rng()
    cols = [np.array(p[2])[g.randint(len(p[2]), size=n)] for p in parts]
    st = dom.from_regular_arrays(cols)
    same_shape(st, (n,), 'merged array')
    req(st.dtype == dom.dtype, 'type of the merged array')
    req(bool(dom.in_domain(st)), 'tuples of members are members', tuples=st)
    back = dom.to_regular_arrays(st)
    for a, b in zip(back, cols):
        req(same(a, b), 'splitting inverts merging', got=a, expected=b)
    odd = zoo.relayout(d, st)
    req(bool(dom.in_domain(odd)), 'membership does not depend on the memory layout', tuples=odd)
    for a, b in zip(dom.to_regular_arrays(odd), cols):
        req(same(a, b), 'splitting does not depend on the memory layout', got=a, expected=b)
    req(same(dom.from_regular_arrays([zoo.relayout(d, c) for c in cols]), st), 'merging does not depend on the memory layout')
    one = dom.from_regular_arrays([c[-1:] for c in cols])
    req(same(one, st[-1:]), 'merging acts row by row')
    j, i = d.int(0, len(doms) - 1), d.int(0, n - 1)
    cols[j] = np.array(cols[j])
    cols[j][i] = parts[j][3][0]
    req(not dom.in_domain(dom.from_regular_arrays(cols)), 'one factor outside', factor=j, row=i, arrays=cols)
    case.hit(when=len(doms) > 1)


@sub('U01', 100, rule='at least two arrays')
def struct_arrays(d, case):
    """Joining and separating structured arrays are inverse, field by field."""
    u = qi.utils
    n = d.int(1, 5)
    kinds = [d.pick([np.dtype(float), np.dtype(int), np.dtype(complex), np.dtype(np.int32), np.dtype(bool),
                     np.dtype([('a%d' % i, float), ('b%d' % i, int, 2)])]) for i in range(d.int(1, 4))]
    g = d.rng()
    arrs = []
    for t in kinds:
        a = np.zeros(n, dtype=t)
        if t.names:
            a[t.names[0]] = g.randn(n)
            a[t.names[1]] = g.randint(-9, 9, size=(n, 2))
        else:
            a[:] = g.randint(0, 2 if t.kind == 'b' else 99, size=n)
        arrs.append(a)
    j = u.join_struct_arrays(arrs)
    req(len(j) == n and j.dtype.itemsize == sum(t.itemsize for t in kinds), 'joined array')
    back = u.separate_struct_array(j, kinds)
    req(len(back) == len(arrs), 'number of arrays')
    for a, b in zip(back, arrs):
        req(a.dtype == b.dtype and np.array_equal(a, b), 'separation inverts joining', got=a, expected=b)
    same_j = u.join_struct_arrays([zoo.relayout(d, a) for a in arrs])
    req(same_j.dtype == j.dtype and same_j.tobytes() == j.tobytes(), 'joining does not depend on the memory layout')
    for a, b in zip(u.separate_struct_array(zoo.relayout(d, j), kinds), arrs):
        req(a.dtype == b.dtype and np.array_equal(a, b), 'separation does not depend on the memory layout', got=a, expected=b)
    flat = u.join_struct_arrays([a for a in (g.randn(n), g.randn(n), g.randn(n))])
    cols = u.separate_struct_array(flat, float)
    req(len(cols) == 3, 'the number of fields is inferred from a single data type', got=len(cols))
    close(np.array(cols), np.array([flat[f] for f in flat.dtype.names]), 'fields in order')
    # one data type that is not that of the fields
    wide = np.zeros(n, dtype=[('a', float), ('b', float, (2,)), ('c', float)])
    wide['a'], wide['b'], wide['c'] = g.randn(n), g.randn(n, 2), g.randn(n)
    cols = u.separate_struct_array(wide, float)
    req(len(cols) == 4, 'the number of arrays is the number of items that fit', got=len(cols))
    close(np.array(cols), np.array([wide['a'], wide['b'][:, 0], wide['b'][:, 1], wide['c']]), 'items in order')
    case.hit(when=len(kinds) > 1)


@sub('U01', 60, rule='always')
def several_domains(d, case):
    """Domains made later leave the answers of earlier ones alone."""
    def make():
        return d.pick([lambda: qi.IntegerDomain(min=d.int(-3, 2), max=d.int(3, 6)),
                       lambda: qi.MultinomialDomain(n_meas=d.int(0, 4), n_elements=d.int(1, 4)),
                       lambda: qi.ProductDomain(qi.IntegerDomain(min=d.int(-1, 0), max=d.int(1, 3)),
                                                qi.IntegerDomain(min=0, max=d.int(0, 3)))])()

    def ask(x):
        return [x.n_members, str(x.dtype), repr(x.values), repr(x.example_point),
                bool(x.in_domain(x.values))]
    doms = [make() for _ in range(4)]
    first = [ask(x) for x in doms]
    for x, f in reversed(list(zip(doms, first))):
        make()
        req(ask(x) == f, 'answers of a domain after others were made', got=ask(x), expected=f)
    req([f[4] for f in first] == [True] * 4, 'values lie in their domain')
    case.hit(when=True)
