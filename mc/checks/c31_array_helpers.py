import itertools
from fractions import Fraction as F

import numpy as np
import scipy.sparse as sp

from mc.engine import Families, product, require
from mc.lib import freeze, fv, require_close, require_refused

PROPERTY = 'C31'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'zero-safe division of every pair of arrays of up to 2 elements out of 7 (zero, infinity, not-a-number, quotients past the largest number) in 4 layouts '
             'and 3 fill values; range scaling of every non-constant array of up to 5 elements, at 4 magnitudes and offsets, onto 5 ranges; broadcasting for all shapes up to '
             '4x4; sparse assembly of every list of up to 3 entries of a 2x3 matrix; reshaping every shape of up to 12 elements to every other, '
             'in 5 memory layouts; every triple of arguments in 12 kinds and memory layouts made read-only, and views; sparse shapes without rows or columns',
    'thorough': '3 elements out of 11; arrays of up to 7; shapes up to 6x6; 4 entries; shapes of up to 24 elements; quadruples',
}
RULE = 'exhaustive small arrays against exact arithmetic; a state is one configuration'
ASSUMPTIONS = ['zero-safe division of arrays (not of two scalars)', 'range scaling of an array with at least two different values']
FAMILIES = Families()

NAN, INF = float('nan'), float('inf')
NUMBERS = [0.0, 1.0, -2.0, 1e200, INF, NAN, -1e-200, 0.5, -0.0, 3.0, -INF]
NAMES = ['0', '1', '-2', '1e200', 'inf', 'nan', '-1e-200', '0.5', '-0', '3', '-inf']


def quotient(a, b, fill):
    bad = b == 0 or a != a or b != b or abs(a) == INF or abs(a / b) == INF
    return fill if bad else a / b


@FAMILIES.family(lambda tier: (
    (list(a), list(b)) for n in range(0, 3 if tier == 'quick' else 4)
    for a in itertools.product(range(7 if tier == 'quick' else 11), repeat=n) for b in itertools.product(range(7 if tier == 'quick' else 11), repeat=n)))
def safe_division(ctx, ia, ib):
    from blmath.numerics import zero_safe_divide
    a, b = [NUMBERS[i] for i in ia], [NUMBERS[i] for i in ib]
    for fill in (None, 0.0, -1.5, 7):
        kw = {} if fill is None else {'default_error_value': fill}
        want = [quotient(x, y, fill or 0.0) for x, y in zip(a, b)]
        layouts = [(np.array(a, dtype=float), np.array(b, dtype=float), want)]
        if a:
            layouts.append((np.array([a], dtype=float), np.array([b], dtype=float), [want]))
            layouts.append((np.array([a, a], dtype=float).T, np.array(b, dtype=float).reshape(-1, 1), [[w, w] for w in want]))
            layouts.append((np.array(a, dtype=float), b[0], [quotient(x, b[0], fill or 0.0) for x in a]))
            layouts.append((a[0], np.array(b, dtype=float), [quotient(a[0], y, fill or 0.0) for y in b]))
            if all(x == x and abs(x) < 1e9 and float(x).is_integer() for x in a + b):
                layouts.append((np.array(a, dtype=int), np.array(b, dtype=int), want))
        for x, y, w in layouts:
            before = freeze([x, y])
            got = zero_safe_divide(x, y, **kw)
            require_close(got, np.array(w, dtype=float), '%s / %s filled with %s', [NAMES[i] for i in ia], [NAMES[i] for i in ib], fill)
            require(freeze([x, y]) == before, 'an argument was changed')
            ctx.step()
    ctx.outcome('filled', any(y == 0 for y in b))
    ctx.state('divide', tuple(ia), tuple(ib))


@FAMILIES.family(lambda tier: ((list(a),) for n in range(2, 6 if tier == 'quick' else 8) for a in itertools.product((-3, 0, 0.5, 10), repeat=n)
                               if len(set(a)) > 1))
def scaling(ctx, values):
    from blmath.numerics import scale_to_range
    plain = values
    for (lo, hi), (by, off) in itertools.product(((0, 1), (-1, 1), (5, 2), (3, 3), (0.25, 1000)), ((1, 0), (2.0 ** -40, 0), (2.0 ** 40, 0), (2, -2.0 ** 30))):
        values = [v * by + off for v in plain]
        lowest, highest = min(values), max(values)
        want = [(F(hi) - F(lo)) * (F(v) - F(lowest)) / (F(highest) - F(lowest)) + F(lo) for v in values]
        x = np.array(values, dtype=float)
        before = freeze(x)
        require_close(scale_to_range(x, lo, hi), want, '%s onto %s to %s', values, lo, hi)
        require(freeze(x) == before, 'the array was changed')
        if len(values) % 2 == 0:
            require_close(scale_to_range(x.reshape(2, -1), lo, hi), np.array([float(w) for w in want]).reshape(2, -1), '%s in two rows', values)
        if all(float(v).is_integer() for v in values):
            require_close(scale_to_range(np.array(values, dtype=int), lo, hi), want, 'integers %s onto %s to %s', values, lo, hi)
        ctx.step()
    ctx.state('scale', tuple(plain))


@FAMILIES.family(lambda tier: product(*[range(1, 5 if tier == 'quick' else 7)] * 4))
def broadcasting(ctx, m, n, p, q):
    from blmath.numerics.matlab import bsxfun
    a = np.arange(1.0, m * n + 1).reshape(m, n)
    b = 100.0 * np.arange(1, p * q + 1).reshape(p, q)
    both = [a.copy(), b.copy()]
    for oper in (np.add, np.subtract, np.multiply, lambda x, y: x / y):
        what = 'shapes %s %s' % ((m, n), (p, q))
        fits = (m == p or m == 1 or p == 1) and (n == q or n == 1 or q == 1)
        ctx.step()
        if not fits:
            require_refused(what, lambda: bsxfun(oper, a, b))
            ctx.outcome('refused')
        elif m == p or n == q or (min(m, n) == 1 and min(p, q) == 1):
            got = bsxfun(oper, a, b)
            ref = [[oper(a[i % m if m > 1 else 0, j if n > 1 else 0], b[i if p > 1 else 0, j if q > 1 else 0]) for j in range(max(n, q))]
                   for i in range(max(m, p))]
            require_close(got, np.array(ref), '%s', what)
            ctx.outcome('expanded')
    require(np.array_equal(a, both[0]) and np.array_equal(b, both[1]), 'an argument was changed')
    ctx.state('bsxfun', m, n, p, q)


def shapes_of(size):
    out = []
    for n in (1, 2, 3):
        for s in itertools.product(range(1, size + 1), repeat=n):
            if int(np.prod(s)) == size:
                out.append(s)
    return out


@FAMILIES.family(lambda tier: ((list(s), list(t)) for size in ((1, 2, 4, 6, 8, 12) if tier == 'quick' else (1, 2, 3, 4, 6, 8, 9, 12, 16, 24))
                               for s in shapes_of(size) for t in shapes_of(size) + [(-1,), (1, -1), (-1, 1), (-1, 1, 1)]))
def reshaping(ctx, s, t):
    from blmath.numerics import np_reshape_safe
    from blmath.numerics.matlab import col, row
    s, t = tuple(s), tuple(t)
    size = int(np.prod(s))
    base = np.arange(float(size)).reshape(s)
    wide = np.zeros(s[:-1] + (2 * s[-1],))
    wide[..., ::2] = base
    layouts = [base, np.asfortranarray(base), wide[..., ::2], base[::-1], base.T]
    for a in layouts:
        copy = a.copy()
        ref = copy.reshape(t)
        try:
            got = np_reshape_safe(a, t)
        except AttributeError:
            got = None
        # an independent answer: may this memory be seen in the new shape without a copy?
        viewable = np.shares_memory(a.reshape(t), a)
        require((got is not None) == viewable, '%s to %s: %s', s, t, 'refused' if got is None else 'a copy was returned')
        if got is not None:
            require(got.shape == ref.shape and np.array_equal(got, ref), '%s to %s: %s', s, t, got)
            keep = a.copy()
            got[...] = -1
            require(np.all(a == -1), '%s to %s: the result is not a view', s, t)
            a[...] = keep
        soft = np_reshape_safe(a, t, just_warn=True)
        require(soft.shape == ref.shape and np.array_equal(soft, ref), '%s to %s, just warned: %s', s, t, soft)
        require(a.shape == copy.shape and np.array_equal(a, copy), 'the array was changed')
        flat = copy.ravel()
        require(row(a).shape == (1, size) and np.array_equal(row(a)[0], flat), 'row')
        require(col(a).shape == (size, 1) and np.array_equal(col(a)[:, 0], flat), 'col')
        ctx.step(4)
        ctx.outcome('reshape', viewable)
    ctx.state('reshape', s, t)


@FAMILIES.family(lambda tier: ((list(e),) for k in range(0, 4 if tier == 'quick' else 5) for e in itertools.product(range(6), repeat=k)))
def assembly(ctx, cells):
    from blmath.numerics.matlab import sparse
    i, j = np.array([c // 3 for c in cells], dtype=int), np.array([c % 3 for c in cells], dtype=int)
    data = np.array([float(2 ** k) for k in range(len(cells))])
    dense = np.zeros((2, 3))
    for r, c, d in zip(i, j, data):
        dense[r, c] += d
    before = freeze([i, j, data])
    for m, n in ((2, 3), (4, 5), (2, 900)) if cells else ((2, 3), (4, 5), (0, 3), (2, 0), (0, 0), (1, 1)):
        got = sparse(i, j, data, m, n)
        want = np.zeros((m, n))
        if cells:
            want[:2, :3] = dense
        require(sp.issparse(got) and got.shape == (m, n) and np.array_equal(got.toarray(), want), 'cells %s: %s', cells, got)
        require(np.array_equal(sparse(i.reshape(1, -1), j.reshape(-1, 1), data, m=m, n=n).toarray(), want), 'cells %s given as rows and columns', cells)
        ctx.step(2)
    if cells:
        got = sparse(i, j, data)
        require(got.shape == (i.max() + 1, j.max() + 1) and np.array_equal(got.toarray(), dense[:i.max() + 1, :j.max() + 1]), 'cells %s, no shape', cells)
        ctx.step()
    require(freeze([i, j, data]) == before, 'an argument was changed')
    ctx.state('sparse', tuple(cells))


LAYOUTS = [
    lambda: None,
    lambda: 'text',
    lambda: np.zeros(2),
    lambda: np.zeros((2, 2)),
    lambda: np.zeros((3, 2), order='F'),
    lambda: np.zeros(6)[::2],
    lambda: np.zeros((4, 6))[1:3, ::-1],
    lambda: np.zeros((2, 3, 4)).transpose(2, 0, 1),
    lambda: np.zeros(3, dtype=int),
    lambda: np.zeros((2, 3), dtype=np.float32).T,
    lambda: np.array(0.0),
    lambda: np.zeros(2000),
    lambda: np.zeros((2, 3))[...],
    lambda: np.zeros(6).reshape(2, 3),
    lambda: np.zeros((0, 3)),
]


@FAMILIES.family(lambda tier: product(*[range(len(LAYOUTS))] * (3 if tier == 'quick' else 4)))
def read_only(ctx, *kinds):
    """Every array of the list, whatever its layout and place, refuses to be written; no other array does."""
    from blmath.numerics import np_make_readonly
    for container in (list, tuple):
        items = [LAYOUTS[k]() for k in kinds]
        bases = [x.base for x in items if isinstance(x, np.ndarray)]
        untouched = [LAYOUTS[k]() for k in kinds]
        given = container(items)
        np_make_readonly(given)
        require(len(given) == len(items) and all(x is y for x, y in zip(given, items)), 'the list was changed')
        for k, a in zip(kinds, items):
            if isinstance(a, np.ndarray):
                def write(a=a):
                    a[...] = 5
                require_refused('writing array %s of %s' % (k, kinds), write, ValueError)
                require(not np.any(a == 5), 'the array was written')
        require(all(b is None or b.flags.writeable for b in bases), 'an array of which one of the list is a view became read-only')
        require(all(not x.flags.writeable for x in items if isinstance(x, np.ndarray)), 'an array can be written')
        for a in untouched:
            if isinstance(a, np.ndarray):
                a[...] = 1
        ctx.step()
    ctx.state('readonly', kinds)
