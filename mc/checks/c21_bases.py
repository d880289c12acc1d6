import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc.engine import Families, require
from mc.lib import dot, fv, inverse, matmul, mul, norm2, rank, require_close, require_refused, sub, transpose

PROPERTY = 'C21'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every sequence of 1-3 independent vectors of {-1,0,1}^3, of 1-2 of {-2,-1,0,1,3}^2, selected ones in dimension 4-6, x every subset '
             'of indices to normalize; every pair of 2x2 frames over {-1,0,1,2}, every 3x3 frame over {-1,0,1} against 4 others, all wrong '
             'dimensions; '
             'likewise: frames in units of 2^-60 to 2^60, of unit, uneven and whole lengths; vectors which differ by 2^-4 to 2^-20 only; up to 24 vectors of up to 27 dimensions; vectors and frames as whole numbers of three sizes and in single precision',
    'thorough': 'vectors of {-1,0,2}^3 and {-2,..,3}^2 too; every pair of 2x2 frames over {-2,...,3}',
}
RULE = 'exhaustive small vector sequences and frames against exact rational elimination; a state is one sequence or pair of frames'
ASSUMPTIONS = ['vectors to orthogonalize are independent and held in an array, of whole numbers or of either precision']
FAMILIES = Families()


def sequences(tier):
    sets = [list(itertools.product((-1, 0, 1), repeat=3))]
    if tier == 'thorough':
        sets.append(list(itertools.product((-1, 0, 2), repeat=3)))
    for s in sets:
        for k in (1, 2, 3):
            for v in itertools.product(s, repeat=k):
                if rank([list(x) for x in v]) == k:
                    yield (v,)
    flat = list(itertools.product((-2, -1, 0, 1, 3) if tier == 'quick' else range(-2, 4), repeat=2))
    for k in (1, 2):
        for v in itertools.product(flat, repeat=k):
            if rank([list(x) for x in v]) == k:
                yield (v,)
    for n in (1, 4, 5, 6):
        for shift in range(7):
            rows = [[(3 if i == j else 0) + ((i * 5 + j * 3 + shift) % 4) - 1 for j in range(n)] for i in range(n)]
            for k in range(1, n + 1):
                if rank(rows[:k]) == k:
                    yield (rows[:k],)


KINDS = ('int64', 'int32', 'int16', 'float32')


@FAMILIES.family(sequences)
def gram_schmidt(ctx, rows):
    from blmath.numerics.linalg.gram_schmidt import orthogonalize, orthonormalize
    exact = []
    for r in rows:
        w = fv(r)
        for u in exact:
            w = sub(w, mul(u, dot(u, fv(r)) / norm2(u)))
        exact.append(w)
    v = np.array(rows, dtype=float)
    before = v.copy()
    o = orthogonalize(v)
    require_close(o, [[float(x) for x in r] for r in exact], 'orthogonalize %s', rows)
    require(not np.shares_memory(o, v), 'orthogonalize %s: the result shares memory with the argument', rows)
    unit = [[float(x) / math.sqrt(norm2(r)) for x in r] for r in exact]
    ctx.step(2)
    n = len(rows)
    for k in range(n + 1):
        for which in itertools.combinations(range(n), k):
            if n > 3 and 1 < k < n - 1:
                continue
            want = [unit[i] if i in which else [float(x) for x in exact[i]] for i in range(n)]
            require_close(orthonormalize(v, indices=list(which)), want, 'orthonormalize %s at %s', rows, which)
            ctx.step()
    all_of_them = orthonormalize(v)
    require_close(all_of_them, unit, 'orthonormalize %s', rows)
    require_close(all_of_them.dot(all_of_them.T), np.eye(n), 'orthonormalize %s: Gram matrix', rows)
    for kind in KINDS:
        other = np.array(rows, dtype=kind)
        kept = other.copy()
        tol = 1e-4 if kind == 'float32' else 1e-9
        require_close(orthogonalize(other), o, 'orthogonalize %s as %s', rows, kind, tol=tol)
        require_close(orthonormalize(other), unit, 'orthonormalize %s as %s', rows, kind, tol=tol)
        for i in range(n):
            want = [unit[m] if m == i else o[m] for m in range(n)]
            require_close(orthonormalize(other, indices=[i]), want, 'orthonormalize %s as %s at %d', rows, kind, i, tol=tol)
        require(other.dtype == kept.dtype and np.array_equal(other, kept), 'the vectors given were changed')
        ctx.step(2 + n)
    require(np.array_equal(v, before), 'the vectors given were changed')
    ctx.step()
    ctx.state(tuple(map(tuple, rows)))
    ctx.outcome(n, len(rows[0]))


@FAMILIES.family(lambda tier: ((bits, list(w), by) for bits in range(4, 22, 2 if tier == 'quick' else 1)
                               for w in itertools.product((-1, 0, 1), repeat=3) if any(w[1:]) for by in (1.0, 2.0 ** -30, 2.0 ** 30)))
def nearly_dependent(ctx, bits, w, by):
    """A vector close to those before it counts for the part in which it differs."""
    from blmath.numerics.linalg.gram_schmidt import orthogonalize, orthonormalize
    for first in ((1, 0, 0), (1, 2, 2)):
        rows = [list(first), [x + F(y, 2 ** bits) for x, y in zip(first, w)], [0, 1, -1]]
        if rank(rows) < 3:
            continue
        exact = []
        for r in rows:
            x = fv(r)
            for u in exact:
                x = sub(x, mul(u, dot(u, fv(r)) / norm2(u)))
            exact.append(x)
        v = by * np.array([[float(x) for x in r] for r in rows])
        o, unit = orthogonalize(v), orthonormalize(v)
        for i, e in enumerate(exact):
            n = math.sqrt(norm2(e))
            require_close(o[i] / by, [float(x) for x in e], 'vector %d of %s times %s', i, rows, by, scale=n, tol=2.0 ** (bits - 46))
            require_close(unit[i], [float(x) / n for x in e], 'unit vector %d of %s times %s', i, rows, by, tol=2.0 ** (bits - 46))
        ctx.step(2)
    ctx.state('near', bits, tuple(w), by)


@FAMILIES.family(lambda tier: ((n, extra, k) for n in ((4, 7, 9, 12, 16, 24) if tier == 'quick' else range(4, 33)) for extra in (0, 3) for k in range(4)))
def many_vectors(ctx, n, extra, k):
    """Long lists of vectors: each is orthogonal to all before it and differs from the one given only by a combination of those."""
    from blmath.numerics.linalg.gram_schmidt import orthogonalize, orthonormalize
    v = np.array([[(n + 1.0 if i == j else ((i * 7 + j * (3 + k) + k) % 5 - 2) / 2.0) for j in range(n + extra)] for i in range(n)])
    given = v.copy()
    o, unit = orthogonalize(v), orthonormalize(v)
    require(np.array_equal(v, given), '%d vectors: an argument was changed', n)
    sizes = np.sqrt((o * o).sum(axis=1))
    require_close((o / sizes[:, None]).dot(o.T / sizes), np.eye(n), '%d vectors are orthogonal', n)
    require_close(unit, o / sizes[:, None], '%d vectors, of unit length', n)
    # The triangle which takes the orthogonal vectors to those given.
    t = v.dot(o.T) / sizes ** 2
    require_close(np.triu(t), np.eye(n), '%d vectors: each is told from those before it', n)
    require_close(t.dot(o), v, '%d vectors span what those given span', n, scale=n)
    ctx.step(2)
    ctx.state('many', n, extra, k)


def exact_change(a, b):
    return matmul(inverse(transpose([fv(r) for r in a])), transpose([fv(r) for r in b]))


def judge(ctx, a, b):
    from blmath.numerics.linalg.isomorphism import LinearDependenceError, isomorphism
    fa, fb = np.array(a, dtype=float), np.array(b, dtype=float)
    before = fa.copy(), fb.copy()
    n = len(a)
    what = 'isomorphism of %s and %s' % (a, b)
    ctx.step()
    if rank(a) < n or rank(b) < n:
        require_refused(what, lambda: isomorphism(fa, fb), LinearDependenceError)
        ctx.outcome('dependent')
        return None
    got = isomorphism(fa, fb)
    want = [[float(x) for x in r] for r in exact_change(a, b)]
    require_close(got, want, what)
    whole = np.array(a), np.array(b, dtype='int32')
    require_close(isomorphism(*whole), want, '%s as whole numbers', what)
    require_close(isomorphism(whole[0], fb), want, '%s, the first as whole numbers', what)
    require(np.array_equal(whole[0], fa) and np.array_equal(whole[1], fb), '%s: an argument was changed', what)
    require(np.array_equal(fa, before[0]) and np.array_equal(fb, before[1]), '%s: an argument was changed', what)
    ctx.outcome('basis')
    ctx.state(tuple(map(tuple, a)), tuple(map(tuple, b)))
    return got


@FAMILIES.family(lambda tier: ((tier, r, s) for r in itertools.product((-1, 0, 1, 2) if tier == 'quick' else range(-2, 4), repeat=2)
                               for s in itertools.product((-1, 0, 1, 2) if tier == 'quick' else range(-2, 4), repeat=2)))
def frames2(ctx, tier, r, s):
    values = (-1, 0, 1, 2) if tier == 'quick' else range(-2, 4)
    for t in itertools.product(values, repeat=4):
        judge(ctx, [list(r), list(s)], [list(t[:2]), list(t[2:])])


@FAMILIES.family(lambda tier: ((r,) for r in itertools.product((-1, 0, 1), repeat=6)))
def frames3(ctx, six):
    some = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 2, 0], [1, 1, 1], [-3, 0, 5]], [[1, 2, 3], [4, 5, 6], [7, 8, 10]], [[1, 2, 3], [4, 5, 6], [5, 7, 9]]]
    for k, t in enumerate(itertools.product((-1, 0, 1), repeat=3)):
        a = [list(six[:3]), list(six[3:]), list(t)]
        b = some[k % 4]
        there, back = judge(ctx, a, b), judge(ctx, b, a)
        if there is not None:
            require_close(np.dot(there, back), np.eye(3), '%s and %s: there and back', a, b, tol=1e-8)
            c = some[(k + 1) % 3]
            on = judge(ctx, b, c)
            require_close(np.dot(there, on), judge(ctx, a, c), '%s, %s, %s: one after the other', a, b, c, tol=1e-8)


PLACES = [(2.**-60, None), (2.**60, None), (2.**-30, None), (2.**30, None), (1, 'unit'), (2.**-10, 'unit'), (1, 'uneven'), (3., 'pythagoras')]
FRAMES3 = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 2, 0], [1, 1, 1], [-3, 0, 5]], [[1, 2, 3], [4, 5, 6], [7, 8, 10]], [[1, 2, 2], [2, 1, -2], [2, -2, 1]],
           [[1, 0, 0], [1, 1, 0], [1, 1, 1]], [[0, -1, 0], [1, 0, 0], [0, 0, -1]], [[3, 4, 0], [0, 0, 5], [5, 0, 0]], [[1, 1, 0], [1, -1, 0], [0, 0, 1]]]
FRAMES4 = [[[1 if i == j else 0 for j in range(4)] for i in range(4)], [[2, 1, 0, 0], [0, 3, 0, -1], [1, 1, 1, 1], [0, 0, 1, 5]],
           [[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]], [[0, 0, 0, 1], [0, 0, 2, 0], [0, -1, 0, 0], [4, 0, 0, 0]]]
FRAMES6 = [[[(7 if i == j else 0) + (i * 3 + j * j + k) % 4 for j in range(6)] for i in range(6)] for k in range(3)]


def place(rows, which):
    scale, how = PLACES[which]
    out = []
    for k, r in enumerate(rows):
        size = {'unit': math.sqrt(norm2(r)), 'uneven': [1, 2.**9, 2.**-7][k % 3], 'pythagoras': 5. / (k + 1), None: 1}[how]
        out.append([float(x) * scale / size for x in r])
    return out


def frame_pairs(tier):
    two = [[list(r), list(q)] for r in itertools.product((-1, 0, 1, 2), repeat=2) for q in itertools.product((-3, 0, 1, 2), repeat=2)]
    for group in ([f for f in two if rank(f) == 2][::7 if tier == 'quick' else 1], FRAMES3, FRAMES4, FRAMES6):
        for a, b in itertools.product(group, repeat=2):
            for i in range(len(PLACES)):
                yield (a, b, i, (i * 2 + 1) % len(PLACES))
                yield (a, b, i, i)


@FAMILIES.family(frame_pairs)
def frames_of_all_sizes(ctx, a, b, i, j):
    """Unit vectors, very small and very large ones."""
    from blmath.numerics.linalg.gram_schmidt import orthogonalize, orthonormalize
    from blmath.numerics.linalg.isomorphism import isomorphism
    a, b = place(a, i), place(b, j)
    fa, fb = np.array(a), np.array(b)
    want = np.array([[float(x) for x in r] for r in exact_change(a, b)])
    got = np.asarray(isomorphism(fa, fb))
    require(got.shape == want.shape, 'shape %s', got.shape)
    # entry (r, c): vector c of b in terms of vector r of a
    unit = np.abs(want).max() * np.ones_like(want)
    if PLACES[i][1] == 'uneven' or PLACES[j][1] == 'uneven':
        unit = 1e3 * unit
    require(np.all(np.abs(got - want) <= 1e-9 * unit), 'isomorphism of %s and %s: %s, expected %s', a, b, got.tolist(), want.tolist())
    o = orthogonalize(fa)
    u = orthonormalize(fa)
    exact = []
    for r in a:
        w = fv(r)
        for x in exact:
            w = sub(w, mul(x, dot(x, fv(r)) / norm2(x)))
        exact.append(w)
    for k, r in enumerate(exact):
        size = math.sqrt(norm2(r))
        require_close(o[k] / size, [float(x) / size for x in r], 'orthogonalize %s: vector %d', a, k, tol=1e-8)
        require_close(u[k], [float(x) / size for x in r], 'orthonormalize %s: vector %d', a, k, tol=1e-8)
    ctx.step(3)
    ctx.state('sizes', str(a), str(b))


@FAMILIES.family(lambda tier: itertools.product(range(1, 6), range(1, 6), range(1, 6), range(1, 6)))
def dimensions(ctx, m1, n1, m2, n2):
    from blmath.numerics.linalg.isomorphism import DimensionalityError, LinearDependenceError, isomorphism
    a = np.eye(max(m1, n1))[:m1, :n1] * 2
    b = np.eye(max(m2, n2))[:m2, :n2]
    if m1 == n1 == m2 == n2:
        require_close(isomorphism(a, b), np.eye(m1) / 2, 'frames of dimension %d', m1)
        if m1 > 1:
            b[-1] = b[0]
            require_refused('a repeated vector', lambda: isomorphism(a, b), LinearDependenceError)
            require_refused('a repeated vector', lambda: isomorphism(b, a), LinearDependenceError)
    else:
        require_refused('frames of shape %s and %s' % ((m1, n1), (m2, n2)), lambda: isomorphism(a, b), DimensionalityError)
        require(issubclass(DimensionalityError, ValueError) and issubclass(LinearDependenceError, ValueError), 'kinds of errors')
    ctx.step()
    ctx.state('dimensions', m1, n1, m2, n2)
    ctx.outcome('dimensions', m1 == n1 == m2 == n2)
