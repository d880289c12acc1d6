import itertools

import numpy as np
import scipy.sparse as sp

from mc import env
from mc.engine import Families, require
from mc.lib import require_close

PROPERTY = 'C22'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every symmetric matrix of size 1-3 over 3-4 values off and 4 values on the diagonal, every one of size 4 with off-diagonal '
             'entries in {0,1,-2} and 8 diagonals, every sparsity pattern of size 5 with 2 diagonals; bands, arrows, blocks and grids of size 6-60; '
             'likewise: matrices in six other systems of units, 2^-100 to 2^20, even and uneven; each as 64-bit numbers with either index type, and as whole numbers of three sizes and single precision where exact; columns in 3 orders, entries in one to three parts',
    'thorough': 'size 4 with every diagonal over 4 values; every matrix of size 5 with off-diagonal entries in {0,1,-2} and 4 diagonals; sizes to 200',
}
RULE = ('exhaustive small symmetric matrices and sparsity patterns; the factor is multiplied out and compared; definiteness from eigenvalues; '
        'a state is one matrix; the extension is compiled from the current tree')
ASSUMPTIONS = ['matrices are symmetric, real, in compressed column form, sorted or not, entries in one part or several', 'smallest eigenvalues between -1e-9 and 1e-6 are not judged']
FAMILIES = Families()


def prepare(scratch):
    env.with_cholmod(scratch)


def symmetric(off, diagonal):
    n = len(diagonal)
    A = np.diag(np.array(diagonal, dtype=float))
    for (i, j), x in zip(itertools.combinations(range(n), 2), off):
        A[i, j] = A[j, i] = x
    return A


def diagonals(n, tier):
    if n <= 3 or tier == 'thorough' and n == 4:
        return list(itertools.product((7, 2, 0.5, -1), repeat=n))
    out = [(9,) * n, tuple(range(3, 3 + n)), (2,) * n, tuple(11 - i for i in range(n))]
    if n == 4:
        out += [tuple(-1 if i == k else 8 for i in range(n)) for k in range(n)]
    return out


def small(tier):
    for n in (1, 2, 3, 4):
        values = (0, 1, -2, 0.25) if n <= 3 else (0, 1, -2)
        for off in itertools.product(values, repeat=n * (n - 1) // 2):
            for d in diagonals(n, tier):
                yield (off, d)
    if tier == 'quick':
        for off in itertools.product((0, 1), repeat=10):
            for d in diagonals(5, tier)[:2]:
                yield (off, d)
    else:
        for off in itertools.product((0, 1, -2), repeat=10):
            for d in diagonals(5, tier):
                yield (off, d)


@FAMILIES.family(small)
def small_matrix(ctx, off, diagonal):
    judge(ctx, (off, diagonal), symmetric(off, diagonal))


def shapes(tier):
    for n in (6, 12, 30, 60) if tier == 'quick' else (6, 7, 12, 20, 30, 60, 120, 200):
        for kind in ('band', 'wide band', 'arrow up', 'arrow down', 'blocks', 'grid', 'diagonal', 'checker', 'full', 'negative', 'late'):
            for turn in range(3):
                yield (n, kind, turn)


@FAMILIES.family(shapes)
def larger(ctx, n, kind, turn, d=None):
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            near = abs(i - j)
            hit = {'band': near == 1, 'wide band': near in (1, 3), 'arrow up': i == 0 or j == 0, 'arrow down': i == n - 1 or j == n - 1,
                   'blocks': i // 3 == j // 3, 'grid': near == 6 or near == 1 and min(i, j) % 6 != 5, 'diagonal': False,
                   'checker': (i + j) % 2 == 1 and near < 6, 'full': True, 'negative': near == 2, 'late': near == 1}[kind]
            if hit and i != j:
                A[i, j] = A[j, i] = -1.0 if (i * j + turn) % 3 else 0.5
    A += np.diag(np.abs(A).sum(axis=0) + 1 + np.arange(n) % 4)
    if kind == 'negative':
        A[n // 2, n // 2] = -3
    if kind == 'late':
        A[n - 1, n - 1] = -1
    if turn:
        p = [(i * 5 + turn) % n if n % 5 else (i * 7 + turn) % n for i in range(n)]
        A = A[p][:, p]
    judge(ctx, (n, kind, turn) + (() if d is None else tuple(d[:8])), A, d)


def sized(tier):
    for n in (1, 2, 3, 4):
        for off in itertools.product((0, 1, -2) if n < 4 else (0, 1), repeat=n * (n - 1) // 2):
            for d in ((9,) * n, tuple(range(3, 3 + n)), tuple(11 - 2 * i for i in range(n)), (8,) * (n - 1) + (-1,)):
                for k in range(len(SIZES)):
                    yield (off, d, k)


# powers of two by which the i-th unknown is measured: products stay exact
SIZES = [lambda i: -20, lambda i: 20, lambda i: -3 * i, lambda i: 10 - 7 * (i % 3), lambda i: -100, lambda i: 8 * (i % 2)]


@FAMILIES.family(sized)
def other_units(ctx, off, diagonal, which):
    """The same matrices with entries which are tiny, huge or uneven."""
    d = np.array([2.0 ** SIZES[which](i) for i in range(len(diagonal))])
    judge(ctx, (off, diagonal, which), symmetric(off, diagonal), d)


@FAMILIES.family(lambda tier: itertools.product((12, 60), ('band', 'arrow up', 'arrow down', 'grid', 'full'), range(3), range(len(SIZES))))
def larger_in_other_units(ctx, n, kind, turn, which):
    larger(ctx, n, kind, turn, np.array([2.0 ** SIZES[which](i % 7) for i in range(n)]))


def stored(A, kind, order, repeated):
    """A in compressed columns: the rows of a column in this order, entries in several parts."""
    n = len(A)
    data, rows, start = [], [], [0]
    for j in range(n):
        at = [i for i in range(n) if A[i, j]]
        at = at[::-1] if order == 'reversed' else at[1:] + at[:1] if order == 'turned' else at
        for i in at:
            parts = {'once': [1.], 'off the diagonal': [1.] if i == j else [.5, .5], 'twice': [.5, .5], 'three': [2., 1., -2.]}[repeated]
            data += [A[i, j] * x for x in parts]
            rows += [i] * len(parts)
        start.append(len(data))
    return sp.csc_matrix((np.array(data).astype(kind), np.array(rows, dtype=np.int32), np.array(start, dtype=np.int32)), shape=(n, n))


def storage(tier):
    for off, d in small(tier):
        if len(d) < 4 or d[0] == 3 or tier == 'thorough':
            for order in ('sorted', 'reversed', 'turned'):
                for repeated in ('once', 'off the diagonal', 'twice', 'three'):
                    if (order, repeated) != ('sorted', 'once'):
                        yield (off, d, order, repeated)


@FAMILIES.family(storage)
def however_stored(ctx, off, diagonal, order, repeated):
    """Unsorted columns, entries which are stored in parts, as assembling a matrix gives them."""
    A = symmetric(off, diagonal)
    if repeated == 'once' and max(np.count_nonzero(A, axis=0)) < 2:
        return
    def store(A, kind):
        given = stored(A, kind, order, repeated)
        if not np.array_equal(given.toarray(), A):  # halves as whole numbers
            given = stored(A, kind, order, 'three')
        assert np.array_equal(given.toarray(), A)
        return given
    judge(ctx, (off, diagonal, order, repeated), A, store=store)


# numbers of other kinds, where they say the same
KINDS = (np.int64, np.int32, np.int8, np.float32)


def plain(A, kind):
    return sp.csc_matrix(A.astype(kind))


def judge(ctx, key, A, d=None, store=plain):
    from blmath.numerics.linalg.lchol import lchol
    n = len(A)
    least = np.linalg.eigvalsh(A)[0]
    scale = max(1.0, np.abs(A).max())
    if -1e-9 * scale <= least <= 1e-6 * scale:
        ctx.outcome('singular, not judged')
        return
    d = np.ones(n) if d is None else d
    whole = A * d * d[:, None]
    kinds = [(np.int32, np.float64), (np.int64, np.float64)]
    kinds += [(np.int32, k) for k in KINDS if np.abs(whole).max() < 2.0 ** 60 and np.array_equal(whole.astype(k).astype(float), whole)]
    for index, kind in kinds:
        given = store(whole, kind)
        given.indices, given.indptr = given.indices.astype(index), given.indptr.astype(index)
        parts = given.data.copy(), given.indices.copy(), given.indptr.copy()
        L, stopped, S = lchol(given)
        ctx.step()
        for now, before in zip((given.data, given.indices, given.indptr), parts):
            require(now.dtype == before.dtype and np.array_equal(now, before), '%s: the matrix given was changed', key)
        L, S = L.toarray(), S.toarray()
        require(S.shape == (n, n) and np.all((S == 0) | (S == 1)) and np.all(S.sum(axis=0) == 1) and np.all(S.sum(axis=1) == 1),
                '%s: the reordering is no permutation: %s', key, S)
        require(np.array_equal(L, np.tril(L)), '%s: the factor is not lower triangular', key)
        turned = S.T.dot(A).dot(S)
        if np.any(d != 1):
            L = L / S.T.dot(d)[:, None]
        if least > 0:
            require(stopped == 0, '%s: positive definite, but reported at %s', key, stopped)
            require(L.shape == (n, n) and np.all(np.diag(L) > 0), '%s: factor of shape %s', key, L.shape)
            require_close(L.dot(L.T), turned, '%s: the product of the factor and its transpose', key)
            ctx.outcome('factored')
        else:
            require(0 < stopped <= n, '%s: smallest eigenvalue %s, but no report (%s)', key, least, stopped)
            k = int(stopped) - 1
            require(L.shape == (n, k), '%s: stopped at column %d with a factor of shape %s', key, stopped, L.shape)
            if k:
                require_close(L[:k].dot(L[:k].T), turned[:k, :k], '%s: the product of the leading part', key)
            lead = np.linalg.eigvalsh(turned[:k + 1, :k + 1])[0]
            require(lead <= 1e-9 * scale, '%s: stopped at column %d, but up to it the matrix is positive definite', key, stopped)
            ctx.outcome('reported')
    ctx.state(str(key))
