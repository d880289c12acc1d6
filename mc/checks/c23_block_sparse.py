import itertools

import numpy as np
import scipy.sparse as sp

from mc.engine import Families, product, require
from mc.lib import require_close

PROPERTY = 'C23'
LEVEL = 'exploration'
BOUNDS = {
    'quick': '14 matrices from 1x1 to 5x5 (square, wide, tall, with empty rows and columns) x every choice of dense rows and of dense columns '
             'x csr, csc, coo; 12 matrices of size up to 60 with 6 thresholds; systems of size 1-5 with every choice of dense rows and '
             'columns, every unit right-hand side and 6 others, with and without a start; the block solver with every choice of empty '
             'columns of size 6 and with 1-3 dense columns of size 1100-1300; '
             'likewise: matrices in units of 2^-60 to 2^100, systems of 12 to 60 unknowns; every pair of 4 kinds of number for matrix and vector; 15 ways of storing the entries: order x parts x zeros among them; matrices with dense and empty columns only; '
             'every mask of rows and of columns x 3 formats x 3 kinds of number',
    'thorough': '26 matrices up to 6x6; the block solver with every choice of empty columns of size 9',
}
RULE = 'exhaustive dense/sparse splits against dense arithmetic; a state is one matrix and split'
ASSUMPTIONS = ['systems to solve are symmetric positive definite up to empty rows and columns, where the right-hand side is zero']
FAMILIES = Families()


def matrix(k):
    shapes = [(1, 1), (2, 2), (3, 3), (3, 3), (4, 4), (2, 4), (4, 2), (3, 5), (5, 3), (5, 5), (1, 4), (4, 1), (4, 4), (3, 4)]
    n, m = (shapes + [(6, 6), (6, 3), (3, 6), (5, 6), (6, 5), (5, 5), (6, 6), (2, 6), (6, 2), (4, 5), (5, 4), (6, 4)])[k]
    A = np.array([[((i * 3 + j * 5 + k) % 7 - 3) * ((i + 2 * j + k) % 3 > 0) for j in range(m)] for i in range(n)], dtype=float)
    if k % 4 == 2:
        A[n // 2] = 0
    if k % 4 == 3:
        A[:, m // 2] = 0
    if k % 5 == 4:
        A[0] = np.arange(1, m + 1)
        A[:, 0] = np.arange(1, n + 1)
    return A


FORMATS = {'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'coo': sp.coo_matrix}


def splits(tier):
    for k in range(14 if tier == 'quick' else 26):
        n, m = matrix(k).shape
        for rows in range(1 << n):
            yield (k, rows)


@FAMILIES.family(splits)
def every_split(ctx, k, rows):
    A = matrix(k)
    n, m = A.shape
    for columns in range(1 << m):
        r = np.array([not rows >> i & 1 for i in range(n)])
        c = np.array([not columns >> j & 1 for j in range(m)])
        fmt = sorted(FORMATS)[(rows + columns) % 3]
        judge(ctx, (k, rows, columns, fmt), A, fmt, dict(row_sparsity=r, column_sparsity=c), r, c)
    judge(ctx, (k, rows, 'rows only'), A, 'csr', dict(row_sparsity=np.array([not rows >> i & 1 for i in range(n)])))
    if rows < 1 << m:
        judge(ctx, (k, rows, 'columns only'), A, 'csr', dict(column_sparsity=np.array([not rows >> j & 1 for j in range(m)])))


@FAMILIES.family(lambda tier: product(range(14 if tier == 'quick' else 26), sorted(FORMATS), ['f8', 'f4', 'i8']))
def every_mask(ctx, k, fmt, kind):
    """The rows and columns wanted are kept where they are, everything else is gone."""
    from blmath.numerics.linalg.static_block_sparse_matrix import mask_sparse_matrix, mask_sparse_matrix_by_columns, mask_sparse_matrix_by_rows
    A = matrix(k).astype(kind)
    n, m = A.shape
    M = FORMATS[fmt](A)
    for rows in range(1 << n):
        r = np.array([bool(rows >> i & 1) for i in range(n)])
        same(ctx, mask_sparse_matrix_by_rows(M, r), A * r[:, None], (k, fmt, kind, r))
        for columns in range(1 << m) if rows in (0, 1, 2, (1 << n) - 1) or k < 8 else [1, (1 << m) - 2]:
            c = np.array([bool(columns >> j & 1) for j in range(m)])
            if rows == 0:
                same(ctx, mask_sparse_matrix_by_columns(M, c), A * c, (k, fmt, kind, c))
            elif columns:
                same(ctx, mask_sparse_matrix(M, r, c), A * r[:, None] * c, (k, fmt, kind, r, c))
    require(np.array_equal(M.toarray(), A), '%s: the matrix given was changed', k)
    ctx.state('mask', k, fmt, kind)
    ctx.outcome('masked')


def same(ctx, got, expected, what):
    require(sp.issparse(got) and got.dtype == expected.dtype, '%s: a sparse matrix of the same kind of number, not %s', what, got.dtype)
    require(np.array_equal(got.toarray(), expected), '%s: masked matrix', what)
    ctx.step()


def judge(ctx, key, A, fmt, kw, r=None, c=None, unit=1., M=None):
    from blmath.numerics.linalg.static_block_sparse_matrix import StaticBlockSparseMatrix
    M = FORMATS[fmt](A) if M is None else M
    n, m = A.shape
    S = StaticBlockSparseMatrix(M, **kw)
    require(tuple(S.shape) == (n, m), '%s: shape %s', key, S.shape)
    if r is not None:
        require(list(S.sparse_row_indices) == list(np.flatnonzero(r)) and list(S.dense_row_indices) == list(np.flatnonzero(~r)), '%s: rows', key)
        require(list(S.sparse_column_indices) == list(np.flatnonzero(c)) and list(S.dense_column_indices) == list(np.flatnonzero(~c)), '%s: columns', key)
        require((S.num_sparse_rows, S.num_dense_rows, S.num_sparse_columns, S.num_dense_columns) == (r.sum(), (~r).sum(), c.sum(), (~c).sum()), '%s: counts', key)
    vectors = [np.eye(m)[0], np.arange(1., m + 1), np.array([(-1.) ** j * (j * j + 0.5) for j in range(m)])]
    for v in vectors:
        before = v.copy()
        require_close(S.matvec(v) / unit, A.dot(v) / unit, '%s: times %s', key, v)
        require_close(S.linOp.matvec(v) / unit, A.dot(v) / unit, '%s: operator times %s', key, v)
        require(np.array_equal(v, before), '%s: the vector given was changed', key)
        ctx.step(2)
    B = np.array([[(i * j) % 5 - 1. for j in range(3)] for i in range(m)])
    require_close(S.matmat(B) / unit, A.dot(B) / unit, '%s: times a matrix', key)
    require_close(S.linOp.matmat(B) / unit, A.dot(B) / unit, '%s: operator times a matrix', key)
    require_close(dense(S.MMT()) / unit ** 2, A.dot(A.T) / unit ** 2, '%s: M Mt', key)
    require_close(dense(S.MTM()) / unit ** 2, A.T.dot(A) / unit ** 2, '%s: Mt M', key)
    require_close(S.matvec(vectors[1]), A.dot(vectors[1]), '%s: a second time', key)
    require_close(M.toarray(), A, '%s: the matrix given was changed', key)
    ctx.step(5)
    ctx.state(str(key))
    ctx.outcome(fmt, S.num_dense_rows > 0, S.num_dense_columns > 0)


def dense(m):
    return m.toarray() if hasattr(m, 'toarray') else np.asarray(m)


@FAMILIES.family(lambda tier: product(range(14 if tier == 'quick' else 26), itertools.product(KINDS, repeat=2)))
def other_numbers(ctx, k, kinds):
    """Matrices and vectors of whole numbers and of single precision."""
    from blmath.numerics.linalg.static_block_sparse_matrix import StaticBlockSparseMatrix
    A = np.array(matrix(k))
    n, m = A.shape
    v = np.array([(-1) ** j * (j * j + 1) for j in range(m)], dtype=kinds[1])
    choices = [{}] + [dict(row_sparsity=np.array([bool(i % 3) != r for i in range(n)]), column_sparsity=c) for r in (False, True)
                      for c in ([], np.array([j % 2 > 0 for j in range(m)]), np.ones(m, dtype=bool), np.zeros(m, dtype=bool))]
    for fmt in sorted(FORMATS):
        for kw in choices:
            S = StaticBlockSparseMatrix(FORMATS[fmt](A.astype(kinds[0])), **kw)
            key = (k, kinds, fmt, kw)
            require_close(S.matvec(v), A.dot(v.astype(float)), '%s: times %s', key, v)
            require_close(S.linOp.matvec(v), A.dot(v.astype(float)), '%s: operator times %s', key, v)
            require_close(dense(S.MMT()), A.dot(A.T), '%s: M Mt', key)
            require_close(dense(S.MTM()), A.T.dot(A), '%s: Mt M', key)
            ctx.step(4)
    A = spd(4, k)
    S = StaticBlockSparseMatrix(sp.csr_matrix(A.astype(kinds[0])), np.arange(4) != k % 4, np.arange(4) != k % 3)
    b = np.array([3, -1, 0, 2], dtype=kinds[1])
    x, _ = S.conjGradSolve(b)
    require_close(x, np.linalg.solve(A, b), 'solution with %s', kinds, tol=1e-5)
    ctx.state('kinds', k, str(kinds))


KINDS = ('int64', 'int32', 'float32', 'float64')
STORED = list(itertools.product(('sorted', 'reversed', 'turned'), ('once', 'twice', 'three', 'with zeros', 'zeros and twice')))


def stored(A, which, fmt):
    """A, its entries in this order, in several parts or with zeros among them."""
    order, parts = STORED[which]
    n, m = A.shape
    at = [(i, j) for j in range(m) for i in range(n) if A[i, j] or 'zeros' in parts and (i + j) % 3 != 1]
    if fmt == 'csr':
        at.sort()
    if fmt == 'coo':
        at = at[::-1] if order == 'reversed' else at[len(at) // 2:] + at[:len(at) // 2] if order == 'turned' else at
    else:
        lines = [[x for x in at if x[fmt == 'csc'] == k] for k in range(m if fmt == 'csc' else n)]
        at = sum([x[::-1] if order == 'reversed' else x[1:] + x[:1] if order == 'turned' else x for x in lines], [])
    shares = [2., 1., -2.] if parts == 'three' else [.5, .5] if 'twice' in parts else [1.]
    data = np.array([A[x] * y for x in at for y in shares])
    rows, columns = [np.array([x[k] for x in at for _ in shares], dtype=np.int32) for k in (0, 1)]
    if fmt == 'coo':
        return sp.coo_matrix((data, (rows, columns)), shape=(n, m))
    major, minor = (columns, rows) if fmt == 'csc' else (rows, columns)
    start = np.concatenate([[0], np.cumsum(np.bincount(major, minlength=m if fmt == 'csc' else n))]).astype(np.int32)
    return FORMATS[fmt]((data, minor, start), shape=(n, m))


@FAMILIES.family(lambda tier: product(range(14 if tier == 'quick' else 26), range(len(STORED)), sorted(FORMATS)))
def however_stored(ctx, k, which, fmt):
    """The same matrices with their entries out of order, in several parts, and with zeros among them."""
    A = matrix(k)
    assert np.array_equal(stored(A, which, fmt).toarray(), A)
    n, m = A.shape
    for rows in range(1 << n) if n < 4 else (0, 1, 5, 6, (1 << n) - 1):
        for columns in (0, 2, 5, (1 << m) - 1):
            r = np.array([not rows >> i & 1 for i in range(n)])
            c = np.array([not columns >> j & 1 for j in range(m)])
            judge(ctx, (k, rows, columns, fmt) + STORED[which], A, fmt, dict(row_sparsity=r, column_sparsity=c), r, c, M=stored(A, which, fmt))
    judge(ctx, (k, fmt) + STORED[which], A, fmt, {}, M=stored(A, which, fmt))


@FAMILIES.family(lambda tier: product(range(1 << 6), range(3), range(len(STORED))))
def block_solver_however_stored(ctx, mask, k, which):
    A = spd(6, k)
    empty = [i for i in range(6) if mask >> i & 1]
    A[empty] = 0
    A[:, empty] = 0
    solve(ctx, (mask, k) + STORED[which], A, empty, which)


@FAMILIES.family(lambda tier: product(['arrow', 'band', 'random', 'zero'], [20, 41, 60], [None, 0, 0.02, 0.05, 0.3, 2]))
def thresholds(ctx, kind, n, threshold):
    """Whatever counts as dense, the answers are the same."""
    A = np.zeros((n, n - 3))
    for i in range(n):
        for j in range(n - 3):
            if kind == 'arrow' and (i == 2 or j == 5 or i == j) or kind == 'band' and abs(i - j) < 2 or kind == 'random' and (i * 7 + j * j * 3) % 11 == 0:
                A[i, j] = (i + 2 * j) % 5 - 2.5
    for M in (A, A.T.copy(), A[:, :n // 3], A[:n // 4]):
        share = (0.05 if threshold is None else threshold) * max(M.shape)
        r, c = [(M != 0).sum(axis=axis) < share for axis in (1, 0)]
        judge(ctx, (kind, M.shape, threshold), M, 'csc' if n % 2 else 'csr', {} if threshold is None else dict(sparsity_threshold=threshold), r, c)


def spd(n, k):
    A = np.array([[float((i * j + k) % 3 - 1) * ((i + j + k) % 2) for j in range(n)] for i in range(n)])
    A = A + A.T
    return A + np.diag(np.abs(A).sum(axis=1) + 1 + np.arange(n) % 3)


@FAMILIES.family(lambda tier: ((n, k, rows) for n in range(1, 6) for k in range(2) for rows in range(1 << n)))
def conjugate_gradients(ctx, n, k, rows):
    from blmath.numerics.linalg.static_block_sparse_matrix import StaticBlockSparseMatrix
    A = spd(n, k)
    for columns in range(1 << n):
        r = np.array([not rows >> i & 1 for i in range(n)])
        c = np.array([not columns >> j & 1 for j in range(n)])
        S = StaticBlockSparseMatrix(sp.csr_matrix(A), r, c)
        sides = [row for row in np.eye(n)] + [np.zeros(n), np.ones(n), np.arange(1., n + 1), -np.arange(n) ** 2 + 1., A[:, 0], 1e3 * A.sum(axis=1)]
        for q, b in enumerate(sides):
            exact = np.linalg.solve(A, b)
            for start in (None, np.zeros(n), np.ones(n), exact.copy()):
                before = b.copy(), None if start is None else start.copy()
                x, _ = S.conjGradSolve(b) if start is None else S.conjGradSolve(b, x0=start)
                require_close(x, exact, 'solution of system %d of %s, split %d %d, from %s', q, (n, k), rows, columns, start, tol=1e-7)
                require(np.array_equal(b, before[0]) and (start is None or np.array_equal(start, before[1])), 'an argument was changed')
                ctx.step()
        ctx.state('cg', n, k, rows, columns)
    ctx.outcome('solved', n)


@FAMILIES.family(lambda tier: product([12, 25, 40, 60], ['diagonal', 'spd', 'band'], [0, 0.1, 2], [1, 2.**10]))
def long_conjugate_gradients(ctx, n, kind, threshold, size):
    """Systems which take many steps, to the tolerance asked for."""
    from blmath.numerics.linalg.static_block_sparse_matrix import StaticBlockSparseMatrix
    A = {'diagonal': np.diag(np.arange(1., n + 1)), 'spd': spd(n, 1),
         'band': np.diag(4. + np.arange(n) % 5) - np.eye(n, k=1) - np.eye(n, k=-1)}[kind] * size
    S = StaticBlockSparseMatrix(sp.csr_matrix(A), sparsity_threshold=threshold)
    for b in (np.ones(n), np.arange(1., n + 1), np.array([(-1.) ** i * (i % 4) for i in range(n)]), np.eye(n)[n // 2]):
        exact = np.linalg.solve(A, b)
        for tol in (None, 1e-7, 1e-2):
            # as many steps as it takes: the tolerance decides, not the limit
            x, _ = S.conjGradSolve(b, maxiter=20 * n) if tol is None else S.conjGradSolve(b, tol=tol, maxiter=20 * n)
            left = np.sqrt(np.sum((A.dot(x) - b) ** 2))
            require(left <= 1.01 * (tol or 1e-9) + 1e-12 * size * n, 'system %s of %d, tolerance %s: residual %s', kind, n, tol, left)
            ctx.step()
        x, _ = S.conjGradSolve(b)
        require_close(x, exact, 'solution of the %s system of %d', kind, n, tol=1e-6, scale=np.abs(exact).max())
        few, _ = S.conjGradSolve(b, maxiter=1)
        require(np.sqrt(np.sum((A.dot(few) - b) ** 2)) <= np.sqrt(np.sum(b ** 2)) * 10 * n and np.all(np.isfinite(few)), 'one step')
        ctx.step(2)
    ctx.state('long cg', n, kind, threshold, size)


@FAMILIES.family(lambda tier: product(range(5), range(7), [0, 1, 2]))
def scaled_matrices(ctx, k, power, columns):
    """Very small and very large entries."""
    scale = 2.0 ** (-60, -20, -8, 8, 20, 60, 100)[power]
    A = matrix(k + 3)
    n, m = A.shape
    r, c = np.arange(n) % 3 != 1, np.arange(m) % 3 != columns
    judge(ctx, ('scaled', k, power, columns), A * scale, 'csr', dict(row_sparsity=r, column_sparsity=c), r, c, unit=scale)


def empty_columns(tier):
    n = 6 if tier == 'quick' else 9
    for mask in range(1 << n):
        for k in range(3):
            yield (n, mask, k)


@FAMILIES.family(empty_columns)
def block_solver(ctx, n, mask, k):
    A = spd(n, k)
    empty = [i for i in range(n) if mask >> i & 1]
    A[empty] = 0
    A[:, empty] = 0
    solve(ctx, (n, mask, k), A, empty)


@FAMILIES.family(lambda tier: product([1100, 1300], [[0], [5], [-1], [0, 1], [3, 700], [2, 500, -1]], [[], [9], [8, 10, 400]]))
def dense_columns(ctx, n, columns, empty):
    """Columns with 1000 entries or more are the dense ones."""
    A = sp.lil_matrix((n, n))
    A.setdiag(4.0 + np.arange(n) % 3)
    for i in range(0, n - 1, 3):
        A[i, i + 1] = A[i + 1, i] = 1.0
    A = A.toarray()
    for q, j in enumerate(columns):
        j = j % n
        A[j, :] = A[:, j] = 0.05 + 0.01 * ((np.arange(n) + q) % 4)
    for j in columns:
        A[j % n, j % n] = 50.
    A = (A + A.T) / 2
    A[empty] = 0
    A[:, empty] = 0
    solve(ctx, (n, tuple(columns), tuple(empty)), A, empty)


@FAMILIES.family(lambda tier: product([1000, 1001, 1200], [[], [0], [3, 500], [-1]]))
def nothing_sparse(ctx, n, empty):
    """Each column is dense, or empty."""
    if n - len(empty) < 1000:
        return
    A = np.diag(50. + np.arange(n) % 3) + 0.01 * ((np.arange(n)[:, None] + np.arange(n)) % 4 + 1)
    A[empty] = 0
    A[:, empty] = 0
    solve(ctx, ('dense', n, tuple(empty)), A, [j % n for j in empty])


def solve(ctx, key, A, empty, which=None):
    from blmath.numerics.linalg.sparse_cg import block_sparse_cg_solve
    n = len(A)
    for fmt in ('csc', 'csr'):
        for b in (np.arange(1., n + 1), np.array([(-1.) ** i * (i % 4 + 1) for i in range(n)]), np.eye(n)[n // 2]):
            b = b.copy()
            b[empty] = 0
            M = FORMATS[fmt](A) if which is None else stored(A, which, fmt)
            before = b.copy()
            x = block_sparse_cg_solve(M, b)
            require(x.shape == (n,) and np.all(np.isfinite(x)), '%s: solution %s', key, x)
            left = np.linalg.norm(A.dot(x) - b)
            require(left <= 1.1e-5 * np.linalg.norm(b), '%s: residual %s of %s', key, left, np.linalg.norm(b))
            require(np.array_equal(b, before) and np.array_equal(M.toarray(), A), '%s: an argument was changed', key)
            ctx.step()
    ctx.state('solve', str(key))
    ctx.outcome('block solver', len(empty) > 0)
