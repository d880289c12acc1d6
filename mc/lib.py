"""Exact reference arithmetic and comparison helpers shared by the checks."""
import math
from fractions import Fraction as F

import numpy as np

from mc.engine import require


# -- comparing ------------------------------------------------------------------

def close(actual, expected, tol=1e-9, scale=None):
    """Elementwise equality up to `tol` relative to the largest magnitude."""
    a = np.asarray(actual, dtype=float)
    e = np.asarray(tofloat(expected), dtype=float)
    if a.shape != e.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(e)) and np.all(np.isfinite(a))):
        nonfin = ~(np.isfinite(e) & np.isfinite(a))
        same = (a == e) | (np.isnan(a) & np.isnan(e))
        if not np.all(same[nonfin]):
            return False
        a, e = a[~nonfin], e[~nonfin]
        if a.size == 0:
            return True
    if scale is None:
        scale = max(1.0, np.max(np.abs(e)))
    return bool(np.max(np.abs(a - e)) <= tol * scale)


def tofloat(x):
    if isinstance(x, F):
        return float(x)
    if isinstance(x, (list, tuple)):
        return [tofloat(y) for y in x]
    return x


def show(x):
    if isinstance(x, np.ndarray):
        return np.array2string(x, precision=12, threshold=60).replace('\n', ' ')
    return repr(tofloat(x) if isinstance(x, (list, tuple, F)) else x)


def require_close(actual, expected, what, *args, **kw):
    if not close(actual, expected, **kw):
        require(False, '%s: got %s, expected %s',
                what % args if args else what, show(actual), show(expected))


def same_bits(a, b):
    """Equal dtype, shape and content (NaN equals NaN)."""
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and bool(
        np.all((a == b) | ((a != a) & (b != b))))


def refused(fn, *kinds):
    """True when the call raises (one of `kinds`, default: any exception)."""
    try:
        fn()
    except kinds or Exception:
        return True
    return False


def require_refused(what, fn, *kinds):
    try:
        value = fn()
    except kinds or Exception:
        return
    except Exception as e:
        require(False, '%s: refused with %s: %s, expected %s', what, type(e).__name__, e,
                '/'.join(k.__name__ for k in kinds))
    require(False, '%s: should be refused, but returned %s', what, show(value))


# -- exact vectors and matrices (lists of Fractions) -----------------------------

def fv(v):
    return [F(x) for x in v]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def mul(a, k):
    return [x * k for x in a]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm2(a):
    return dot(a, a)


def norm(a):
    return math.sqrt(norm2(a))


def sgn(x):
    return (x > 0) - (x < 0)


def matmul(A, B):
    return [[dot(r, c) for c in zip(*B)] for r in A]


def matvec(A, v):
    return [dot(r, v) for r in A]


def transpose(A):
    return [list(r) for r in zip(*A)]


def identity(n):
    return [[F(int(i == j)) for j in range(n)] for i in range(n)]


def det(A):
    A = [fv(r) for r in A]
    n, d = len(A), F(1)
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i] != 0), None)
        if p is None:
            return F(0)
        if p != i:
            A[i], A[p] = A[p], A[i]
            d = -d
        d *= A[i][i]
        for r in range(i + 1, n):
            k = A[r][i] / A[i][i]
            A[r] = [x - k * y for x, y in zip(A[r], A[i])]
    return d


def rank(A):
    A = [fv(r) for r in A]
    rk = 0
    for c in range(len(A[0]) if A else 0):
        p = next((r for r in range(rk, len(A)) if A[r][c] != 0), None)
        if p is None:
            continue
        A[rk], A[p] = A[p], A[rk]
        for r in range(len(A)):
            if r != rk and A[r][c] != 0:
                k = A[r][c] / A[rk][c]
                A[r] = [x - k * y for x, y in zip(A[r], A[rk])]
        rk += 1
    return rk


def inverse(A):
    n = len(A)
    A = [fv(r) + e for r, e in zip(A, identity(n))]
    for i in range(n):
        p = next(r for r in range(i, n) if A[r][i] != 0)
        A[i], A[p] = A[p], A[i]
        k = A[i][i]
        A[i] = [x / k for x in A[i]]
        for r in range(n):
            if r != i and A[r][i] != 0:
                k = A[r][i]
                A[r] = [x - k * y for x, y in zip(A[r], A[i])]
    return [r[n:] for r in A]


# -- snapshots: did a call change its arguments? ---------------------------------

def freeze(x):
    """A value which changes whenever anything observable in `x` changes."""
    import scipy.sparse as sp
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('objects', x.shape, tuple(freeze(y) for y in x.ravel()))
        return ('array', x.shape, str(x.dtype), np.ascontiguousarray(x).tobytes())
    if sp.issparse(x):
        y = x.tocoo()
        return ('sparse', x.format, x.shape, str(x.dtype), freeze(y.row), freeze(y.col), freeze(y.data))
    if isinstance(x, dict):
        return ('dict', tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(y) for y in x))
    if isinstance(x, (int, float, str, bytes, bool, type(None), complex)):
        return (type(x).__name__, repr(x))
    if isinstance(x, np.generic):
        return ('scalar', str(x.dtype), repr(x))
    if hasattr(x, '__dict__'):
        return (type(x).__name__, tuple((k, freeze(v)) for k, v in sorted(x.__dict__.items())))
    return (type(x).__name__, repr(x))


SIGNED_PERMS = None


def signed_permutations():
    """The 48 signed permutation matrices, identity first."""
    global SIGNED_PERMS
    if SIGNED_PERMS is None:
        import itertools
        out = []
        for p in itertools.permutations(range(3)):
            for s in itertools.product((1, -1), repeat=3):
                out.append([[s[i] if p[i] == j else 0 for j in range(3)] for i in range(3)])
        SIGNED_PERMS = out
    return SIGNED_PERMS


def cube_rotations():
    return [m for m in signed_permutations() if det(m) == 1]
