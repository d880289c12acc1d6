import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc.engine import Families, require
from mc.lib import require_close

PROPERTY = 'C13'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every polyline of 1-3 vertices on a 3x3x2 lattice (with repeats), every one of 4 vertices on a 6-point lattice, and chains of '
             '5 and 12, open and closed, x 8 maximal lengths (dyadic, exact multiples included); '
             'likewise: segments within 10^-1 to 10^-8 of a multiple of the maximum, the small polylines in units of 2^-60 to 2^60 and far away, integer and single-precision vertices, thousands of segments, and up to 70000 pieces',
    'thorough': 'additionally every polyline of 4 vertices on a 12-point lattice and of 5 on a 6-point one, x 12 maximal lengths',
}
RULE = 'exhaustive small polylines and maximal lengths against exact subdivision; a state is one polyline and length'
ASSUMPTIONS = ['where the ratio of a segment to the maximal length is within 1e-9 of a whole number without being exactly computable, '
               'one more piece is accepted']
FAMILIES = Families()

LATTICE = [(x, y, z) for x in (0, 3, 6) for y in (0, 4, 1) for z in (0, 0.5)]
SIX = [(0, 0, 0), (3, 4, 0), (0, 0, 1), (2, 0, 0), (1, 1, 1), (-4, 0.25, 0)]
TWELVE = SIX + [(3, 4, 12), (0.5, 0, 0), (0, -7, 0), (1, 2, 3), (8, 0, 0), (0.125, 0.125, 0)]
LENGTHS = [1, 0.5, 2, 5, 0.75, 100, 2.5, 1.7]


def gen(tier):
    lengths = LENGTHS + ([0.3, 0.125, 13, 7.1] if tier == 'thorough' else [])
    for n in (1, 2, 3):
        for i, v in enumerate(itertools.product(LATTICE, repeat=n)):
            if n == 3 and tier == 'quick':
                yield (v, [LENGTHS[i % 8], LENGTHS[(i // 8 + 3) % 8]])
            else:
                yield (v, lengths)
    for v in itertools.product(SIX, repeat=4):
        yield (v, lengths[:3] if tier == 'quick' else lengths)
    chain = [(i % 5, (i * i) % 7, 0.5 * (i % 3)) for i in range(12)]
    yield (chain, lengths)
    yield (chain[:5], lengths)
    yield ([(i, 0, 0) for i in range(12)], lengths)
    if tier == 'thorough':
        for v in itertools.product(TWELVE, repeat=4):
            yield (v, lengths[::3])
        for v in itertools.product(SIX, repeat=5):
            yield (v, lengths[1::4])


@FAMILIES.family(gen)
def subdivide(ctx, v, lengths):
    from blmath.geometry import Polyline
    for longest in lengths:
        for closed in (False, True):
            what = 'partition_by_length(%s) of %s, closed=%s' % (longest, v, closed)
            given = np.array(v, dtype=float)
            line = Polyline(given.copy(), closed=closed)
            indices = line.partition_by_length(longest, ret_indices=True)
            judge(what, line, indices, v, longest, closed)
            other = Polyline(given.copy(), closed=closed)
            require(other.partition_by_length(longest) is other, '%s: returns the polyline for chaining', what)
            require(np.array_equal(other.v, line.v), '%s: the same vertices with and without indices', what)
            # once no segment is longer, nothing changes any more
            before = line.v.copy()
            again = line.partition_by_length(longest * 1.001, ret_indices=True)
            require(np.array_equal(line.v, before) and again.tolist() == list(range(len(before))), '%s: again', what)
            ctx.step(3)
            ctx.outcome('subdivided' if len(before) > len(v) else 'untouched', closed)
            ctx.state(tuple(map(tuple, v)), longest, closed)


NEAR = [s * 10.0 ** -e for e in range(1, 9) for s in (1, -1)]


@FAMILIES.family(lambda tier: ((k, d, longest, c) for k in range(1, 9 if tier == 'quick' else 40) for d in NEAR for longest in (1, 0.75, 1.7, 1024, 2.0 ** -20) for c in (False, True)))
def nearly_whole(ctx, k, d, longest, closed):
    """Segments a little longer or shorter than a multiple of the maximal length."""
    from blmath.geometry import Polyline
    size = longest * (k + d)
    v = [(0, 0, 0), (size, 0, 0), (size, longest * k, 0), (0, longest * k, size)]
    line = Polyline(np.array(v, dtype=float), closed=closed)
    indices = line.partition_by_length(longest, ret_indices=True)
    judge('partition_by_length(%s) of %s, closed=%s' % (longest, v, closed), line, indices, v, longest, closed)
    ctx.step()
    ctx.state('near', k, d, longest, closed)
    ctx.outcome('near', d > 0)


def resized(tier):
    k = 0
    for v in list(itertools.product(SIX, repeat=3)) + [[(i % 5, (i * i) % 7, 0.5 * (i % 3)) for i in range(12)]]:
        for by in (2.0 ** -60, 2.0 ** 60, 2.0 ** -30, 2.0 ** -10, 2.0 ** 10, 2.0 ** 30):
            for closed in (False, True):
                k += 1
                yield (v, LENGTHS[k % 8], by, (0, 100, -4096)[k % 3], closed)


@FAMILIES.family(resized)
def other_sizes(ctx, v, longest, by, shift, closed):
    """The same polylines in other units and far away; integer and single-precision vertices."""
    from blmath.geometry import Polyline
    w = [tuple((x + shift) * by for x in p) for p in v]
    what = 'partition_by_length(%s) of %s, closed=%s' % (longest * by, w, closed)
    kinds = [float]
    if by == 2.0 ** 10:
        kinds += [int, np.float32]
    for kind in kinds:
        line = Polyline(np.array(w).astype(kind), closed=closed)
        if not np.array_equal(line.v, np.array(w)):
            continue
        indices = line.partition_by_length(longest * by, ret_indices=True)
        judge(what, line, indices, w, longest * by, closed, tol=1e-6 if kind is np.float32 else 1e-9)
        ctx.step()
    ctx.state(tuple(w), longest, closed)
    ctx.outcome('resized', closed)


@FAMILIES.family(lambda tier: ((n, k, c) for n in ([1, 2, 99, 1000] if tier == 'quick' else [1, 2, 99, 1000, 5000]) for k in (1, 7, 4096) for c in (False, True) if n * k <= 200000))
def many_pieces(ctx, n, k, closed):
    """Long polylines, and segments cut into thousands of pieces."""
    from blmath.geometry import Polyline
    v = [(3.0 * (i % 2), 4.0 * (i // 2 % 2), 12.0 * (i % 3)) for i in range(n + 1)]
    if closed and n == 1:
        v.append((3.0, 4.0, 12.0))
    line = Polyline(np.array(v), closed=closed)
    longest = 13.0 / k
    indices = line.partition_by_length(longest, ret_indices=True)
    judge('partition_by_length(13/%s) of %s vertices, closed=%s' % (k, len(v), closed), line, indices, v, longest, closed)
    ctx.step()
    ctx.state('many', n, k, closed)


@FAMILIES.family(lambda tier: ((n, c) for n in ([127, 255, 32767, 40000, 65535, 70000] if tier == 'quick' else [2 ** k + d for k in range(5, 18) for d in (-1, 0, 1)] + [10000, 70000]) for c in (False, True)))
def very_many_pieces(ctx, n, closed):
    """One segment of so many pieces, with others before and behind it."""
    from blmath.geometry import Polyline
    v = np.array([[0., 0, 0], [0, 2, 0], [float(n), 2, 0], [float(n), 3, 0], [float(n), 3, 1.5]])
    line = Polyline(v, closed=closed)
    indices = line.partition_by_length(1., ret_indices=True)
    what = 'partition of a segment of %d pieces, closed=%s' % (n, closed)
    at = [0, 2, n + 2, n + 3, n + 5]
    require(list(indices) == at, '%s: indices %s, expected %s', what, list(indices), at)
    require(np.array_equal(line.v[at], v), '%s: vertices', what)
    require_close(line.v[2:n + 3], np.array([[float(i), 2, 0] for i in range(n + 1)]), what, scale=float(n))
    back = int(math.ceil(math.sqrt(n * n + 9 + 2.25)))
    require(len(line.v) == (n + 5 + back if closed else n + 6) and len(line.e) == len(line.v) - (not closed), '%s: %d vertices', what, len(line.v))
    require(line.segment_lengths.max() <= 1 + 1e-9, '%s: a segment is longer', what)
    ctx.step()
    ctx.state('very many', n, closed)


def judge(what, line, indices, v, longest, closed, tol=1e-9):
    size = max(abs(x) for p in v for x in p) or 1.0
    require(bool(line.closed) == closed, '%s: closed changed', what)
    ends = list(zip(v, v[1:] + v[:1])) if closed else list(zip(v, v[1:]))
    indices = list(indices)
    require(len(indices) == len(v), '%s: %d indices for %d vertices', what, len(indices), len(v))
    require(indices[0] == 0, '%s: first index %s', what, indices[0])
    at = indices + [len(line.v)] if closed else indices
    if not closed:
        require(indices[-1] == len(line.v) - 1, '%s: last index %s of %d', what, indices[-1], len(line.v))
    expected = []
    for k, (a, b) in enumerate(ends):
        square = sum((F(x) - F(y)) ** 2 for x, y in zip(a, b))
        got = at[k + 1] - at[k]
        need = pieces(square, F(longest))
        ratio = math.sqrt(square) / longest
        whole = round(ratio)
        exact = square == (F(longest) * whole) ** 2 and math.isqrt(square.numerator) ** 2 == square.numerator
        accept = {need} if exact or abs(ratio - whole) > tol * max(1.0, size / longest) else {max(1, whole), whole + 1}
        require(got in accept, '%s: %d pieces of %s to %s, expected %s', what, got, a, b, sorted(accept))
        expected += [[x + (y - x) * j / got for x, y in zip(a, b)] for j in range(got)]
    if not closed:
        expected.append(list(v[-1]))
    require_close(line.v, expected, '%s: vertices', what, scale=size, tol=tol)
    require(np.array_equal(line.v[indices], np.array(v, dtype=float)), '%s: the original vertices are kept', what)
    require(len(line.e) == len(line.v) - (not closed), '%s: edges', what)
    require(np.all(line.segment_lengths <= longest * (1 + 1e-9) + tol * size), '%s: a longer segment is left', what)


def pieces(square, longest):
    """The least number of equal pieces none of which is longer than `longest`."""
    n = 1
    guess = int(math.sqrt(square) / longest) - 1
    n = max(1, guess)
    while square > (n * longest) ** 2:
        n += 1
    return n
