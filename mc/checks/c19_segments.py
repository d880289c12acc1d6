import itertools
from fractions import Fraction as F

import numpy as np

from mc.engine import Families, product, require
from mc.lib import fv, require_close, require_refused

PROPERTY = 'C19'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every ordered pair of points of a 4x3x2 lattice (repeats included) x 2-9 and 33 samples, with and without the end; points of '
             'dimension 1-5; every chain of 1-3 points of the lattice and chains of up to 12 x 1-7 parts; all wrong sample counts; '
             'likewise: lattices in units of 2^-60 to 2^60 and 2^20 away, integer end points, up to 5000 samples; every count from 2 to 130',
    'thorough': 'a 5x4x3 lattice x up to 65 samples; every chain of 4 points of 9',
}
RULE = 'exhaustive pairs and chains of lattice points and sample counts against exact interpolation; a state is one input'
ASSUMPTIONS = ['points are arrays of floats or of signed integers']
FAMILIES = Families()


def lattice(tier):
    if tier == 'quick':
        return list(itertools.product((0, 1, -3, 0.5), (0, 4, -1), (0, 1000)))
    return list(itertools.product((0, 1, -3, 0.5, 1e-3), (0, 4, -1, 7), (0, 1000, -2)))


def samples(tier):
    return list(range(2, 10)) + ([33] if tier == 'quick' else list(range(10, 66)))


def interpolate(a, b, k, n):
    return [float(x + (y - x) * F(k, n)) for x, y in zip(fv(a), fv(b))]


@FAMILIES.family(lambda tier: ((tier, a) for a in lattice(tier)))
def one_segment(ctx, tier, a):
    for b in lattice(tier):
        judge(ctx, a, b, samples(tier))


PLACES = [(2.**-60, 0), (2.**60, 0), (2.**-30, 0), (2.**30, 0), (2.**-10, 1024), (1, -2.**20)]


@FAMILIES.family(lambda tier: ((tier, a, k) for a in lattice(tier) for k in range(len(PLACES))))
def placed(ctx, tier, a, place):
    """Very short and long segments, and far from the origin."""
    scale, shift = PLACES[place]
    for b in lattice(tier):
        judge(ctx, [x * scale + shift for x in a], [x * scale - 2 * shift if k == 1 else x * scale + shift for k, x in enumerate(b)], [2, 3, 7, 10])
        judge(ctx, [x * scale + shift for x in a], [x * scale + shift for x in b], [2, 5])


@FAMILIES.family(lambda tier: product(itertools.product((-2, 0, 5), repeat=3), ['int64', 'int32', 'int16']))
def whole_numbers(ctx, a, kind):
    for b in itertools.product((-2, 0, 1, 1000), repeat=3):
        judge(ctx, a, b, [2, 3, 4, 7], dtype=kind)


@FAMILIES.family(lambda tier: product([100, 257, 1000, 5000] if tier == 'quick' else [100, 255, 256, 257, 1000, 5000, 33000, 70000]))
def many_samples(ctx, n):
    judge(ctx, (1, -2, 3.5), (4, 0, -1e3), [n])
    judge(ctx, (1, -2, 3.5), (1, -2, 3.5), [n])
    judge(ctx, (0, 0), (1, 1e-3), [n])


@FAMILIES.family(lambda tier: product(range(2, 131 if tier == 'quick' else 600), range(3)))
def every_count(ctx, n, k):
    from blmath.geometry.segment import partition
    a, b = [((0, 0, 0), (1, 0, 0)), ((0, 0, 0), (0.3, -7, 1e-3)), ((3, 1, -2), (-4, 10, 5))][k]
    judge(ctx, a, b, [n])
    v = np.array([a, b, b, a], dtype=float)
    want = [interpolate(p, q, j, n) for p, q in ((a, b), (b, b), (b, a)) for j in range(n)] + [list(a)]
    got = partition(v, n)
    require(got.shape == (len(want), 3), '%d parts each: shape %s', n, got.shape)
    require_close(got, want, '%d parts each', n)
    ctx.step()


def judge(ctx, a, b, counts, dtype=float):
    from blmath.geometry.segment import partition_segment, partition_segment_old
    p, q = np.array(a, dtype=dtype), np.array(b, dtype=dtype)
    size = max(np.abs(p).max(), np.abs(q).max()) or 1.0
    for n in counts:
        what = '%s to %s, %d samples' % (a, b, n)
        whole = [interpolate(a, b, k, n - 1) for k in range(n)]
        parts = [interpolate(a, b, k, n) for k in range(n)]
        for got, want, name in ((partition_segment(p, q, n), whole, 'with the end'),
                                (partition_segment(p, q, n, endpoint=True), whole, 'with the end'),
                                (partition_segment(p, q, n, endpoint=False), parts, 'without the end')):
            require(got.shape == (n, len(a)), '%s %s: shape %s', what, name, got.shape)
            require_close(got, want, '%s %s', what, name, scale=size)
            require_close(got[0], list(a), '%s %s: starts', what, name, scale=size)
            ctx.step()
        back = partition_segment(q, p, n)
        require_close(back, whole[::-1], '%s reversed', what, scale=size)
        got = partition_segment_old(p, q, n)
        require(got.shape == (n - 1, len(a)), '%s, interior: shape %s', what, got.shape)
        require_close(got, parts[1:], '%s, interior', what, scale=size)
        require_close(partition_segment_old(p, q, partition_size=n), got, '%s, interior by name', what, scale=size)
        if n == 5:
            require(np.array_equal(partition_segment_old(p, q), got), '%s, interior, unsaid', what)
        ctx.step(3)
        ctx.state(tuple(a), tuple(b), n)
    require(np.array_equal(p, np.array(a, dtype=float)) and np.array_equal(q, np.array(b, dtype=float)), 'a point given was changed')
    ctx.outcome('same point' if list(a) == list(b) else 'segment')


@FAMILIES.family(lambda tier: product([1, 2, 4, 5], range(5), range(5)))
def other_dimensions(ctx, dim, i, j):
    point = lambda s: [((s * 3 + k * (s + 2)) % 7) - 2.5 for k in range(dim)]
    judge(ctx, point(i), point(j), [2, 3, 5, 8])


WRONG = [1, 0, -1, -5]
NOT_INTS = [2.0, 3.5, '3', None, [3], np.float64(4), (5,)]


@FAMILIES.family(lambda tier: product(range(len(WRONG) + len(NOT_INTS)), [True, False]))
def wrong_counts(ctx, i, endpoint):
    from blmath.geometry.segment import partition_segment, partition_segment_old
    p, q = np.array([0., 0., 0.]), np.array([1., 2., 3.])
    if i < len(WRONG):
        n, kind = WRONG[i], ValueError
    else:
        n, kind = NOT_INTS[i - len(WRONG)], TypeError
    require_refused('%r samples' % (n,), lambda: partition_segment(p, q, n, endpoint=endpoint), kind)
    require_refused('%r parts' % (n,), lambda: partition_segment_old(p, q, n), kind)
    require_refused('%r samples of one point' % (n,), lambda: partition_segment(p, p, n, endpoint=endpoint), kind)
    ctx.step(3)
    ctx.state('wrong', i, endpoint)
    ctx.outcome(kind.__name__)


NINE = [(0, 0, 0), (1, 2, 2), (1, 0, 0), (0, 0, 5), (-3, 4, 0), (1000, 0, 0), (0.5, 0.5, 0.25), (0, 0, -1e-3), (7, -7, 1)]


def chains(tier):
    small = lattice('quick')[::2]
    for n in (1, 2, 3):
        for chain in itertools.product(small if n < 3 else NINE, repeat=n):
            yield (chain,)
    if tier == 'thorough':
        for chain in itertools.product(NINE, repeat=4):
            yield (chain,)
    yield ([(i % 7, i * i % 5, -i % 3) for i in range(1000)],)
    for n in range(5, 13):
        yield ([(i, i * i % 5, -i % 3) for i in range(n)],)
        yield ([(i // 2, 0, 0) for i in range(n)],)


@FAMILIES.family(chains)
def chain_of_segments(ctx, chain):
    from blmath.geometry.segment import partition
    v = np.array(chain, dtype=float)
    for dim, scale, shift, dtype in [(3, 1, 0, float), (2, 1, 0, float), (3, 2.**-30, 0, float), (2, 2.**30, 0, float), (3, 1, 2.**16, float)] + (
            [(3, 1, 0, int), (2, 1, 0, int)] if np.array_equal(v, np.floor(v)) else []):
        w = (v[:, :dim] * scale + shift).astype(dtype)
        given, chain = chain, w.tolist()
        before = w.copy()
        size = np.abs(w).max() or 1.0
        for n in (1, 2, 3, 5, 7):
            want = [interpolate(a[:dim], b[:dim], k, n) for a, b in zip(chain, chain[1:]) for k in range(n)] + [list(chain[-1][:dim])]
            what = '%s in %d parts each' % (chain, n)
            got = partition(w, n)
            require(got.shape == (len(want), dim), '%s: shape %s', what, got.shape)
            require_close(got, want, what, scale=size)
            ctx.step()
        require_close(partition(w), partition(w, partition_size=5), 'five parts when not told', scale=size)
        require(np.array_equal(w, before), 'the points given were changed')
        chain = given
    ctx.state('chain', tuple(map(tuple, chain)))
    ctx.outcome('chain', min(len(chain), 4))
