import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc.engine import Families, product, require
from mc.lib import add, cross, dot, fv, mul, norm2, require_close, require_refused, sgn, sub

PROPERTY = 'C09'
LEVEL = 'exploration'
BOUNDS = {
    'quick': '33 normal directions x 3 lengths x 6 reference points, each judged on a 5x5x5 grid of points; every triple of points of a '
             '{-1,0,1}^3 grid (first point among 3) as a plane through points and through two points and a vector; every set of 2-4 '
             'points of a 2x2x3 grid (and 3 larger sets) as a point cloud to fit; '
             'likewise: the planes and clouds in units of 2^-60 to 2^60 and moved far away, and stacks of thousands of points; '
             'planes through points which are close together, at 9 sizes',
    'thorough': '131 directions x 5 lengths x 9 reference points, the same grid; every triple with the first point among 27; clouds of 2-5 points',
}
RULE = 'exhaustive grids of planes and points against exact rational signed distances; a state is one plane (or point cloud)'
ASSUMPTIONS = ['the sign of a point closer than 1e-9 to a plane is judged only for axis-aligned planes, whose arithmetic is exact',
               'clouds to fit have at least two points']
FAMILIES = Families()

GRID = [list(p) for p in itertools.product((-2, -0.5, 0, 1, 3), repeat=3)]


def directions(tier):
    r = (-1, 0, 1) if tier == 'quick' else (-2, -1, 0, 1, 2)
    out = [d for d in itertools.product(r, repeat=3) if any(d)]
    return out + [(1, 2, 2), (2, -3, 6), (1, 2, 3), (-5, 0, 1), (0.25, -3, 1), (3, 4, 0), (0, -4, 3)]


def planes(tier):
    lengths = (1, 0.125, 1000) if tier == 'quick' else (1, 0.125, 1000, 1e-3, 7)
    refs = [(0, 0, 0), (1, -2, 3), (0.5, 0, 0), (-8, 4, 100), (0, 0, -3), (1, 1, 1)]
    if tier == 'thorough':
        refs += [(1e4, -3, 2), (1 / 3., 2 / 3., -1 / 7.), (0, 2, 0)]
    return product(directions(tier), lengths, refs)


@FAMILIES.family(planes)
def one_plane(ctx, direction, length, ref):
    from blmath.geometry import Plane
    normal = np.array(direction, dtype=float) * length
    r0 = np.array(ref, dtype=float)
    before = normal.copy(), r0.copy()
    plane = Plane(r0, normal)
    ints = Plane(list(ref), np.array([x * length for x in direction]))
    judge_plane(ctx, plane, direction, ref, grid=GRID)
    require_close(ints.signed_distance(np.array(GRID)), plane.signed_distance(np.array(GRID)).tolist(), 'lists and arrays agree')
    flipped = plane.flipped()
    judge_plane(ctx, flipped, [-x for x in direction], ref, grid=GRID[:40])
    judge_plane(ctx, flipped.flipped(), direction, ref, grid=GRID[40:60])
    judge_plane(ctx, plane, direction, ref, grid=GRID[60:100])
    require(np.array_equal(normal, before[0]) and np.array_equal(r0, before[1]), 'an argument of Plane was changed')
    require_close(flipped.reference_point, list(ref), 'the flipped plane passes through the same reference point')
    ctx.state('plane', tuple(direction), length, tuple(ref))


def judge_plane(ctx, plane, direction, ref, grid, reference=True, size=1.0):
    """Everything the plane answers, against the exact signed distances."""
    d = fv(direction)
    n = math.sqrt(norm2(d))
    unit = [float(x) / n for x in d]
    what = 'plane through %s with normal %s' % (ref, direction)
    require_close(plane.normal, unit, what + ': normal')
    if reference:
        require_close(plane.reference_point, list(ref), what + ': reference point', scale=max(size, max(abs(float(x)) for x in ref)))
    offset = float(dot(d, fv(ref))) / n
    scale = max(size, abs(offset))
    require_close(plane.equation[:3], unit, what + ': equation')
    require_close(plane.equation[3:], [-offset], what + ': equation', scale=scale)
    require(np.shape(plane.equation) == (4,), what + ': equation')
    require_close(plane.canonical_point, [u * offset for u in unit], what + ': canonical point', scale=scale)
    exact = [float(dot(d, sub(fv(p), fv(ref)))) / n for p in grid]
    points = np.array(grid, dtype=float)
    before = points.copy()
    magnitude = max(10.0 * size, max(abs(float(x)) for x in ref))
    require_close(plane.signed_distance(points), exact, what + ': signed distance', scale=magnitude)
    require_close(plane.distance(points), [abs(x) for x in exact], what + ': distance', scale=magnitude)
    require_close(plane.signed_distance(points[:1]), exact[:1], what + ': one point', scale=magnitude)
    require(np.shape(plane.signed_distance(points[:0])) == (0,), 'no points')
    axis = sum(1 for x in direction if x) == 1 and all(float(x) * 8 / size == int(float(x) * 8 / size) for x in ref)
    sure = np.array([axis or abs(x) > 1e-9 * magnitude for x in exact])
    want = np.array([sgn(x) for x in exact])
    sign = plane.sign(points)
    require(np.array_equal(sign[sure], want[sure]), '%s: sign %s, expected %s', what, sign[sure], want[sure])
    points, want = points[sure], want[sure]
    require(np.all(np.isin(sign, (-1, 0, 1))), 'signs are -1, 0 or 1')
    for inverted, keep in ((False, want >= 0), (True, want <= 0)):
        expected = np.flatnonzero(keep)
        got = plane.points_in_front(points, inverted=inverted, ret_indices=True)
        require(np.array_equal(got, expected), '%s: indices in front (inverted=%s): %s, expected %s', what, inverted, got, expected)
        got = plane.points_in_front(points, inverted)
        require(np.array_equal(got, points[expected]), '%s: points in front (inverted=%s)', what, inverted)
        ctx.step(2)
    require(np.array_equal(before[sure], points), 'the points given were changed')
    for p, dist in list(zip(before, exact))[::7]:
        foot = [x - dist * u for x, u in zip(p, unit)]
        q = p.copy()
        require_close(plane.project_point(q), foot, what + ': projection of %s', p, scale=magnitude)
        require_close(plane.project_point(q.reshape(1, 3)), [foot], what + ': projection of [%s]', p, scale=magnitude)
        require(np.array_equal(q, p), 'the point given was changed')
        ctx.step(2)
    ctx.step(6)
    ctx.outcome('on', bool(np.any(want == 0)))


SIZES = [2.0 ** -60, 2.0 ** -30, 2.0 ** -16, 2.0 ** -8, 2.0 ** 8, 2.0 ** 20, 2.0 ** 40, 2.0 ** 60]


@FAMILIES.family(lambda tier: product(directions('quick')[::1 if tier == 'thorough' else 2], SIZES, [(0, 0, 0), (1, -2, 3), (0, 0, -3), (1000, -4000, 500)], [2.0 ** -16, 1.0, 2.0 ** 30]))
def other_sizes(ctx, direction, size, ref, length):
    """Points and reference points in other units, normals of other lengths."""
    from blmath.geometry import Plane
    ref = [x * size for x in ref]
    plane = Plane(np.array(ref, dtype=float), np.array(direction, dtype=float) * length)
    grid = [[x * size for x in p] for p in GRID[::3]]
    judge_plane(ctx, plane, direction, ref, grid, size=size)
    judge_plane(ctx, plane.flipped(), [-x for x in direction], ref, grid[:20], size=size)
    if size > 1 and length == 1:
        whole = Plane(np.array(ref, dtype=float), np.array(direction))
        lattice = np.array([[int(x) for x in p] for p in grid])
        kept = lattice.copy()
        judge_plane(ctx, whole, direction, ref, grid[:7], size=size)
        require_close(plane.signed_distance(lattice), plane.signed_distance(kept.astype(float)).tolist(), 'distances of integer points', scale=size)
        require(np.array_equal(plane.sign(lattice), plane.sign(kept.astype(float))), 'signs of integer points')
        foot = whole.project_point(lattice[5])
        require_close(foot, whole.project_point(kept[5].astype(float)).tolist(), 'projection of an integer point', scale=size)
        require(np.array_equal(lattice, kept), 'the integer points were changed')
    ctx.state('size', tuple(direction), size, tuple(ref), length)


@FAMILIES.family(lambda tier: product([1, 100, 1024, 5000, 70000], [(0, 0, 1), (1, 2, 2), (-3, 0, 4)], [(0, 0, 0), (5, 5, 5)]))
def long_stacks(ctx, n, direction, ref):
    """The answer for each of many points is that for the point alone."""
    from blmath.geometry import Plane
    plane = Plane(np.array(ref, dtype=float), np.array(direction, dtype=float))
    k = np.arange(n)
    points = np.stack([(k * 7) % 13 - 6.0, (k * k) % 11 - 5.0, (k * 5) % 17 - 8.0], axis=1)
    whole = (points - np.array(ref)).astype(int).dot(np.array(direction))
    length = math.isqrt(sum(x * x for x in direction))
    distances = plane.signed_distance(points)
    require_close(distances, whole / float(length), 'distances of %s points', n)
    sure = whole != 0
    signs = plane.sign(points)
    require(np.array_equal(signs[sure], np.sign(whole)[sure]), 'signs of %s points', n)
    for inverted in (False, True):
        got = plane.points_in_front(points, inverted=inverted, ret_indices=True)
        mask = np.zeros(n, dtype=bool)
        mask[got] = True
        require(np.all(np.diff(got) > 0) and np.array_equal(mask[sure], (whole < 0 if inverted else whole > 0)[sure]), 'points in front of %s', n)
        require(np.array_equal(plane.points_in_front(points, inverted=inverted), points[got]), 'points in front of %s', n)
    for some in (slice(0, n, 2), slice(None, None, -1), slice(n // 3, None)):
        require_close(plane.signed_distance(points[some]), distances[some].tolist(), 'distances of a part of the points')
    fast = np.asfortranarray(points)
    require_close(plane.signed_distance(fast), distances.tolist(), 'distances of points in another memory layout')
    if n > 2:
        fitted = Plane.fit_from_points(points)
        c = points - points.mean(axis=0)
        require(float(np.sum(c.dot(fitted.normal) ** 2)) <= np.linalg.eigvalsh(c.T.dot(c))[0] * (1 + 1e-9) + 1e-9, 'plane fitted to %s points', n)
        require_close(fitted.reference_point, points.mean(axis=0).tolist(), 'reference point of a plane fitted to %s points', n)
    ctx.step(10)
    ctx.state('long', n, tuple(direction), tuple(ref))


@FAMILIES.family(lambda tier: product([[0, 0, 0], [0., 0., 0.], [0, -0.0, 0]], [[0, 0, 0], [1, 2, 3]]))
def zero_normal(ctx, normal, ref):
    from blmath.geometry import Plane
    require_refused('a zero normal', lambda: Plane(np.array(ref), np.array(normal)), ValueError)
    ctx.step()
    ctx.state('zero', tuple(normal), tuple(ref))


def triples(tier):
    small = list(itertools.product((-1, 0, 1), repeat=3))
    first = [(0, 0, 0), (1, -1, 0), (-1, 0, 1)] if tier == 'quick' else small
    return product(first, small, small)


@FAMILIES.family(triples)
def through_points(ctx, a, b, c):
    from blmath.geometry import Plane
    k = [1, 0.5, 16][sum(map(abs, a + b + c)) % 3]
    a, b, c = [[x * k for x in p] for p in (a, b, c)]
    args = [np.array(p) for p in (a, b, c)]
    lists = [list(p) for p in (a, b, c)]
    v = sub(fv(c), fv(a))
    n = cross(sub(fv(b), fv(a)), v)
    nv = cross(sub(fv(b), fv(a)), fv(c))
    for normal, make in ((n, lambda p: Plane.from_points(*p)), (nv, lambda p: Plane.from_points_and_vector(*p))):
        for given in (args, lists):
            ctx.step()
            if not any(normal):
                require_refused('%s %s %s do not span a plane' % (a, b, c), lambda: make(given), ValueError)
                ctx.outcome('refused')
            else:
                judge_plane(ctx, make(given), normal, a, grid=[a, b, add(fv(a), fv(c)), c, [0, 0, 1], [2, -3, 1]])
                ctx.outcome('spanned')
    require(all(np.array_equal(x, y) for x, y in zip(args, (a, b, c))), 'a point given was changed')
    ctx.state('points', tuple(a), tuple(b), tuple(c))


@FAMILIES.family(lambda tier: product(SIZES + [2.0 ** -100], list(itertools.product((-1, 0, 1), repeat=3))[::1 if tier == 'thorough' else 2], range(4)))
def through_close_points(ctx, size, b, k):
    """Points which are close together, or far apart, span the plane they span."""
    from blmath.geometry import Plane
    a, c = [((0, 0, 0), (1, -1, 0)), ((1, 1, 1), (0, 0, 2)), ((0, 1, 0), (3, 0, -1)), ((-1, 0, 0), (1, 0, 0))][k]
    small = [[x * size for x in p] for p in (a, b, c)]
    for points, normal, make in ((small, cross(sub(fv(b), fv(a)), sub(fv(c), fv(a))), Plane.from_points),
                                 (small[:2] + [list(c)], cross(sub(fv(b), fv(a)), fv(c)), Plane.from_points_and_vector),
                                 (small, cross(sub(fv(b), fv(a)), fv(c)), Plane.from_points_and_vector)):
        given = [np.array(p, dtype=float) for p in points]
        ctx.step()
        if any(normal):
            judge_plane(ctx, make(*given), normal, small[0], grid=[[x * size for x in p] for p in (a, b, c, (2, -3, 1))], size=size)
            ctx.outcome('close')
        else:
            require_refused('%s %s %s times %s do not span a plane' % (a, b, c, size), lambda: make(*given), ValueError)
    ctx.state('close', size, tuple(b), k)


@FAMILIES.family(lambda tier: product(range(3), [(2,), (4,), (1, 3), (3, 1), (0,), (3, 3), ()]))
def wrong_shapes(ctx, position, shape):
    from blmath.geometry import Plane
    args = [np.array([0., 0., 0.]), np.array([1., 0., 0.]), np.array([0., 1., 0.])]
    args[position] = np.ones(shape)
    require_refused('shape %s' % (shape,), lambda: Plane.from_points(*args), ValueError)
    require_refused('shape %s' % (shape,), lambda: Plane.from_points_and_vector(*args), ValueError)
    ctx.step(2)
    ctx.state('shape', position, tuple(shape))


def clouds(tier):
    small = list(itertools.product((0, 1), (0, 2), (-1, 0, 1.5)))
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for s in itertools.combinations(small, n):
            yield (s,)
    big = [(x, y, 0) for x in range(4) for y in range(3)]
    yield (big,)
    yield ([(x, y, 2 * x - 3 * y + 1) for x in range(5) for y in range(3)],)
    yield ([(x, y, (x * y) % 3) for x in range(6) for y in range(5)],)


@FAMILIES.family(clouds)
def fit(ctx, cloud):
    from blmath.geometry import Plane
    for k, shift in ((1, (0, 0, 0)), (100, (5, -3, 1e3)), (0.125, (-1, 0, 0)), (2.0 ** -20, (0, 0, 0)), (2.0 ** -20, (2.0 ** -14, -2.0 ** -12, 0)), (2.0 ** 30, (0, 0, 0))):
        points = np.array(cloud, dtype=float) * k + np.array(shift)
        before = points.copy()
        plane = Plane.fit_from_points(points)
        ctx.step()
        centroid = points.mean(axis=0)
        size = np.abs(points).max()
        require_close(plane.reference_point, centroid.tolist(), 'the fitted plane passes through the centroid', scale=size)
        require(abs(np.linalg.norm(plane.normal) - 1) < 1e-9, 'unit normal')
        centred = points - centroid
        least = max(0.0, np.linalg.eigvalsh(centred.T.dot(centred))[0])
        got = float(np.sum(centred.dot(plane.normal) ** 2))
        require(abs(got - least) <= 1e-9 * np.sum(centred ** 2),
                'cloud %s: sum of squared distances %r, least possible %r', cloud, got, least)
        require(np.array_equal(points, before), 'the points given were changed')
        ctx.outcome('planar', least < 1e-9 * max(1.0, np.sum(centred ** 2)))
    ctx.state('cloud', tuple(tuple(p) for p in cloud))
