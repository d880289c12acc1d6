import itertools
from fractions import Fraction as F

import numpy as np

from mc.engine import Families, product, require
from mc.lib import dot, freeze, fv, norm, norm2, require_close, signed_permutations, sub

PROPERTY = 'C29'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'apex and farthest over every sequence of up to 4 points out of 7 along 15 axes and from 5 points; inflection points of every curve '
             'of 3-6 vertices with heights in {-1,0,1,3} over 4 spacings, in 6 orientations, rising and falling along the span; '
             'likewise: sequences and curves in units of 2^-60 to 2^60 and far away, stacks of thousands of points; points which differ in the last digits only; curves of nearly evenly spaced vertices',
    'thorough': 'sequences of up to 6 points; curves of up to 8 vertices, 8 spacings, 48 orientations',
}
RULE = 'exhaustive point sequences and curves against exact arithmetic; a state is one configuration'
ASSUMPTIONS = ['coordinates along the span are strictly monotonic', 'the second finite difference of a curve is that of two successive '
               'first-order-edge central differences, the definition the code documents',
               'sign changes within rounding of zero are judged only on evenly spaced vertices, where they are exact']
FAMILIES = Families()

POINTS = [(0, 0, 0), (1, 0, 0), (0, 2, 0), (-3, 1, 1), (1, 1, 1), (0, 0, -5), (2, -1, 0.5)]
AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 0), (1, 1, 1), (0, -1, 2), (-1, -1, -1), (2, 0, 0), (1, 2, 3),
        (0.5, -0.5, 1), (0, 0, 0), (-3, 1, 0)]


def sequences(tier):
    for n in range(1, 5 if tier == 'quick' else 7):
        for s in itertools.product(range(len(POINTS)), repeat=n):
            if tier == 'quick' or n <= 5 or s[0] < 2:
                yield (list(s),)


@FAMILIES.family(sequences)
def extremes(ctx, chosen):
    from blmath.geometry import Polyline
    from blmath.geometry.apex import apex, farthest
    rows = [POINTS[i] for i in chosen]
    points = np.array(rows, dtype=float)
    before = freeze(points)
    for axis in AXES:
        best = max(dot(fv(r), fv(axis)) for r in rows)
        answers = [apex(points, np.array(axis, dtype=float))]
        if len(rows) > 1:
            answers += [Polyline(points, closed=c).apex(np.array(axis, dtype=float)) for c in (False, True)]
        for got in answers:
            require(np.shape(got) == (3,) and any(list(got) == list(r) for r in rows), 'apex of %s: %s is not one of the points', rows, got)
            require(dot(fv(got.tolist()), fv(axis)) == best, 'apex of %s along %s: %s', rows, axis, got)
            ctx.step()
        ctx.outcome('apex', sum(dot(fv(r), fv(axis)) == best for r in rows) > 1)
    for origin in ((0, 0, 0), (1, 1, 1), (-10, 0, 0), (0.5, 0, 0), (2, -1, 0.5)):
        squares = [norm2(sub(fv(r), fv(origin))) for r in rows]
        point, index = farthest(np.array(origin, dtype=float), points)
        what = 'farthest of %s from %s' % (rows, origin)
        require(0 <= index < len(rows) and list(point) == list(rows[index]), '%s: %s at %s', what, point, index)
        require_close(norm(sub(fv(rows[index]), fv(origin))), float(max(squares)) ** 0.5, '%s: distance of %s', what, point)
        ctx.step()
    require(freeze(points) == before, 'the points were changed')
    ctx.state(tuple(chosen))


SIZES = [2.0 ** -60, 2.0 ** 60, 2.0 ** -30, 2.0 ** -10, 2.0 ** 10, 2.0 ** 30]


@FAMILIES.family(lambda tier: product(SIZES, [(0, 0, 0), (100, -4096, 7)], itertools.product(range(len(POINTS)), repeat=3)))
def other_sizes(ctx, by, shift, chosen):
    """The extremes in other units, far away, of integer and single-precision points, along axes of other lengths."""
    from blmath.geometry import Polyline
    from blmath.geometry.apex import apex, farthest
    rows = [tuple((x + s) * by for x, s in zip(POINTS[i], shift)) for i in chosen]
    kinds = [float] + ([int, np.float32] if by == 2.0 ** 10 else [])
    for kind in kinds:
        points = np.array(rows).astype(kind)
        for axis in AXES[:13]:
            for length in (1.0, 2.0 ** -20, 2.0 ** 20):
                best = max(dot(fv(r), fv(axis)) for r in rows)
                got = apex(points, np.array(axis) * length)
                require(list(got) in [list(r) for r in rows] and dot(fv(got.tolist()), fv(axis)) == best, 'apex of %s along %s: %s', rows, axis, got)
                got = Polyline(points, closed=True).apex(np.array(axis) * length)
                require(dot(fv(got.tolist()), fv(axis)) == best, 'apex of the polyline %s along %s: %s', rows, axis, got)
                ctx.step(2)
        for origin in ((0, 0, 0), (1, 1, 1), (-10, 0, 0)):
            origin = [(x + s) * by for x, s in zip(origin, shift)]
            squares = [norm2(sub(fv(r), fv(origin))) for r in rows]
            point, index = farthest(np.array(origin).astype(kind), points)
            require(list(point) == list(rows[index]), 'farthest of %s from %s: %s at %s', rows, origin, point, index)
            require(float(squares[index]) >= float(max(squares)) * (1 - (1e-9 if kind is not np.float32 else 1e-5)), 'farthest of %s from %s: %s', rows, origin, point)
            ctx.step()
    ctx.state('size', by, tuple(shift), tuple(chosen))


@FAMILIES.family(lambda tier: product(range(16, 44, 1 if tier == 'thorough' else 3), range(3), itertools.permutations(range(4))))
def close_and_far(ctx, bits, k, order):
    """Points which differ in the last digits only."""
    from blmath.geometry import Polyline
    from blmath.geometry.apex import apex, farthest
    step = 2.0 ** -bits
    rows = [[0.0, 0.0, 0.0] for _ in range(4)]
    for i, o in enumerate(order):
        rows[i][k] = 64.0 + o * step
        rows[i][(k + 1) % 3] = [5.0, -3.0, 0.0, 1.0][o]
    points = np.array(rows)
    axis = np.eye(3)[k]
    top, low = rows[list(order).index(3)], rows[list(order).index(0)]
    for a, want in ((axis, top), (-axis, low), (axis * 2.0 ** 20, top)):
        require(apex(points, a).tolist() == want, 'apex of %s along %s', rows, a)
        require(Polyline(points, closed=True).apex(a).tolist() == want, 'apex of the polyline %s along %s', rows, a)
        ctx.step(2)
    line = np.zeros((4, 3))
    line[:, k] = points[:, k]
    if bits < 40:
        point, index = farthest(np.zeros(3), line)
        require(point[k] == line[:, k].max() and line[index, k] == point[k], 'farthest of %s from the origin: %s', line.tolist(), point)
        point, index = farthest(128 * axis, line)
        require(point[k] == line[:, k].min() and line[index, k] == point[k], 'farthest of %s: %s', line.tolist(), point)
    ctx.step(2)
    ctx.state('close', bits, k, tuple(order))


@FAMILIES.family(lambda tier: product([10, 257, 5000, 100000], range(6)))
def long_stacks(ctx, n, k):
    """The extreme one of many points, wherever it is."""
    from blmath.geometry.apex import apex, farthest
    i = np.arange(n)
    points = np.stack([i % 7, i * i % 11, i % 3], axis=1).astype(float)
    at = (n * k) // 6 if k < 5 else n - 1
    points[at] = (50, -60, 70)
    for axis in ((1, 0, 0), (0, -1, 0), (1, -1, 1)):
        require(apex(points, np.array(axis, dtype=float)).tolist() == [50, -60, 70], 'apex of %s points, at %s', n, at)
        ctx.step()
    for origin in ((0, 0, 0), (-3, 4, 0), (40, 40, 0)):
        point, index = farthest(np.array(origin, dtype=float), points)
        require(index == at and point.tolist() == [50, -60, 70], 'farthest of %s points, at %s: %s', n, at, index)
        ctx.step()
    ctx.state('long', n, k)


@FAMILIES.family(lambda tier: product(SIZES + [1.0], [0.5, 1, 4], [2.0 ** -10, 1.0, 2.0 ** 10], range(30 if tier == 'quick' else 243)))
def sized_curves(ctx, by, spacing, tall, k):
    """Inflection points of evenly spaced curves in other units, of longer curves, and along axes which are not of unit length."""
    from blmath.geometry.apex import inflection_points
    n = 6 if k % 3 else 64
    pattern = [(-1, 0, 3)[(k // 3 ** j) % 3] for j in range(5)] + [2]
    heights = [pattern[j % 6] + (j // 6) * (k % 2) for j in range(n)]
    x, y = [F(spacing) * j for j in range(n)], fv(heights)
    second = gradient(gradient(y, x), x)
    want = [j for j in range(n - 1) if second[j] * second[j + 1] <= 0]
    points = np.array([(float(a), float(b) * tall, (j % 2) * 5.0) for j, (a, b) in enumerate(zip(x, y))]) * by
    for span, axis in (((1, 0, 0), (0, 1, 0)), ((4, 0, 0), (0, 0.5, 0))):
        got = np.asarray(inflection_points(points, np.array(axis, dtype=float), np.array(span, dtype=float))).reshape(-1, 3)
        require(got.tolist() == points[want].tolist(), 'inflection points of heights %s at spacing %s, times %s: %s', heights, spacing, by, got.tolist())
        ctx.step()
    ctx.state('sized', by, spacing, tall, k)
    ctx.outcome('sized', min(3, len(want)))


def gradient(y, x):
    """Exact first derivative by finite differences, second order inside."""
    out = []
    for i in range(len(y)):
        if i == 0:
            out.append((y[1] - y[0]) / (x[1] - x[0]))
        elif i == len(y) - 1:
            out.append((y[-1] - y[-2]) / (x[-1] - x[-2]))
        else:
            h, k = x[i] - x[i - 1], x[i + 1] - x[i]
            out.append((h * h * y[i + 1] - k * k * y[i - 1] + (k * k - h * h) * y[i]) / (h * k * (h + k)))
    return out


SPACINGS = [[1], [0.5], [1, 2], [0.25, 3, 1], [4], [2, 1, 0.5], [8, 1], [1, 1, 3]]


def curves(tier):
    top, spacings = (6, 4) if tier == 'quick' else (8, 8)
    for n in range(3, top + 1):
        for heights in itertools.product((-1, 0, 1, 3) if n < 8 else (-1, 0, 3), repeat=n):
            yield (list(heights), spacings, 6 if tier == 'quick' else 12 if n > 6 else 48)


@FAMILIES.family(lambda tier: product([2.0 ** -b for b in range(2, 13, 2 if tier == 'quick' else 1)], [0, 3, 100], [5, 8, 13], range(9)))
def nearly_even(ctx, off, slope, n, k):
    """Vertices which are nearly, not quite, evenly spaced."""
    from blmath.geometry.apex import inflection_points
    x = [j + F(off) * (-1, 1, 0, 2)[(j * (1 + k % 3)) % 4] for j in range(n)]
    bend = [F(1), F(1, 64), F(-1, 8)][k // 3]
    y = [bend * a * (a - n // 2) * (1 if k % 2 else a - n) + slope * a for a in x]
    second = gradient(gradient(y, x), x)
    products = [second[j] * second[j + 1] for j in range(n - 1)]
    points = np.array([(float(a), float(b), 1.0) for a, b in zip(x, y)])
    got = np.asarray(inflection_points(points, np.array([0., 1, 0]), np.array([1., 0, 0]))).reshape(-1, 3)
    rows = [int(np.argmin(np.max(np.abs(points - g), axis=1))) for g in got]
    for j, p in enumerate(products):
        if abs(p) > F(1, 10 ** 9):
            require((j in rows) == (p < 0), 'inflection points of a curve at spacing 1 +- %s, slope %s: vertex %d', off, slope, j)
    require(n - 1 not in rows and rows == sorted(set(rows)), 'vertices %s', rows)
    ctx.step()
    ctx.state('nearly even', off, slope, n, k)


@FAMILIES.family(curves)
def inflections(ctx, heights, spacings, orientations):
    from blmath.geometry.apex import inflection_points
    n = len(heights)
    frames = signed_permutations()
    frames = [frames[(i * 48) // orientations] for i in range(orientations)]
    for spacing, falling in product(SPACINGS[:spacings], (1, -1)):
        x = [F(3)]
        for i in range(n - 1):
            x.append(x[-1] + falling * F(spacing[i % len(spacing)]))
        y = fv(heights)
        second = gradient(gradient(y, x), x)
        products = [second[i] * second[i + 1] for i in range(n - 1)]
        even = len(spacing) == 1
        for which in ([0] if n > 4 and falling < 0 else range(orientations)):
            frame = frames[which]
            e_span, e_axis, e_rest = [np.array(r, dtype=float) for r in frame]
            for drift in (0, 1):  # what lies across the plane of the curve does not matter
                points = np.array([float(a) * e_span + float(b) * e_axis + drift * (i % 2) * 7.0 * e_rest for i, (a, b) in enumerate(zip(x, y))])
                args = [points, e_axis, e_span]
                before = freeze(args)
                got = np.asarray(inflection_points(*args), dtype=float)
                require(freeze(args) == before, 'an argument was changed')
                got = got.reshape(-1, 3)
                rows = [int(np.argmin(np.max(np.abs(points - g), axis=1))) for g in got]
                what = 'inflection points of heights %s at %s' % (heights, [float(a) for a in x])
                require(all(list(points[r]) == list(g) for r, g in zip(rows, got)), '%s: not vertices: %s', what, got)
                require(rows == sorted(set(rows)), '%s: out of order or repeated: %s', what, rows)
                for i in range(n):
                    p = products[i] if i < n - 1 else F(1)
                    if p > F(1, 10 ** 9):
                        require(i not in rows, '%s: vertex %d is reported', what, i)
                    elif p < -F(1, 10 ** 9) or even:
                        require(i in rows, '%s: vertex %d is missing', what, i)
                ctx.step()
        ctx.outcome('inflections', min(3, sum(p <= 0 for p in products)))
        ctx.state(tuple(heights), tuple(spacing), falling)
