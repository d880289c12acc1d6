import itertools
from fractions import Fraction as F

import numpy as np

from mc.engine import Families, product, require
from mc.lib import add, cross, dot, fv, mul, norm2, require_close, require_refused

PROPERTY = 'C24'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every 3, 4 and 5 points out of a 3x3 grid that span a plane, 5 larger curves with repeats, x 12 planes (6 along axes) x 3 '
             'positions, open and closed, normal given and estimated, flattened or not; 4 displacements off the plane; '
             'likewise: curves in units of 2^-60 to 2^60 and 2^17 away; 15 x 15 tilts of 0 to 2 of the horizontal plane x 3 positions x 5 roundings of its normal',
    'thorough': 'additionally every 6 and 7 points, 5 positions, 3 orders of the points',
}
RULE = 'exhaustive planar curves against exact convex hulls and exact projections; a state is one curve and plane'
ASSUMPTIONS = ['normals given are unit vectors perpendicular (almost) to the curve', 'the points span a plane',
               'a point on an edge of the hull may or may not be listed']
FAMILIES = Families()

# orthogonal frames with rational unit vectors: normal, first and second direction in the plane
FRAMES = []
for s in (1, -1):
    for n, a, b in (((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 1, 0), (0, 0, 1), (1, 0, 0)), ((0, 0, 1), (1, 0, 0), (0, 1, 0)),
                    ((F(1, 3), F(2, 3), F(2, 3)), (F(2, 3), F(1, 3), F(-2, 3)), (F(-2, 3), F(2, 3), F(-1, 3))),
                    ((F(2, 7), F(-3, 7), F(6, 7)), (F(6, 7), F(-2, 7), F(-3, 7)), (F(3, 7), F(6, 7), F(2, 7))),
                    ((0, F(3, 5), F(-4, 5)), (1, 0, 0), (0, F(4, 5), F(3, 5)))):
        FRAMES.append(([s * x for x in n], a, b))
OFFSETS = [None, (0, 0, 0), (10, -20, 5), (0.25, 0, -1), (1000, 0, 300)]


def curves(tier):
    grid = [(0, 0), (4, 0), (8, 1), (-1, 3), (3, 4), (9, 5), (0, 8), (5, 9), (8, 7)]
    for k in (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6, 7):
        for c in itertools.combinations(grid, k):
            if spanning(c):
                yield list(c)
    square = [(0, 0), (4, 0), (4, 4), (0, 4)]
    yield square
    yield square + [(0, 0)]
    yield [(0, 0), (2, 0), (4, 0), (4, 4), (2, 2), (0, 4), (0, 2)]
    yield [(i * 5 % 12, i * i % 11) for i in range(12)]
    yield [(x, y) for x in range(5) for y in range(4)]


def spanning(c):
    return any((b[0] - a[0]) * (d[1] - a[1]) != (b[1] - a[1]) * (d[0] - a[0]) for a, b, d in itertools.combinations(c, 3))


def hull(points):
    """Indices of strict corners (one per place) and of everything on the boundary."""
    places = sorted(set(points))

    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and turn(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]

    corners = half(places) + half(places[::-1])
    edges = list(zip(corners, corners[1:] + corners[:1]))
    boundary = {i for i, p in enumerate(points) if any(turn(a, b, p) == 0 for a, b in edges)}
    return corners, boundary


def turn(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def gen(tier):
    for k, c in enumerate(curves(tier)):
        for frame in range(len(FRAMES)):
            for offset in range(3 if tier == 'quick' else 5):
                for order in range(1) if tier == 'quick' else range(3):
                    yield (c, frame, offset, order)


PLACES = [(2.**-20, None), (2.**-20, 1), (2.**20, None), (2.**20, 2), (1., (2**17, -2**16, 300)), (2.**-7, (64, 1, -50)), (2.**-30, 1), (2.**-60, None), (2.**60, 1)]


def elsewhere(tier):
    chosen = list(curves('quick'))
    chosen = chosen[-5:] + chosen[:30:6 if tier == 'quick' else 1]
    return product(chosen, range(len(FRAMES)), range(len(PLACES)))


def place(flat, frame, offset, lift=None, scale=1):
    n, a, b = [fv(x) for x in FRAMES[frame]]
    out = []
    for i, (x, y) in enumerate(flat):
        p = add(mul(a, F(x) * F(scale)), mul(b, F(y) * F(scale)))
        if lift:
            p = add(p, mul(n, F(lift[i])))
        out.append(p)
    mean = [sum(p[k] for p in out) / len(out) for k in range(3)]
    at = OFFSETS[offset] if isinstance(offset, int) else offset
    if at is None:
        return [[x - m for x, m in zip(p, mean)] for p in out]
    return [add(p, fv(at)) for p in out]


def check_ring(what, flat, indices):
    corners, boundary = hull(flat)
    seen = [flat[i] for i in indices]
    require(len(set(indices)) == len(indices) and set(indices) <= boundary, '%s: %s are not all on the hull', what, indices)
    require(set(corners) <= set(seen), '%s: %s misses a corner of the hull %s', what, indices, corners)
    ring = []
    for p in seen:
        if p in corners and (not ring or ring[-1] != p):
            ring.append(p)
    if len(ring) > 1 and ring[0] == ring[-1]:
        ring.pop()
    k = len(corners)
    at = corners.index(ring[0])
    turned = corners[at:] + corners[:at]
    require(ring == turned or ring == [turned[0]] + turned[:0:-1], '%s: corners in the order %s, expected around %s', what, ring, turned)


@FAMILIES.family(elsewhere)
def very_small_large_or_far(ctx, flat, frame, where):
    scale, offset = PLACES[where]
    planar(ctx, flat, frame, offset, 0, scale)


@FAMILIES.family(gen)
def planar(ctx, flat, frame, offset, order, scale=1):
    from blmath.geometry import Polyline
    from blmath.geometry.convexify import convexify_and_flatten_planar_curve, convexify_planar_curve
    flat = [tuple(p) for p in flat]
    flat = [flat, flat[::-1], flat[1::2] + flat[::2]][order]
    points = np.array([[float(x) for x in p] for p in place(flat, frame, offset, scale=scale)])
    normal = np.array([float(x) for x in FRAMES[frame][0]])
    size = np.abs(points).max()
    for closed in (True, False):
        for given in (None, normal):
            what = '%s in plane %d at %s, scale %s, normal %s' % (flat, frame, offset, scale, given)
            line = Polyline(points.copy(), closed=closed)
            result, indices = convexify_planar_curve(line, want_vertices=True, normal=given)
            indices = [int(i) for i in indices]
            check_ring(what, flat, indices)
            require(bool(result.closed) == closed and result is not line, '%s: closed changed', what)
            require(np.array_equal(result.v, points[indices]), '%s: vertices of the hull', what)
            alone = convexify_planar_curve(line, normal=given)
            require(np.array_equal(alone.v, result.v), '%s: the same with and without indices', what)
            for call in (lambda: convexify_planar_curve(line, flatten=True, want_vertices=True, normal=given),
                         lambda: convexify_and_flatten_planar_curve(line, True, given)):
                flatter, indices = call()
                indices = [int(i) for i in indices]
                check_ring(what + ', flattened', flat, indices)
                require(bool(flatter.closed) == closed, '%s: closed changed', what)
                require_close(flatter.v, points[indices], '%s: flattening a planar curve moves it', what, scale=size)
                ctx.step()
            for alone in (convexify_planar_curve(line, flatten=True, normal=given),
                          convexify_and_flatten_planar_curve(line) if given is None else convexify_and_flatten_planar_curve(line, normal=given)):
                require_close(alone.v, flatter.v, '%s: flattened, the same with and without indices', what, scale=size)
            require(np.array_equal(line.v, points) and bool(line.closed) == closed, '%s: the curve given was changed', what)
            ctx.step(3)
        ctx.outcome(closed, len(set(flat)) == len(indices))
    ctx.state(str(flat), frame, str(offset), scale)
    to_xz(ctx, flat, frame, offset, points, normal, size)


def to_xz(ctx, flat, frame, offset, points, normal, size):
    from blmath.geometry.transform.rotation import estimate_normal, rotate_to_xz_plane
    guess = estimate_normal(points)
    require(abs(np.linalg.norm(guess) - 1) < 1e-9, 'estimated normal %s is no unit vector', guess)
    require(abs(abs(float(guess.dot(normal))) - 1) < 1e-9, 'estimated normal %s of a plane with normal %s', guess, normal)
    for given in (normal, -normal, None):
        what = '%s in plane %d, normal %s' % (flat, frame, given)
        before = points.copy()
        rotated, R, p0 = rotate_to_xz_plane(points) if given is None else rotate_to_xz_plane(points, normal=given)
        require_close(R.dot(R.T), np.eye(3), '%s: rotation', what)
        require(np.linalg.det(R) > 0.5, '%s: a reflection', what)
        centre = points.mean(axis=0)
        if np.linalg.norm(centre) > 1e-4:
            require_close(p0, -centre, '%s: translation to the centre', what, scale=size)
        elif np.linalg.norm(centre) < 1e-6:
            require(p0 is None, '%s: already centred, but translated by %s', what, p0)
        moved = points if p0 is None else points + p0
        require_close(rotated, moved.dot(R.T), '%s: image', what, scale=size)
        require_close(rotated[:, 1], np.zeros(len(points)), '%s: height', what, scale=size)
        if given is not None:
            require_close(R.dot(given), [0, 1, 0], '%s: the normal goes to +y', what)
        require(np.array_equal(points, before), '%s: the points given were changed', what)
        ctx.step(2)


@FAMILIES.family(lambda tier: product(range(12), range(3), range(4), range(5)))
def almost_planar(ctx, frame, offset, lift, which):
    """Flattening is the projection to the plane through the centre."""
    from blmath.geometry import Polyline
    from blmath.geometry.convexify import convexify_planar_curve
    flat = list(curves('quick'))[-5:][which]
    lifts = [[F((i * (lift + 2)) % 5 - 2, 100 * (1 + lift)) for i in range(len(flat))]]
    points = np.array([[float(x) for x in p] for p in place(flat, frame, offset, lifts[0])])
    normal = np.array([float(x) for x in FRAMES[frame][0]])
    size = max(1.0, np.abs(points).max())
    line = Polyline(points.copy(), closed=True)
    result, indices = convexify_planar_curve(line, flatten=True, want_vertices=True, normal=normal)
    indices = [int(i) for i in indices]
    if which in (0, 3):
        check_ring('almost planar %s' % flat, flat, indices)
    centre = points.mean(axis=0)
    projected = points - np.outer((points - centre).dot(normal), normal)
    require_close(result.v, projected[indices], 'almost planar %s in plane %d: flattened', flat, frame, scale=size)
    steep, indices = convexify_planar_curve(line, want_vertices=True, normal=normal)
    require(np.array_equal(steep.v, points[indices]), 'almost planar: vertices of the hull are vertices of the curve')
    ctx.step(2)
    ctx.state('almost', frame, offset, lift, which)
    ctx.outcome('almost planar')


TILTS = [0, 1e-15, 1e-12, -1e-9, 1e-8, -1e-7, 1e-6, 5e-6, -9e-6, 9.9e-6, 1.1e-5, 1e-4, -1e-3, 0.1, -2]


@FAMILIES.family(lambda tier: product(TILTS, TILTS, [1, -1], range(3)))
def almost_horizontal(ctx, a, b, up, where):
    """The xz plane, tilted a little, or upside down, its normal as precise as floating-point numbers are."""
    from blmath.geometry.transform.rotation import rotate_to_xz_plane
    points = np.array([[x, 0, z] for x in (-2, 0, 1, 3) for z in (-1, 0, 2)], dtype=float)
    points[:, 1] = a * points[:, 0] + b * points[:, 2]
    points += [(0, 0, 0), (0, 0.5, 0), (7, -3, 1)][where]
    unit = up * np.array([-a, 1, -b]) / np.sqrt(a * a + b * b + 1)
    for given in (unit, unit * (1 + 2.0 ** -52), unit * (1 - 2.0 ** -53), unit * (1 + 1e-12), None):
        rotated, R, p0 = rotate_to_xz_plane(points) if given is None else rotate_to_xz_plane(points, normal=given)
        what = 'tilted by %s and %s, normal %s' % (a, b, given)
        require_close(R.dot(R.T), np.eye(3), '%s: rotation', what)
        require(np.linalg.det(R) > 0.5, '%s: a reflection', what)
        if given is not None:
            require_close(R.dot(unit), [0, 1, 0], '%s: the normal goes to +y', what)
        require_close(rotated, (points if p0 is None else points + p0).dot(R.T), '%s: image', what)
        require_close(rotated[:, 1], np.zeros(len(points)) + (0 if p0 is not None else R[1].dot(points.mean(axis=0))), '%s: height', what)
        ctx.step()
    ctx.state('tilted', a, b, up, where)
    ctx.outcome('tilted')


@FAMILIES.family(lambda tier: product(range(2), [False, True], [False, True]))
def hardly_anything(ctx, n, flatten, closed):
    from blmath.geometry import Polyline
    from blmath.geometry.convexify import convexify_planar_curve
    from blmath.geometry.transform.rotation import rotate_to_xz_plane
    line = Polyline(np.array([[1., 2., 3.]])[:n], closed=closed)
    got = convexify_planar_curve(line, flatten=flatten)
    require_close(got.v, np.array([[1., 2., 3.]])[:n], 'a curve of %d points stays as it is', n)
    require(bool(got.closed) == closed, 'closed changed')
    for nothing in (None, [], np.zeros((0, 3))):
        require_refused('no points', lambda: rotate_to_xz_plane(nothing), ValueError)
    ctx.step(4)
    ctx.state('hardly', n, flatten, closed)
