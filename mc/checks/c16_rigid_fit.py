import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc import env
from mc.engine import Families, product, require
from mc.lib import cross, cube_rotations, det, fv, rank, require_close, require_refused, signed_permutations

PROPERTY = 'C16'
LEVEL = 'exploration'
BOUNDS = {
    'quick': '16 point sets (1-12 points; solid, planar, colinear, coincident) x the 48 signed permutations and 6 other rotations x 4 '
             'translations and scales x both layouts; every displacement of one or two coordinates of 4 point sets by -1, 0, 1; '
             'likewise: point sets in units of 2^-60 to 2^60 and 2000 away, a set of 1500 points, single points of size 2^-60 to 2^60; nearly flat sets thinned by 2 to 4096 and their mirror images, 7-4100 points which do not fit; fits shown in a viewer (a stand-in which records)',
    'thorough': 'additionally 60 other rotations, and every displacement of three coordinates',
}
RULE = ('exhaustive motions and displacements of small point sets; the residual is compared with the optimum computed with quaternions '
        '(Horn); a state is one pair of point sets')
ASSUMPTIONS = ['points of the single-point and scaling cases are not all at the origin',
               'a 3x3 array holds its points in columns']
FAMILIES = Families()

SETS = {
    'corner': [(0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 3)],
    'solid': [(1, 2, 3), (-1, 0, 2), (4, 4, -1), (0, -3, 0), (2, 2, 2)],
    'cube': list(itertools.product((-1, 1), repeat=3)),
    'twelve': [(i, i * i % 5, (3 * i) % 7 - 2) for i in range(12)],
    'planar': [(0, 0, 0), (4, 0, 0), (0, 2, 0), (5, 7, 0)],
    'tilted plane': [(0, 0, 1), (4, 0, -3), (0, 2, 3), (5, 7, 3), (1, -1, -1)],
    'triangle': [(1, 0, 0), (3, 1, 0), (0, 2, 5)],
    'line': [(0, 0, 0), (1, 2, 2), (3, 6, 6), (-2, -4, -4)],
    'pair': [(1, 1, 0), (2, -1, 4)],
    # not on a line, a plane exactly once the coordinates are rounded
    'tenths': [(F(k, 10), F(7 * k, 10) + F(1, 3), F(-3 * k, 7)) for k in (0, 1, 2, 3, 5, 8, 11)],
    'thirds': [(F(k, 3), F(2 * k, 7), F(k, 5)) for k in (-4, 1, 2, 6)],
    'plane in tenths': [(F(k, 10), F(7 * j, 10) + F(1, 3), F(-3 * k + j, 7)) for k in (0, 1, 2) for j in (0, 1, 5)],
    'point': [(2, -3, 1)],
    'point on axis': [(0, 5, 0)],
    'coincident': [(1, 2, 3)] * 4,
    'square': [(1, 1, 0), (-1, 1, 0), (-1, -1, 0), (1, -1, 0)],
    'many': [(i % 17, i * i % 23, (3 * i) % 41 - 20) for i in range(1500)],
}


def quaternion(q):
    w, x, y, z = [F(c) for c in q]
    n = w * w + x * x + y * y + z * z
    return [[(w * w + x * x - y * y - z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n],
            [2 * (x * y + w * z) / n, (w * w - x * x + y * y - z * z) / n, 2 * (y * z - w * x) / n],
            [2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, (w * w - x * x - y * y + z * z) / n]]


def rotations(tier):
    out = [(tuple(map(tuple, m))) for m in signed_permutations()]
    quats = [(1, 2, 0, 0), (3, 1, 0, 2), (1, 1, 1, -3), (100, 1, 0, 0), (0, 1, 2, 3), (-1, 5, 2, 1)]
    if tier == 'thorough':
        quats = [q for q in itertools.product((0, 1, 2), (-1, 1), (0, 2, -3), (1, -2, 5))][:60]
    return out + [tuple(tuple(float(x) for x in r) for r in quaternion(q)) for q in quats]


def motions(tier):
    return product(sorted(SETS), rotations(tier), range(len(VARIANTS)))


def residual(R, T, a, b):
    return float(np.sum((R.dot(a) + T - b) ** 2))


def best(a, b):
    """Least sum of squares over rotations about the origin (Horn's quaternion method)."""
    S = a.dot(b.T)
    d = np.array([S[1, 2] - S[2, 1], S[2, 0] - S[0, 2], S[0, 1] - S[1, 0]])
    N = np.zeros((4, 4))
    N[0, 0] = np.trace(S)
    N[0, 1:] = N[1:, 0] = d
    N[1:, 1:] = S + S.T - np.trace(S) * np.eye(3)
    return float(np.sum(a ** 2) + np.sum(b ** 2) - 2 * np.linalg.eigvalsh(N)[-1])


def is_rotation(R, what):
    require(np.shape(R) == (3, 3), '%s: shape %s', what, np.shape(R))
    require_close(R.dot(R.T), np.eye(3), '%s: orthonormal', what)
    require(np.linalg.det(R) > 0.5, '%s: a reflection', what)


# scale, translation, position of the points
VARIANTS = [(1, (0, 0, 0), (0, 0, 0)), (1, (5, -3, 100), (0, 0, 0)), (1000, (1, 2, 3), (0, 0, 0)), (0.0625, (-7, 0.5, 0), (0, 0, 0)),
            (1, (2.**-8, -2.**-9, 0), (1024, -2048, 512)), (2.**-24, (0, 2.**-26, 2.**-25), (0, 0, 0)), (2.**20, (1, 0, -4), (0, 0, 0)), (2.**-60, (0, 2.**-62, 2.**-61), (0, 0, 0)), (2.**60, (1, 0, -4), (0, 0, 0)),
            (1, (0, 2.**-12, 0), (64, 1, 0))]


@FAMILIES.family(motions)
def moved(ctx, name, rotation, variant):
    """b is a moved by a rigid motion, or mirrored."""
    from blmath.geometry.transform.rigid_transform import find_rigid_transform, find_rigid_rotation
    scale, shift, at = VARIANTS[variant]
    a = np.array(SETS[name], dtype=float).T * scale
    R0 = np.array(rotation, dtype=float)
    t0 = np.array(shift, dtype=float).reshape(3, 1)
    if any(at):
        # far from the origin, and turned about a place nearby
        at = np.array(at, dtype=float).reshape(3, 1)
        a = a + at
        t0 = t0 + at - R0.dot(at)
    b = R0.dot(a) + t0
    proper = np.linalg.det(R0) > 0
    centred = [[F(x) - F(sum(p[k] for p in SETS[name]), len(SETS[name])) for k, x in enumerate(p)] for p in SETS[name]]
    spans = rank(centred)
    what = '%s moved by %s, %s' % (name, rotation, shift)
    size = max(np.abs(a).max(), np.abs(b).max())
    n = a.shape[1]
    layouts = [(a, b)] if n == 3 else [(a, b), (a.T, b.T), (a.T.copy(), b), (a, b.T.copy())]
    for x, y in layouts:
        before = x.copy(), y.copy()
        ctx.step()
        if spans == 3 and not proper:
            require_refused(what, lambda: find_rigid_transform(x, y), ValueError)
            ctx.outcome('mirror image refused')
        else:
            R, T = find_rigid_transform(x, y)
            is_rotation(R, what)
            require(np.shape(T) == (3, 1), '%s: translation of shape %s', what, np.shape(T))
            require_close(R.dot(a) + T, b, '%s: image', what, scale=size, tol=1e-9 if not np.any(at) else 1e-11)
            if spans >= 2 and proper:
                require_close(R, R0, '%s: rotation', what, tol=1e-7)
            ctx.outcome('recovered', spans)
        require(np.array_equal(x, before[0]) and np.array_equal(y, before[1]), '%s: an argument was changed', what)
    ctx.state(name, str(rotation), variant)
    if np.any(at):
        return
    # about the origin, with and without a change of size
    c = R0.dot(a)
    flat = rank(SETS[name]) < 3
    for k in (1.0, 2.5):
        for scaling in (False, True):
            R = find_rigid_rotation(a, k * c, allow_scaling=scaling)
            ctx.step()
            if scaling:
                R = R / k
            is_rotation(R, what)
            if proper or flat:
                require_close(R.dot(a), c, '%s: image about the origin, %s times as large, scaling=%s', what, k, scaling, scale=size)
            else:
                got, least = residual(R, 0, a, c), best(a, c)
                require(got <= least + 1e-9 * n * size ** 2, '%s: squared error %s about the origin, least %s', what, got, least)


def displacements(tier):
    for name in ('corner', 'planar', 'solid', 'triangle') if tier == 'quick' else ('corner', 'planar', 'solid', 'triangle', 'line', 'pair', 'cube'):
        n = len(SETS[name])
        slots = list(itertools.product(range(n), range(3)))
        for r in (0, 3, 10, 23):
            for k in (1, 2) if tier == 'quick' else (1, 2, 3):
                for which in itertools.combinations(slots, k):
                    for amount in itertools.product((1, -1), repeat=k):
                        yield (name, r, which, amount)


@FAMILIES.family(displacements)
def displaced(ctx, name, r, which, amount):
    """b is a rotated and some coordinates displaced by one unit: the least-squares answer."""
    from blmath.geometry.transform.rigid_transform import find_rigid_transform, find_rigid_rotation
    points = [fv(p) for p in SETS[name]]
    rotation = cube_rotations()[r]
    image = [[sum(rotation[i][j] * p[j] for j in range(3)) + 2 for i in range(3)] for p in points]
    for (i, j), d in zip(which, amount):
        image[i][j] += d
    n = len(points)

    def centre(ps):
        m = [sum(p[k] for p in ps) / n for k in range(3)]
        return [[p[k] - m[k] for k in range(3)] for p in ps]

    ca, cb = centre(points), centre(image)
    cov = [[sum(x[i] * y[j] for x, y in zip(ca, cb)) for j in range(3)] for i in range(3)]
    d = det(cov)
    a, b = [np.array([[float(x) for x in p] for p in ps]).T for ps in (points, image)]
    what = '%s turned by %s, displaced %s by %s' % (name, rotation, which, amount)
    ctx.step()
    if d < 0:
        require_refused(what, lambda: find_rigid_transform(a, b), ValueError)
        ctx.outcome('mirror image refused')
    else:
        R, T = find_rigid_transform(a, b)
        is_rotation(R, what)
        fa, fb = [np.array([[float(x) for x in p] for p in ps]).T for ps in (ca, cb)]
        got, least = residual(R, T, a, b), best(fa, fb)
        require(got <= least + 1e-8, '%s: squared error %s, least possible %s', what, got, least)
        ctx.outcome('fitted', d == 0)
    for scaling in (False, True):
        R = find_rigid_rotation(a, b, allow_scaling=scaling)
        ctx.step()
        if scaling:
            k = np.linalg.norm(b) / np.linalg.norm(a)
            R = R / k
        is_rotation(R, what)
        got, least = residual(R, 0, a, b), best(a, b)
        require(got <= least + 1e-8, '%s: squared error about the origin %s, least possible %s', what, got, least)
    ctx.state(name, r, str(which), str(amount))


@FAMILIES.family(lambda tier: product([7, 20, 50, 100, 300, 500, 513, 1000, 1025, 4100] + ([20000] if tier != 'quick' else []), range(4), (1.0, 2.0 ** -20, 2.0 ** 20)))
def many_displaced(ctx, n, r, by):
    """Many points which do not fit exactly: the least-squares answer all the same."""
    from blmath.geometry.transform.rigid_transform import find_rigid_transform, find_rigid_rotation
    k = np.arange(n)
    a = by * np.array([k * k % 17 - 8, (3 * k + 5) % 23 - 11, k * k * k % 13 - 6], dtype=float)
    R0 = np.array(rotations('quick')[48 + r])
    b = R0.dot(a) + by * np.array([[3.], [-1], [8]]) + by * np.array([k % 5 - 2, (k % 7 == 0) * 4, k * k % 3 - 1], dtype=float)
    ca, cb = [x - x.mean(axis=1)[:, None] for x in (a, b)]
    size = np.abs(a).max() ** 2 * n
    for x, y in ((a, b), (a.T, b.T)):
        R, T = find_rigid_transform(x, y)
        is_rotation(R, '%d points' % n)
        got, least = residual(R, T, a, b), best(ca, cb)
        require(got <= least + 1e-10 * size, '%d points: squared error %s, least possible %s', n, got, least)
        ctx.step()
    R = find_rigid_rotation(a, b)
    is_rotation(R, '%d points' % n)
    require(residual(R, 0, a, b) <= best(a, b) + 1e-10 * size, '%d points about the origin', n)
    S = find_rigid_rotation(a, b, allow_scaling=True)
    require_close(S, R * (np.linalg.norm(b) / np.linalg.norm(a)), '%d points, scaled', n)
    ctx.step(2)
    ctx.state('many', n, r, by)


@FAMILIES.family(lambda tier: product(range(1, 13), range(3), range(24), (1.0, 2.0 ** -20, 2.0 ** 20)))
def thin(ctx, bits, k, r, by):
    """Nearly flat points: their image is recovered, their mirror image refused."""
    from blmath.geometry.transform.rigid_transform import find_rigid_transform
    for name in ('cube', 'corner', 'twelve'):
        a = by * np.array(SETS[name], dtype=float).T
        a[k] *= 2.0 ** -bits
        R0 = np.array([[float(x) for x in row] for row in cube_rotations()[r]])
        t0 = by * np.array([[1.], [-2], [3]])
        b = R0.dot(a) + t0
        what = '%s thinned %s times along %s' % (name, 2 ** bits, k)
        R, T = find_rigid_transform(a, b)
        is_rotation(R, what)
        require_close(R.dot(a) + T, b, '%s: image', what, scale=by)
        flip = np.eye(3)
        flip[k, k] = -1
        require_refused('%s, mirrored' % what, lambda: find_rigid_transform(a, R0.dot(flip).dot(a) + t0), ValueError)
        ctx.step(2)
    ctx.state('thin', bits, k, r, by)


def directions(tier):
    r = (-1, 0, 2) if tier == 'quick' else (-2, -1, 0, 1, 3)
    d = [x for x in itertools.product(r, repeat=3) if any(x)]
    return product(d, d, [1, 0.125, 2.**-30, 2.**30, 2.**-60, 2.**60])


@FAMILIES.family(directions)
def single_point(ctx, a, b, scale):
    """One point: its direction is turned to the other direction, the shortest way."""
    from blmath.geometry.transform.rigid_transform import find_rigid_rotation, find_rigid_transform
    x, y = [np.array(p, dtype=float).reshape(3, 1) * scale for p in (a, b)]
    axis = np.array([float(c) for c in cross(fv(a), fv(b))])
    na, nb = np.linalg.norm(x), np.linalg.norm(y)
    R = find_rigid_rotation(x, y)
    is_rotation(R, '%s to %s' % (a, b))
    require_close(R.dot(x), y * na / nb, '%s (times %s) turned to the direction of %s', a, scale, b, scale=scale)
    if np.any(axis):
        require_close(R.dot(axis), axis, '%s turned to %s: the axis stays', a, b)
    S = find_rigid_rotation(x, y, allow_scaling=True)
    is_rotation(S * na / nb, '%s to %s' % (a, b))
    require_close(S.dot(x), y, '%s turned and scaled to %s', a, b, scale=scale)
    R, T = find_rigid_transform(x, y)
    is_rotation(R, '%s to %s' % (a, b))
    require_close(R.dot(x) + T, y, '%s moved to %s', a, b, scale=scale)
    ctx.step(3)
    ctx.state('single', tuple(a), tuple(b), scale)


def views(tier):
    return product(sorted(SETS), rotations(tier), ('opened', 'given'))


@FAMILIES.family(views)
def shown(ctx, name, rotation, viewer):
    """A fit which is shown is the fit, and what is shown is both sets and the image."""
    from blmath.geometry.transform.rigid_transform import find_rigid_transform
    env.with_lace()
    from lace.meshviewer import MeshViewer
    a = np.array(SETS[name], dtype=float).T
    b = np.array(rotation, dtype=float).dot(a) + np.array([[5.], [-3.], [100.]])
    try:
        want = find_rigid_transform(a, b)
    except ValueError:
        ctx.outcome('mirror image refused')
        return
    what = '%s turned by %s, shown' % (name, rotation)
    del MeshViewer.opened[:]
    if viewer == 'opened':
        R, T = find_rigid_transform(a, b, visualize=True)
        require(len(MeshViewer.opened) == 1, '%s: %s viewers opened', what, len(MeshViewer.opened))
        window = MeshViewer.opened[0]
    else:
        window = MeshViewer()
        R, T = find_rigid_transform(a, b, visualize=window)
        require(len(MeshViewer.opened) == 1, '%s: another viewer than the given one was opened', what)
    ctx.step(2)
    require_close(R, want[0], '%s: rotation', what)
    require_close(T, want[1], '%s: translation', what, scale=1e3)
    require(len(window.shown) == 3, '%s: %s meshes', what, len(window.shown))
    for got, points in zip(window.shown, (a, b, R.dot(a) + T)):
        require(np.shape(got) == points.T.shape, '%s: a mesh with vertices of shape %s', what, np.shape(got))
    wanted = [a.T, b.T, (R.dot(a) + T).T]
    for points in wanted:
        require(any(np.allclose(points, got, rtol=0, atol=1e-9 * np.abs(points).max()) for got in window.shown), '%s: %s is not shown', what, points)
    ctx.state('shown', name, str(rotation), viewer)


def spots(tier):
    return product(sorted(SETS), [None, (0, 0, 0), (1, -2, 3), (0.5, 1e3, 0)])


@FAMILIES.family(spots)
def translations(ctx, name, by):
    from blmath.geometry.transform.translation import translation
    points = np.array(SETS[name], dtype=float)
    before = points.copy()
    factor = None if by is None else np.array(by)
    image, used = translation(points) if by is None else translation(points, factor)
    mean = points.sum(axis=0) / len(points)
    want = -mean if by is None else np.array(by)
    require_close(used, want, 'translation factor of %s', name)
    require_close(image, points + want, '%s translated', name, scale=1e3)
    if by is None:
        require_close(image.mean(axis=0), [0, 0, 0], '%s centred', name)
    require(np.array_equal(points, before) and not np.shares_memory(points, image), 'the points given were changed')
    back = translation(image, -used)[0]
    require_close(back, points, '%s translated back', name, scale=1e3)
    ctx.step(2)
    ctx.state('translation', name, str(by))
