import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc.engine import Families, product, require
from mc.lib import add, dot, fv, mul, norm2, require_close, sub

PROPERTY = 'C10'
LEVEL = 'exploration'
BOUNDS = {
    'quick': '20 normals (6 along axes) x 5 reference points x every line and segment between points of a {-1,0,2}^3 grid, at 3 scales, '
             'one at a time, in stacks of 27, in stacks of 729, and empty stacks; '
             'likewise: grids in units of 2^-40 to 2^20 and far away with rays stretched by 2^-40 to 2^30, integer end points, stacks of 257 to 65537 lines',
    'thorough': '32 normals (6 along axes) x 9 reference points x every line and segment between points of a {-1,0,1,2.5}^3 grid (4096), at 3 scales',
}
RULE = ('every pair of points of a grid as a line and as a segment against planes, compared with the exact rational intersection; '
        'a state is one plane, start point and scale')
ASSUMPTIONS = ['exact incidences (parallel lines, segments which end on the plane) are judged only for axis-aligned planes at dyadic '
               'positions, whose arithmetic is exact']
FAMILIES = Families()


def normals(tier):
    axes = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    more = [(1, 1, 0), (0, 1, -1), (1, 1, 1), (1, -1, 1), (1, 2, 3), (-3, 1, 0.5), (5, -1, 7), (0, 2, 1),
            (10, 1, 0), (2, -2, 1), (0, 1, 10), (-1, -2, -2), (3, 0, 4), (100, 1, -1)]
    if tier == 'thorough':
        more += [(1, 0, -2), (7, -3, 2), (-1, 4, 4), (0.01, 1, 0), (0, -3, -5), (2, 5, -1), (9, 9, 1), (-6, 1, 1), (1, 3, -2),
                 (4, -7, 0), (0, 1, 1), (1, -10, 3)]
    return axes + more


def refs(tier):
    out = [(0, 0, 0), (0.5, 0.25, -0.5), (1, 1, 1), (-1, 2, 0), (16, 16, -16)]
    if tier == 'thorough':
        out += [(0, 0, 2), (-0.125, 0, 1.5), (2, -1, 0.0625), (-1, -1, -1)]
    return out


def grid(tier):
    return list(itertools.product((-1, 0, 2) if tier == 'quick' else (-1, 0, 1, 2.5), repeat=3))


@FAMILIES.family(lambda tier: ((tier, n, r, a) for n in normals(tier) for r in refs(tier) for a in grid(tier)))
def from_one_point(ctx, tier, normal, ref, a):
    """All lines and segments from one point."""
    from blmath.geometry import Plane
    for scale, shift in PLACES:
        axis = sum(1 for x in normal if x) == 1
        place = lambda p: [F(x) * F(scale) + F(s) for x, s in zip(p, shift)]
        r = place(ref)
        plane = Plane(np.array([float(x) for x in r]), np.array(normal, dtype=float))
        ends = [place(b) for b in grid(tier)]
        judge(ctx, plane, normal, r, axis, [place(a)] * len(ends), ends, unit=scale * 64 if not any(shift) else max(map(abs, shift)),
              singly=scale != 64, away=any(shift))
        ctx.state('from', tuple(normal), tuple(ref), tuple(a), scale, tuple(shift))


# (scale, shift) of the whole configuration
PLACES = [(1, (0, 0, 0)), (0.125, (0, 0, 0)), (64, (0, 0, 0)), (2.**-40, (0, 0, 0)), (2.**-70, (0, 0, 0)), (2.**70, (0, 0, 0)), (2.**20, (0, 0, 0)), (0.5, (1024, -512, 2048))]
STRETCH = [1, 2.**-40, -1, 2.**30, -2.**-10]


@FAMILIES.family(lambda tier: ((tier, n, r) for n in normals(tier) for r in refs(tier) if all(x == int(x) for x in n + r)))
def whole_numbers(ctx, tier, normal, ref):
    """Everything given as integer arrays."""
    from blmath.geometry import Plane
    axis = sum(1 for x in normal if x) == 1
    plane = Plane(np.array(ref, dtype=int), np.array(normal, dtype=int))
    pairs = [(fv(a), fv(b)) for a in itertools.product((-1, 0, 2), repeat=3) for b in itertools.product((-2, 1, 3), repeat=3)]
    judge(ctx, plane, normal, fv(ref), axis, [p[0] for p in pairs], [p[1] for p in pairs], singly=False, dtype=int)
    judge(ctx, plane, normal, fv(ref), axis, [p[0] for p in pairs[::7]], [p[1] for p in pairs[::7]], dtype=int)
    ctx.state('whole', tuple(normal), tuple(ref))


@FAMILIES.family(lambda tier: product([257, 1025, 4097, 6000, 8193, 65537] if tier == 'quick' else [2 ** k + d for k in range(6, 18) for d in (0, 1)] + [1001, 6000, 10001, 140000], [(1, 0, 0), (1, 2, -2)]))
def very_many(ctx, count, normal):
    """A long stack, whose kinds of pairs repeat with a period, so that every
    position of the stack has a known answer."""
    from blmath.geometry import Plane
    pairs = [(fv(a), fv(b)) for a in itertools.product((-1, 0, 2), repeat=3) for b in ((0.25, 1, 3), (3, -2, 0.25), (-1, -1, -1))]
    plane = Plane(np.array([0.5, 0., 0.]), np.array(normal, dtype=float))
    a = np.array([[float(x) for x in p[0]] for p in pairs])
    b = np.array([[float(x) for x in p[1]] for p in pairs])
    reps = -(-count // len(pairs))
    for fn, second in ((plane.line_xsections, b - a), (plane.line_segment_xsections, b)):
        few, valid = fn(a, second)
        many, many_valid = fn(np.tile(a, (reps, 1))[:count], np.tile(second, (reps, 1))[:count])
        require(many.shape == (count, 3) and many_valid.shape == (count,), 'shapes %s %s', many.shape, many_valid.shape)
        wrong = np.flatnonzero(many_valid != np.tile(valid, reps)[:count])
        require(not len(wrong), '%d of %d pairs: valid differs from a short stack at %s', len(wrong), count, wrong[:5])
        expected = np.tile(few, (reps, 1))[:count]
        wrong = np.flatnonzero(~np.all(np.isclose(many, expected, rtol=1e-9, atol=1e-12, equal_nan=True), axis=1))
        require(not len(wrong), '%d of %d pairs: points differ from a short stack at %s', len(wrong), count, wrong[:5])
        ctx.step()
    judge(ctx, plane, normal, fv((0.5, 0, 0)), sum(map(abs, normal)) == 1, [p[0] for p in pairs], [p[1] for p in pairs])
    ctx.state('many', count, tuple(normal))


@FAMILIES.family(lambda tier: ((tier, n, r) for n in normals(tier) for r in refs(tier)))
def all_at_once(ctx, tier, normal, ref):
    from blmath.geometry import Plane
    axis = sum(1 for x in normal if x) == 1
    plane = Plane(np.array(ref, dtype=float), np.array(normal))
    pairs = [(fv(a), fv(b)) for a in grid(tier) for b in grid(tier)]
    judge(ctx, plane, normal, fv(ref), axis, [p[0] for p in pairs], [p[1] for p in pairs], singly=False)
    judge(ctx, plane, normal, fv(ref), axis, [], [])
    for k in (1, 2):
        for at in (5, 100, 333):
            part = pairs[at:at + k]
            judge(ctx, plane, normal, fv(ref), axis, [p[0] for p in part], [p[1] for p in part])
    ctx.state('all', tuple(normal), tuple(ref))


def judge(ctx, plane, normal, ref, axis, starts, ends, singly=True, unit=64., away=False, dtype=float):
    n = fv(normal)
    line, segment, keep = [], [], []
    size = math.sqrt(norm2(n))
    for a, b in zip(starts, ends):
        ray = sub(b, a)
        da, denom = dot(n, sub(ref, a)), dot(n, ray)
        if denom == 0:
            line.append(None)
            segment.append(None)
            keep.append(axis)
            continue
        t = F(da) / denom
        hit = add(a, mul(ray, t))
        line.append(hit)
        segment.append(hit if 0 <= t <= 1 else None)
        keep.append(axis or (abs(t) > 1e-9 and abs(t - 1) > 1e-9))
    chosen = [i for i, k in enumerate(keep) if k]
    a = np.array([[float(x) for x in starts[i]] for i in chosen]).reshape(-1, 3).astype(dtype)
    b = np.array([[float(x) for x in ends[i]] for i in chosen]).reshape(-1, 3).astype(dtype)
    rays = b - a
    stretched = rays * np.array([STRETCH[i % len(STRETCH)] for i in range(len(chosen))]).reshape(-1, 1)
    for name, fn, second, want in (('lines', plane.line_xsections, rays, line), ('lines', plane.line_xsections, stretched, line),
                                   ('segments', plane.line_segment_xsections, b, segment)):
        before = a.copy(), second.copy()
        pts, valid = fn(a, second)
        want = [want[i] for i in chosen]
        what = '%s and the plane through %s with normal %s' % (name, [float(x) for x in ref], normal)
        require(np.array_equal(a, before[0]) and np.array_equal(second, before[1]), '%s: an argument was changed', what)
        require(pts.shape == (len(chosen), 3) and valid.shape == (len(chosen),), '%s: shapes %s, %s', what, pts.shape, valid.shape)
        for i, w in enumerate(want):
            require(bool(valid[i]) == (w is not None), '%s: %s to %s: valid %s, expected %s', what, a[i], b[i], valid[i], w is not None)
            if w is None:
                require(np.all(np.isnan(pts[i])), '%s: %s to %s: no intersection, but a point %s', what, a[i], b[i], pts[i])
        hits = [i for i, w in enumerate(want) if w is not None]
        if hits:
            require_close(pts[hits], [[float(x) for x in want[i]] for i in hits], what, scale=unit)
        ctx.step(len(want))
        ctx.outcome(name, len(hits) > 0)
        if not singly:
            continue
        one = plane.line_xsection if name == 'lines' else plane.line_segment_xsection
        for i, w in enumerate(want):
            for x, y in ((a[i], second[i]), (a[i].tolist(), second[i:i + 1])):
                got = one(x, y)
                require((got is None) == (w is None), '%s: %s to %s: got %s, expected %s', what, a[i], b[i], got,
                        None if w is None else [float(c) for c in w])
                if w is not None:
                    require_close(got, [float(c) for c in w], '%s: %s to %s', what, a[i], b[i], scale=unit)
                ctx.step()
