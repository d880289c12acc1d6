import itertools
from fractions import Fraction as F

import numpy as np

from mc.engine import Families, require
from mc.lib import add, dot, fv, mul, require_close, require_refused, sgn, sub

PROPERTY = 'C14'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every side pattern (front or back) of 1-8 vertices, open and closed, against 6 planes; every polyline of 1-4 vertices on a '
             '7-point lattice, open and closed, against 5 planes; single runs at every place and of every length in 12 vertices; '
             'likewise: side patterns in units of 2^-60 to 2^60 and far away, polylines of 40 and 300 vertices; open polylines of up to 7 vertices which start or end on the plane',
    'thorough': 'side patterns of up to 12 vertices; polylines of 1-5 vertices on the lattice; 10 planes; up to 10 vertices with an end on the plane',
}
RULE = ('every side pattern and every small lattice polyline against exact intersections and the run of vertices in front; a state is one '
        'polyline and plane; non-trivial when they meet')
ASSUMPTIONS = ['no vertex of the polyline lies on the plane, other than the first or the last of an open one']
FAMILIES = Families()

PLANES = [
    ((0, 0, 1), (0, 0, 0)), ((-1, 0, 0), (0.5, 3, 3)), ((0, 1, 0), (7, -2.25, 0)),
    ((1, 2, 2), (1, -4, 0.5)), ((2, -3, 6), (100, 20, -30)), ((1, -1, 0), (0.125, 0, 9)),
    ((1, 1, 1), (0, 0, 0.375)), ((-3, 1, 0.5), (1, 1, 1)), ((0, -1, 4), (0, 0, 0.1)), ((0, 0, -1), (5, 5, 2.5)),
]


def basis(normal):
    """Two exact directions in the plane."""
    n = fv(normal)
    i = max(range(3), key=lambda k: abs(n[k]))
    out = []
    for k in range(3):
        if k != i:
            e = [F(0)] * 3
            e[k] = F(1)
            e[i] = -n[k] / n[i]
            out.append(e)
    return out


def patterns(tier):
    top, planes = (8, 6) if tier == 'quick' else (12, 6)
    for n in range(1, top + 1):
        for side in range(1 << n):
            for plane in range(planes):
                if n > 10 and plane not in (side % 6, 3):
                    continue
                yield (n, side, plane)
    for start in range(12):
        for length in range(1, 12):
            side = sum(1 << ((start + k) % 12) for k in range(length))
            yield (12, side, (start + length) % 6)


@FAMILIES.family(patterns)
def side_pattern(ctx, n, side, plane):
    normal, ref = PLANES[plane]
    e1, e2 = basis(normal)
    v = []
    for i in range(n):
        h = F(4 + i % 5, 4) if side >> i & 1 else F(-(3 + 2 * i % 7), 4)
        p = add(fv(ref), mul(fv(normal), h))
        v.append(add(p, add(mul(e1, F(i * i % 11 - 4)), mul(e2, F(3 * i % 7)))))
    for closed in (False, True):
        judge(ctx, ('side', n, side, plane, closed), v, closed, normal, ref)


LATTICE = [(0, 0, 0), (1, 2, 3), (-2, 1, 0), (4, -1, -1), (0, 0, 5), (1, -3, 2), (-3, -3, -3)]


def lattice(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for v in itertools.product(range(7), repeat=n):
            yield (v,)


@FAMILIES.family(lattice)
def small_polyline(ctx, points):
    v = [fv(LATTICE[i]) for i in points]
    for plane in (1, 2, 4, 5, 6, 7, 9):
        normal, ref = PLANES[plane]
        if any(abs(dot(fv(normal), sub(p, fv(ref)))) < F(1, 1000) for p in v):
            continue
        for closed in (False, True):
            judge(ctx, ('lattice', tuple(points), plane, closed), v, closed, normal, ref)


def resized(tier):
    for n in (2, 3, 5, 6):
        for side in range(1, 1 << n):
            for plane in (range(6) if tier == 'thorough' else [side % 6, (side // 2 + 3) % 6]):
                for by in (-60, -30, -12, 10, 30, 60):
                    yield (n, side, plane, by, [0, 100, -4096][(side + n + plane) % 3])


@FAMILIES.family(resized)
def other_sizes(ctx, n, side, plane, by, shift):
    """The same in other units, far away, with integer vertices and with normals which are not of unit length."""
    normal, ref = PLANES[plane]
    e1, e2 = basis(normal)
    factor = F(2) ** by
    v = []
    for i in range(n):
        h = F(4 + i % 5, 4) if side >> i & 1 else F(-(3 + 2 * i % 7), 4)
        p = add(fv(ref), mul(fv(normal), h))
        p = add(p, add(mul(e1, F(i * i % 11 - 4)), mul(e2, F(3 * i % 7))))
        v.append([(x + shift) * factor for x in p])
    ref = [float((F(x) + shift) * factor) for x in ref]
    for closed in (False, True):
        judge(ctx, ('resized', n, side, plane, closed, by, shift), v, closed, normal, ref)
        if 0 < by < 40:
            whole = [fv([int(x) for x in p]) for p in v]
            if all(abs(dot(fv(normal), sub(p, fv(ref)))) > factor / 1000 for p in whole):
                judge(ctx, ('integer', n, side, plane, closed, by, shift), whole, closed, normal, ref, dtype=int)


@FAMILIES.family(lambda tier: ((n, start, length, plane) for n in ((40, 300) if tier == 'quick' else (40, 300, 3000)) for plane in (1, 3)
                               for start in (0, 1, n // 2, n - 2, n - 1) for length in (1, 2, n // 3, n - 2, n - 1)))
def long_polylines(ctx, n, start, length, plane):
    """One run of vertices in front, anywhere in a long polyline."""
    normal, ref = PLANES[plane]
    e1, e2 = basis(normal)
    front = set((start + k) % n for k in range(length))
    v = []
    for i in range(n):
        h = F(4 + i % 5, 4) if i in front else F(-(3 + 2 * i % 7), 4)
        v.append(add(add(fv(ref), mul(fv(normal), h)), add(mul(e1, F(i % 101 - 4)), mul(e2, F(3 * i % 7)))))
    for closed in (False, True):
        judge(ctx, ('long', n, start, length, plane, closed), v, closed, normal, ref)


@FAMILIES.family(lambda tier: ((n, side, last, plane, by) for n in range(2, 8 if tier == 'quick' else 11) for side in range(1 << (n - 1))
                               for last in (False, True) for plane in (0, 1, 2, 9) for by in ((0, -30) if tier == 'quick' else (0, -30, 30))))
def end_on_plane(ctx, n, side, last, plane, by):
    """An open polyline which starts or ends exactly on the plane, which counts as an intersection of that edge."""
    normal, ref = PLANES[plane]
    e1, e2 = basis(normal)
    factor = F(2) ** by
    v = []
    for i in range(n):
        h = F(0) if i == 0 else F(4 + i % 5, 4) if side >> (i - 1) & 1 else F(-(3 + 2 * i % 7), 4)
        p = add(add(fv(ref), mul(fv(normal), h)), add(mul(e1, F(i * i % 11 - 4)), mul(e2, F(3 * i % 7))))
        v.append(mul(p, factor))
    judge(ctx, ('end', n, side, last, plane, by), v[::-1] if last else v, False, normal, [float(F(x) * factor) for x in ref])


@FAMILIES.family(lambda tier: itertools.product(range(len(PLANES)), [None, []], [False, True]))
def no_vertices(ctx, plane, v, closed):
    from blmath.geometry import Plane, Polyline
    normal, ref = PLANES[plane]
    plane = Plane(np.array(ref, dtype=float), np.array(normal, dtype=float))
    line = Polyline(v if v is None else np.zeros((0, 3)), closed=closed)
    points, indices = line.intersect_plane(plane, ret_edge_indices=True)
    require(np.shape(points) == (0, 3) and np.shape(indices) == (0,), 'intersections of nothing: %s %s', points, indices)
    require(np.shape(plane.polyline_xsection(line)) == (0, 3), 'intersections of nothing')
    require_refused('cutting nothing', lambda: line.cut_by_plane(plane), ValueError)
    ctx.step(3)
    ctx.outcome('nothing')
    ctx.state('nothing', str(normal), v is None, closed)


def judge(ctx, key, v, closed, normal, ref, dtype=float):
    from blmath.geometry import Plane, Polyline
    n, r = fv(normal), fv(ref)
    h = [dot(n, sub(p, r)) for p in v]
    count = len(v)
    edges = [(i, (i + 1) % count) for i in range(count if closed else count - 1)]
    crossed, points = [], []
    for k, (a, b) in enumerate(edges):
        if sgn(h[a]) != sgn(h[b]):
            crossed.append(k)
            points.append(add(v[a], mul(sub(v[b], v[a]), h[a] / (h[a] - h[b]))))
    given = np.array([[float(x) for x in p] for p in v])
    line = Polyline(given.astype(dtype), closed=closed)
    plane = Plane(np.array(ref, dtype=float), np.array(normal, dtype=float))
    size = np.abs(given).max()
    got, indices = line.intersect_plane(plane, ret_edge_indices=True)
    require(list(indices) == crossed, '%s: crossed edges %s, expected %s', key, list(indices), crossed)
    want = np.array([[float(x) for x in p] for p in points]).reshape(-1, 3)
    require_close(got, want, '%s: intersections', key, scale=size)
    require_close(line.intersect_plane(plane), want, '%s: intersections only', key, scale=size)
    require_close(plane.polyline_xsection(line), want, '%s: intersections, asked of the plane', key, scale=size)
    ctx.step(3)
    if len(crossed) != (2 if closed else 1):
        require_refused('%s: %d intersections' % (key, len(crossed)), lambda: line.cut_by_plane(plane), ValueError)
        ctx.outcome('refused', closed, min(len(crossed), 4))
    else:
        if not closed:
            k = crossed[0]
            kept = v[:k + 1] + points if h[0] > 0 else points + v[k + 1:]
            if 0 in (h[0], h[-1]):
                # all of it, or nothing but the point on the plane
                kept = v if max(h) > 0 else points
        else:
            up = next(i for i, (a, b) in enumerate(edges) if h[a] < 0 < h[b])
            kept = [points[crossed.index(up)]]
            i = edges[up][1]
            while h[i] > 0:
                kept.append(v[i])
                i = (i + 1) % count
            kept.append(points[1 - crossed.index(up)])
        cut = line.cut_by_plane(plane)
        require(not cut.closed, '%s: the part in front is an open polyline', key)
        left = cut.v
        if len(kept) == 1 and len(left) > 1 and np.all(left == left[0]):
            left = left[:1]
        require_close(left, [[float(x) for x in p] for p in kept], '%s: the part in front', key, scale=size)
        require(cut is not line and not np.shares_memory(cut.v, line.v), '%s: a new polyline', key)
        ctx.outcome('cut', closed)
        ctx.state(key)
    require(np.array_equal(line.v, given) and bool(line.closed) == closed, '%s: the polyline was changed', key)
    ctx.step()
