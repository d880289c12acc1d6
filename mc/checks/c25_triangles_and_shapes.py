import itertools
from collections import Counter
from fractions import Fraction as F

import numpy as np

from mc import env
from mc.engine import Families, product, require
from mc.lib import add, cross, dot, freeze, fv, mul, norm, norm2, require_close, sub

PROPERTY = 'C25'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every pair of edges out of {-1,0,2}^3 (including zero, equal and opposite ones) x 27 points x 2 corners, alone and in stacks, every '
             'placement of a degenerate triangle in stacks of up to 4; surface normals of all triangles of a 9-point set in 4 stackings; '
             'prisms, boxes and cubes for 5 corners x 125 sizes, triangular prisms over all triangles of 7 points x 6 heights; '
             'likewise: triangles of size 2^-50 to 2^40 and 1024 away, boxes of size 2^-60 to 2^60, stacks of 1000 and 5000; stacks of stacks, and of mixed precision',
    'thorough': 'edges out of {-1,0,2,0.5}^3, 64 points; a 12-point set; 343 sizes; 10 points',
}
RULE = 'exhaustive triangles and solids against exact rational geometry; a state is one configuration'
ASSUMPTIONS = ['a zero-area triangle has no normalized normal to judge', 'sizes and heights are positive where orientation is judged']
FAMILIES = Families()


def prepare(scratch):
    env.with_lace()


def axis(tier):
    return (-1, 0, 2) if tier == 'quick' else (-1, 0, 2, 0.5)


def reference(p, q, u, v):
    """Exact barycentric coordinates of the projection, None for a degenerate triangle."""
    p, q, u, v = map(fv, (p, q, u, v))
    n = cross(u, v)
    s = norm2(n)
    if s == 0:
        return None
    w = sub(p, q)
    b1, b2 = dot(cross(w, v), n) / s, dot(cross(u, w), n) / s
    return [1 - b1 - b2, b1, b2]


def judge(b, p, q, u, v):
    require(np.shape(b) == (3,) and np.all(np.isfinite(b)), 'coordinates of %s in %s %s %s: %s', p, q, u, v, b)
    require_close(sum(b), 1.0, 'sum of the coordinates of %s in %s %s %s', p, q, u, v)
    ref = reference(p, q, u, v)
    if ref is not None:
        require_close(b, ref, 'coordinates of %s in %s %s %s', p, q, u, v)
        q, u, v = map(fv, (q, u, v))
        spot = add(q, add(mul(u, ref[1]), mul(v, ref[2])))
        require_close(b[0] * np.array(q, dtype=float) + b[1] * np.array(add(q, u), dtype=float) + b[2] * np.array(add(q, v), dtype=float),
                      spot, 'the point of the plane')
        off = sub(fv(p), spot)
        assert dot(off, u) == 0 and dot(off, v) == 0  # the reference is the orthogonal projection
    return ref is None


@FAMILIES.family(lambda tier: ((tier, w[:3], w[3:]) for w in itertools.product(axis(tier), repeat=6)))
def projection(ctx, tier, u, v):
    from blmath.geometry.barycentric import barycentric_coordinates_of_projection as bary
    for q in ((0, 0, 0), (1, -2, 0.5)):
        points = list(itertools.product((-1, 0, 3) if tier == 'quick' else (-1, 0, 3, 7.5), repeat=3))
        n = len(points)
        stack = [np.array(points, dtype=float), np.tile(np.array(q, dtype=float), (n, 1)), np.tile(np.array(u, dtype=float), (n, 1)),
                 np.tile(np.array(v, dtype=float), (n, 1))]
        before = freeze(stack)
        got = bary(*stack)
        require(freeze(stack) == before, 'an argument was changed')
        require(np.shape(got) == (n, 3), 'shape %s for a stack of %d', np.shape(got), n)
        for p, b in zip(points, got):
            degenerate = judge(b, p, q, u, v)
        for p in points[::5]:
            single = [np.array(x, dtype=float) for x in (p, q, u, v)]
            before = freeze(single)
            judge(np.ravel(bary(*single)), p, q, u, v)
            require(freeze(single) == before, 'an argument was changed')
            ctx.step()
        ctx.step(n)
        ctx.outcome('degenerate' if degenerate else 'proper')
        ctx.state(tuple(u), tuple(v), tuple(q))


SIZES_OF_TRIANGLES = [2.**-10, 2.**-30, 2.**-50, 2.**20, 2.**40]


@FAMILIES.family(lambda tier: product(itertools.product((-1, 0, 2), repeat=3), range(len(SIZES_OF_TRIANGLES)), [0, 1024]))
def small_and_large_triangles(ctx, u, which, shift):
    """Powers of two, so that the coordinates are the very same."""
    from blmath.geometry.barycentric import barycentric_coordinates_of_projection as bary
    k = SIZES_OF_TRIANGLES[which]
    shift *= k
    rows = [(p, v) for p in ((-1, 0, 3), (3, 3, -1), (0.5, 0.25, 1)) for v in itertools.product((-1, 0, 2), repeat=3)]
    args = [np.array([x[0] for x in rows]) * k + shift, np.full((len(rows), 3), float(shift)),
            np.array([u] * len(rows)) * k, np.array([x[1] for x in rows]) * k]
    got = bary(*args)
    require(np.shape(got) == (len(rows), 3), 'shape %s', np.shape(got))
    for i, (p, v) in enumerate(rows):
        ref = reference(p, (0, 0, 0), u, v)
        single = np.ravel(bary(*[x[i] for x in args]))
        for b in (got[i], single):
            what = 'point %s, edges %s %s, times %s' % (p, u, v, k)
            require(np.all(np.isfinite(b)), 'coordinates of %s: %s', what, b)
            require_close(sum(b), 1.0, 'sum of the coordinates of %s', what)
            if ref is not None:
                require_close(b, ref, 'coordinates of %s', what)
            ctx.step()
    ctx.state('triangles', tuple(u), which, shift)


@FAMILIES.family(lambda tier: product([1000, 5000], ['float', 'int']))
def long_stacks(ctx, n, dtype):
    from blmath.geometry.barycentric import barycentric_coordinates_of_projection as bary
    from blmath.geometry.surface_normals import surface_normal
    rows = [TRIANGLES[i % 6 if i % 7 else i * i % 5] for i in range(n)]
    args = [np.array([r[k] for r in rows], dtype=dtype) for k in range(4)]
    got = bary(*args)
    require(np.shape(got) == (n, 3), 'shape %s', np.shape(got))
    known = {r: [float(x) for x in reference(*r)] for r in set(rows) if reference(*r) is not None}
    for i, r in enumerate(rows):
        require(np.all(np.isfinite(got[i])) and abs(got[i].sum() - 1) < 1e-9, 'row %d of %d: %s', i, n, got[i])
        if r in known:
            require_close(got[i], known[r], 'row %d of %d', i, n)
    corners = np.array([[r[1], add(r[1], r[2]), add(r[1], r[3])] for r in rows if r in known], dtype=dtype)
    exact = [cross(fv(r[2]), fv(r[3])) for r in rows if r in known]
    unit = np.array([[float(x) / norm(e) for x in e] for e in exact])
    require_close(surface_normal(corners), unit, 'normals of %d triangles', len(corners))
    require_close(surface_normal(corners, normalize=False), exact, 'scaled normals of %d triangles', len(corners))
    ctx.step(3)
    ctx.state('long', n, str(dtype))


@FAMILIES.family(lambda tier: product(range(9), range(len(SIZES_OF_TRIANGLES)), [0, -1024]))
def small_and_large_normals(ctx, i, which, shift):
    from blmath.geometry.surface_normals import surface_normal
    k = SIZES_OF_TRIANGLES[which]
    triangles = [t for t in itertools.product([POINTS[i]], POINTS[:8], POINTS[:8])]
    exact = [cross(sub(fv(t[1]), fv(t[0])), sub(fv(t[2]), fv(t[0]))) for t in triangles]
    good = [m for m, e in enumerate(exact) if any(e)]
    stack = np.array([triangles[m] for m in good]) * k + shift * k
    unit = [[float(x) / norm(exact[m]) for x in exact[m]] for m in good]
    require_close(surface_normal(stack), unit, 'normals of triangles times %s', k)
    require_close(surface_normal(stack, normalize=False) / k ** 2, [exact[m] for m in good], 'scaled normals of triangles times %s', k)
    for t, u in list(zip(stack, unit))[::9]:
        require_close(surface_normal(t), u, 'normal of %s', t)
        ctx.step()
    ctx.step(2)
    ctx.state('normals', i, which, shift)


TRIANGLES = [
    ((1, 2, 3), (0, 0, 0), (1, 0, 0), (0, 1, 0)),
    ((0, 0, 1), (1, 1, 1), (2, 0, 1), (0, 3, 1)),
    ((1, 2, 3), (0, 0, 0), (1, 0, 0), (2, 0, 0)),
    ((5, -1, 0), (0, 1, 0), (0, 0, 0), (1, 1, 1)),
    ((-1, -1, 4), (2, 0, 0), (-1, 1, 0), (0, 1, 1)),
    ((1, 1, 1), (1, 1, 1), (1, 1, 1), (1, 1, 1)),
]


@FAMILIES.family(lambda tier: ((list(s),) for k in range(0, 5 if tier == 'quick' else 6) for s in itertools.product(range(len(TRIANGLES)), repeat=k)))
def stacks(ctx, chosen):
    """Every row of a stack is computed on its own, whatever its neighbours are."""
    from blmath.geometry.barycentric import barycentric_coordinates_of_projection as bary
    rows = [TRIANGLES[i] for i in chosen]
    for dtype in (float, int):
        args = [np.array([r[k] for r in rows], dtype=dtype).reshape(-1, 3) for k in range(4)]
        before = freeze(args)
        got = bary(*args)
        require(np.shape(got) == (len(rows), 3), 'shape %s', np.shape(got))
        for b, r in zip(got, rows):
            judge(b, *r)
        require(freeze(args) == before, 'an argument was changed')
        ctx.step()
    ctx.state('stack', tuple(chosen))


POINTS = [(0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 3), (1, 1, 1), (-1, 2, 0.5), (2, 0, 0), (-3, -1, 2), (1000, 0, -1), (0.25, 0, 0), (0, -1, -1), (5, 5, 5)]


@FAMILIES.family(lambda tier: product(range(9 if tier == 'quick' else 12), [9 if tier == 'quick' else 12]))
def normals(ctx, i, n):
    from blmath.geometry.surface_normals import surface_normal
    triangles, exact = [], []
    for j, k in itertools.product(range(n), repeat=2):
        a, b, c = fv(POINTS[i]), fv(POINTS[j]), fv(POINTS[k])
        triangles.append([POINTS[i], POINTS[j], POINTS[k]])
        exact.append(cross(sub(b, a), sub(c, a)))
    proper = [m for m, e in enumerate(exact) if any(e)]
    unit = {m: [float(x) / norm(exact[m]) for x in exact[m]] for m in proper}
    everything = np.array(triangles, dtype=float)
    good = everything[proper]
    before = freeze([everything, good])
    # one at a time
    for m, t in enumerate(everything):
        require_close(surface_normal(t, normalize=False), exact[m], 'scaled normal of %s', triangles[m])
        if m in unit:
            require_close(surface_normal(t), unit[m], 'normal of %s', triangles[m])
            require_close(surface_normal(t, normalize=True), unit[m], 'normal of %s', triangles[m])
        ctx.step(3)
        ctx.outcome('normal', m in unit)
        ctx.state('normal', i, m)
    # in stacks of every size up to 4, and all at once
    for size in (1, 2, 3, 4, len(good)):
        for lo in range(0, len(good) - size + 1, size):
            got = surface_normal(good[lo:lo + size])
            require_close(got, [unit[m] for m in proper[lo:lo + size]], 'normals of a stack of %d', size)
            ctx.step()
    require_close(surface_normal(everything, normalize=False), exact, 'scaled normals of a stack')
    require(freeze([everything, good]) == before, 'the points were changed')


def check_surface(vertices, faces, volume, what, unit=1.):
    """Closed, consistently oriented outwards, enclosing this volume, no face of zero area."""
    vertices = [fv(v) for v in (np.asarray(vertices, dtype=float) / unit).tolist()]
    faces = np.asarray(faces)
    require(faces.ndim == 2 and faces.shape[1] == 3, '%s: faces of shape %s', what, faces.shape)
    require(faces.min() >= 0 and faces.max() < len(vertices), '%s: a face refers to a missing vertex', what)
    edges = Counter()
    total = F(0)
    for f in faces.tolist():
        a, b, c = [vertices[i] for i in f]
        require(float(norm2(cross(sub(b, a), sub(c, a)))) > 1e-12, '%s: face %s has no area', what, f)
        total += dot(a, cross(b, c)) / 6
        for x, y in zip(f, f[1:] + f[:1]):
            edges[(x, y)] += 1
    for (x, y), n in edges.items():
        require(n == 1 and edges[(y, x)] == 1, '%s: edge %d-%d is not shared by two opposite faces', what, x, y)
    require_close(float(total), volume / unit ** 3, '%s: enclosed volume (positive when the faces point outwards)', what)


def both(make, what):
    v, f = make(True)
    flat = make(False)
    require_close(flat, np.asarray(v)[np.asarray(f)], '%s: corners of the faces', what)
    default = make()
    require_close(default, flat, '%s: default form', what)
    return np.asarray(v), np.asarray(f)


def same_points(got, want, what):
    left = [np.array(x) for x in got]
    require(len(left) == len(want), '%s: %d vertices', what, len(left))
    for w in want:
        near = min(range(len(left)), key=lambda m: float(np.max(np.abs(left[m] - w))))
        require_close(left.pop(near), w, '%s: a corner', what)


@FAMILIES.family(lambda tier: product(itertools.product((1, 2, 3, 4), repeat=2), range(9)))
def nested_stacks(ctx, sizes, i):
    """Stacks of stacks of triangles, not normalized."""
    from blmath.geometry.surface_normals import surface_normal
    m, n = sizes
    pick = [[[POINTS[(i + 3 * a + b + k * (1 + a)) % len(POINTS)] for k in range(3)] for b in range(n)] for a in range(m)]
    want = [[[float(x) for x in cross(sub(fv(t[1]), fv(t[0])), sub(fv(t[2]), fv(t[0])))] for t in row] for row in pick]
    for x in (np.array(pick, dtype=float), np.array([pick, pick], dtype=float)):
        got = surface_normal(x, normalize=False)
        require_close(got, want if x.ndim == 4 else [want, want], 'scaled normals of stacks of shape %s', x.shape[:-2])
        ctx.step()
    ctx.state('nested', m, n, i)


@FAMILIES.family(lambda tier: product([(0, 0, 0), (1, -2, 3), (0.5, 0, -4), (4096, -1024, 7)], itertools.product((0.1, 1. / 3, 7, 1e-3), repeat=3), range(4)))
def mixed_precision(ctx, origin, size, which):
    """A corner in single precision makes the sides no less precise."""
    from blmath.geometry.shapes import create_cube, create_rectangular_prism
    o = np.array(origin, dtype=['float32', 'float16', 'float64', 'float32'][which])
    s = np.array(size) if which != 3 else list(size)
    v, f = create_rectangular_prism(o, s, True)
    corners = [[float(x) for x in add(fv(origin), [F(c) * F(d) for c, d in zip(at, size)])] for at in itertools.product((0, 1), repeat=3)]
    same_points(v, corners, 'prism at %s (%s) of size %s' % (origin, o.dtype, size))
    v, f = create_cube(o, size[0], True)
    corners = [[float(x) for x in add(fv(origin), [F(c) * F(size[0]) for c in at])] for at in itertools.product((0, 1), repeat=3)]
    same_points(v, corners, 'cube at %s (%s) of size %s' % (origin, o.dtype, size[0]))
    ctx.step(2)
    ctx.state('mixed', tuple(origin), tuple(size), which)


# kinds of number of the corner and of the size
BOXES = [(float, float), (int, int), (int, float), (float, int), ('int8', 'float32'), ('float32', 'int16'), ('int16', 'int64')]
SIZES = {'quick': (1, 2, 0.5, 30, 7), 'thorough': (1, 2, 0.5, 30, 7, 0.125, 3)}


@FAMILIES.family(lambda tier: product([(0, 0, 0), (1, -2, 3), (0.5, 0, -4), (100, 100, 100), (-1, -1, -1)],
                                      itertools.product(SIZES[tier], repeat=3), range(len(BOXES))))
def boxes(ctx, origin, size, which):
    from blmath.geometry.shapes import create_cube, create_rectangular_prism
    o, s = [np.array(x, dtype=kind) for x, kind in zip((origin, size), BOXES[which])]
    if o.tolist() != list(origin) or s.tolist() != list(size):
        return
    before = freeze([o, s])
    what = 'prism at %s of size %s' % (origin, size)
    v, f = both(lambda *a: create_rectangular_prism(o, s, *a), what)
    corners = sorted([float(x) for x in add(fv(origin), [F(c) * F(d) for c, d in zip(at, size)])] for at in itertools.product((0, 1), repeat=3))
    require_close(sorted(np.asarray(v, dtype=float).tolist()), corners, '%s: corners', what)
    check_surface(v, f, size[0] * size[1] * size[2], what)
    ctx.step(3)
    ctx.state('prism', tuple(origin), tuple(size), which)
    if size[1] == size[2] == size[0]:
        v, f = both(lambda *a: create_cube(o, s.dtype.type(size[0]), *a), 'cube')
        require_close(sorted(np.asarray(v, dtype=float).tolist()), corners, 'cube at %s of size %s: corners', origin, size[0])
        check_surface(v, f, size[0] ** 3, 'cube')
        ctx.step(3)
        ctx.outcome('cube')
    require(freeze([o, s]) == before, '%s: an argument was changed', what)


@FAMILIES.family(lambda tier: product([(0, 0, 0), (1, -2, 3), (64, 64, -64)], itertools.product((1, 2, 0.5), repeat=3), [-60, -30, -12, 20, 60]))
def boxes_of_all_sizes(ctx, origin, size, power):
    from blmath.geometry.shapes import create_cube, create_rectangular_prism
    k = 2.0 ** power
    o, s = np.array(origin) * k, np.array(size) * k
    what = 'prism at %s of size %s' % (o, s)
    v, f = create_rectangular_prism(o, s, True)
    corners = sorted([float(x) for x in add(fv(origin), [F(c) * F(d) for c, d in zip(at, size)])] for at in itertools.product((0, 1), repeat=3))
    require_close(sorted((np.asarray(v) / k).tolist()), corners, '%s: corners', what)
    check_surface(v, f, size[0] * size[1] * size[2] * k ** 3, what, unit=k)
    v, f = create_cube(o, size[0] * k, True)
    check_surface(v, f, size[0] ** 3 * k ** 3, 'cube at %s of size %s' % (o, size[0] * k), unit=k)
    ctx.step(4)
    ctx.state('prism', tuple(origin), tuple(size), power)


@FAMILIES.family(lambda tier: itertools.permutations(range(7 if tier == 'quick' else 10), 3))
def triangular_prisms(ctx, i, j, k):
    from blmath.geometry.shapes import create_triangular_prism
    base = [POINTS[m] for m in (i, j, k)]
    a, b, c = map(fv, base)
    n = cross(sub(b, a), sub(c, a))
    if not any(n):
        return
    unit = [float(x) / norm(n) for x in n]
    for height in (1, 0.5, 20, 3):
        args = [np.array(p, dtype=float) for p in base]
        before = freeze(args)
        what = 'prism under %s of height %s' % (base, height)
        v, f = both(lambda *x: create_triangular_prism(*(args + [height] + list(x))), what)
        require(freeze(args) == before, '%s: an argument was changed', what)
        want = sorted([float(x) for x in p] for p in base) + sorted([float(x) - height * y for x, y in zip(p, unit)] for p in base)
        same_points(v, want, what)
        check_surface(v, f, height * norm(n) / 2, what)
        ctx.step(3)
    for height in (-2, 0):
        v, f = create_triangular_prism(*([np.array(p, dtype=float) for p in base] + [height, True]))
        want = [float(x) for p in base for x in p] + [float(x) - height * y for p in base for x, y in zip(p, unit)]
        require_close(sorted(v.ravel().tolist()), sorted(want), 'prism under %s of height %s', base, height)
        ctx.step()
    for scale in (2.**-10, 2.**20, 2.**-55, 2.**55):
        args = [np.array(p, dtype=float) * scale for p in base]
        if norm(n) * scale ** 2 > 1e-7:
            what = 'prism under %s times %s' % (base, scale)
            v, f = create_triangular_prism(*(args + [2 * scale, True]))
            want = np.array(base, dtype=float) - 2 * np.array(unit)
            same_points(np.asarray(v) / scale, np.vstack([base, want]).tolist(), what)
            check_surface(v, f, 2 * scale * norm(n) / 2 * scale ** 2, what, unit=scale)
            ctx.step()
    ctx.state('triangular', i, j, k)
    ctx.outcome('triangular')


@FAMILIES.family(lambda tier: [(0,)])
def horizontal_plane(ctx, _):
    from blmath.geometry.shapes import create_horizontal_plane
    v, f = both(create_horizontal_plane, 'horizontal plane')
    require(not np.any(v[:, 1]), 'vertices are not in the xz plane: %s', v)
    area = 0
    for t in f:
        a, b, c = [fv(v[m].tolist()) for m in t]
        n = cross(sub(b, a), sub(c, a))
        require(n[0] == n[2] == 0 and n[1] > 0, 'a face does not point up')
        area += n[1] / 2
    require(area == 2, 'area %s', area)
    require(sorted(map(tuple, v.tolist())) == [(-1, 0, 0), (0, 0, -1), (0, 0, 1), (1, 0, 0)], 'not the square around the origin: %s', v)
    # the two halves are on either side of the edge they share
    shared = set(map(int, f[0])) & set(map(int, f[1]))
    require(len(f) == 2 and len(shared) == 2, 'faces %s', f)
    i, j = shared
    require(np.allclose(v[i], -v[j]), 'faces %s overlap', f)
    ctx.step(3)
    ctx.state('plane')
