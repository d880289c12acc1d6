import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc.engine import Families, product, require
from mc.lib import add, cross, dot, fv, mul, norm2, require_close, sub

PROPERTY = 'C20'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every two lines through points of a {-1,0,2}x{-1,0,1.5} grid in the plane (all 5184 pairs of point pairs); in space every two '
             'lines through a crossing point (4 of them) along 33 directions with the given points at 16 pairs of positions on each line, '
             'and parallel and identical lines; '
             'likewise: grids in units of 2^-60 to 2^60, lines of unequal sizes and far away, integer points',
    'thorough': 'a 4x4 grid in the plane; 105 directions in space, 8 crossing points',
}
RULE = 'exhaustive pairs of lines against exact rational intersections; a state is one pair of lines'
ASSUMPTIONS = ['the two points of a line are distinct', 'lines in space meet, are parallel or are identical; skew lines have no answer to judge']
FAMILIES = Families()


def grid(tier):
    if tier == 'quick':
        return list(itertools.product((-1, 0, 2), (-1, 0, 1.5)))
    return list(itertools.product((-1, 0, 2, 0.5), (-1, 0, 1.5, 4)))


@FAMILIES.family(lambda tier: ((tier, p, q) for p in grid(tier) for q in grid(tier) if p != q))
def plane(ctx, tier, p0, q0):
    from blmath.geometry.segment import line_intersect
    for p1, q1 in itertools.permutations(grid(tier), 2):
        a, b, c, d = map(fv, (p0, q0, p1, q1))
        e, f = sub(b, a), sub(d, c)
        det = e[0] * f[1] - e[1] * f[0]
        for form in (lambda x: np.array(x, dtype=float), list):
            args = [form(x) for x in (p0, q0, p1, q1)]
            got = line_intersect(*args)
            what = 'lines %s %s and %s %s' % (p0, q0, p1, q1)
            require(np.shape(got) == (2,), '%s: %s', what, got)
            if det == 0:
                require(np.all(np.isnan(got)), '%s: parallel, but %s', what, got)
            else:
                g = sub(c, a)
                t = (g[0] * f[1] - g[1] * f[0]) / det
                require_close(got, add(a, mul(e, t)), '%s', what)
            require(all(list(x) == list(y) for x, y in zip(args, (p0, q0, p1, q1))), '%s: an argument was changed', what)
            ctx.step()
        ctx.outcome('plane', det == 0)
        ctx.state(tuple(p0), tuple(q0), p1, q1)


SCALES = [(2.**-60, 1, 0), (2.**60, 1, 0), (2.**-30, 1, 0), (2.**20, 1, 0), (1, 2.**-20, 0), (2.**-10, 2.**10, 0), (2.**-4, 1, 64), (1, 2.**-12, -1024)]


@FAMILIES.family(lambda tier: ((tier, p, q, k) for p in grid(tier) for q in grid(tier) if p != q for k in range(len(SCALES))))
def plane_scaled(ctx, tier, p0, q0, which):
    """Close together, far apart, far away, one line given by much closer points."""
    from blmath.geometry.segment import line_intersect, line_intersect3
    scale, closer, shift = SCALES[which]
    for p1, q1 in itertools.permutations(grid(tier), 2):
        a, b, c, d = [add(mul(fv(x), F(scale)), [F(shift)] * 2) for x in (p0, q0, p1, q1)]
        b = add(a, mul(sub(b, a), F(closer)))
        e, f = sub(b, a), sub(d, c)
        det = e[0] * f[1] - e[1] * f[0]
        args = [np.array([float(y) for y in x]) for x in (a, b, c, d)]
        what = 'lines %s %s and %s %s' % tuple(x.tolist() for x in args)
        got = line_intersect(*args)
        space = line_intersect3(*[np.array([x[0], 0, x[1]]) for x in args])
        ctx.step(2)
        if det == 0:
            require(np.all(np.isnan(got)), '%s: parallel, but %s', what, got)
            shared = any(x == y for x in (a, b) for y in (c, d))
            require(space is None or shared, '%s in space: parallel, but %s', what, space)
            continue
        g = sub(c, a)
        t = (g[0] * f[1] - g[1] * f[0]) / det
        want = [float(x) for x in add(a, mul(e, t))]
        size = max(abs(float(x)) for y in (a, b, c, d, want) for x in y)
        loss = 1.0 if not shift else size / (scale * closer)
        require_close(got, want, '%s', what, scale=size, tol=max(1e-9, 1e-15 * loss))
        require_close(space, [want[0], 0, want[1]], '%s in space', what, scale=size, tol=max(1e-9, 1e-15 * loss))
        ctx.outcome('scaled')
    ctx.state('scaled', tuple(p0), tuple(q0), which)


@FAMILIES.family(lambda tier: product(itertools.product((-1, 0, 2), repeat=2), itertools.product((-1, 0, 2), repeat=2), ['int64', 'int32', 'int16']))
def whole_numbers(ctx, p0, q0, kind):
    from blmath.geometry.segment import line_intersect, line_intersect3
    if p0 == q0:
        return
    for p1, q1 in itertools.permutations(itertools.product((-1, 0, 3), repeat=2), 2):
        a, b, c, d = map(fv, (p0, q0, p1, q1))
        e, f = sub(b, a), sub(d, c)
        det = e[0] * f[1] - e[1] * f[0]
        args = [np.array(x, dtype=kind) for x in (p0, q0, p1, q1)]
        got = line_intersect(*args)
        space = line_intersect3(*[np.array([5, x[0], x[1]], dtype=kind) for x in args])
        what = '%s %s and %s %s' % (p0, q0, p1, q1)
        if det == 0:
            require(np.all(np.isnan(got)), '%s: parallel, but %s', what, got)
        else:
            g = sub(c, a)
            want = [float(x) for x in add(a, mul(e, (g[0] * f[1] - g[1] * f[0]) / det))]
            require_close(got, want, '%s', what)
            require_close(space, [5] + want, '%s in space', what)
        ctx.step(2)
    ctx.state('whole', tuple(p0), tuple(q0), kind)


def directions(tier):
    r = (-1, 0, 1)
    out = [d for d in itertools.product(r, repeat=3) if any(d)] + [(1, 2, 2), (2, -3, 6), (1, 2, 3), (-5, 0, 1), (0.25, -3, 1), (3, 4, 0), (0, -4, 3)]
    if tier == 'thorough':
        out += [d for d in itertools.product((-2, -1, 0, 3), repeat=3) if any(d)][:72]
    return out


CROSSINGS = [(0, 0, 0), (1, -2, 3), (0.1, 0.7, -0.3), (50, 0, -20), (0, 0, 1), (-1 / 3., 2, 2), (1e-2, 0, 5), (7, 7, 7)]
POSITIONS = [(0, 1), (1, 0), (1, 2), (-1, 1), (-3, -1), (0.5, -2), (10, 11), (-1, 0)]


@FAMILIES.family(lambda tier: product(directions(tier), directions(tier), range(4 if tier == 'quick' else 8)))
def space(ctx, u, v, k):
    from blmath.geometry.segment import line_intersect3
    c = fv(CROSSINGS[k])
    n = cross(fv(u), fv(v))
    parallel = not any(n)
    dyadic = all(float(x) * 64 == int(float(x) * 64) for x in CROSSINGS[k] + tuple(u) + tuple(v))
    for i, (s0, t0) in enumerate(POSITIONS):
        for s1, t1 in (POSITIONS[i], POSITIONS[(i + 3) % len(POSITIONS)]):
            args = [[float(x) for x in add(c, mul(fv(d), F(s)))] for d, s in ((u, s0), (u, t0), (v, s1), (v, t1))]
            what = 'lines %s %s and %s %s' % tuple(args)
            given = [np.array(x) for x in args]
            shared = any(args[i] == args[j] for i in (0, 1) for j in (2, 3))
            if parallel:
                # the same line: no single point, unless a given point is common
                if not dyadic:
                    continue
                got = line_intersect3(*given)
                require(got is None or shared and any(list(got) == a for a in args), '%s: one line, but %s', what, got)
            else:
                got = line_intersect3(*given)
                require(got is not None, '%s: they meet, but no answer', what)
                sine = math.sqrt(norm2(n) / (norm2(fv(u)) * norm2(fv(v))))
                require_close(got, [float(x) for x in c], what, tol=1e-9 / sine, scale=max(1.0, max(abs(x) for a in args for x in a)))
            require(all(list(x) == y for x, y in zip(given, args)), '%s: an argument was changed', what)
            ctx.step()
            ctx.outcome('space', parallel, shared)
    ctx.state('space', tuple(u), tuple(v), k)


@FAMILIES.family(lambda tier: product(directions(tier), [(0, 0, 1), (2, -1, 0), (0.5, 5, 1), (100, 3, 7)], range(4)))
def parallel(ctx, u, offset, k):
    from blmath.geometry.segment import line_intersect3
    if not any(cross(fv(u), fv(offset))) or not all(float(x) * 4 == int(float(x) * 4) for x in u):
        return
    o = [(0, 0, 0), (1, 2, 3), (-4, 0.5, 0), (8, 8, 8)][k]
    for s0, t0 in POSITIONS:
        for s1, t1 in POSITIONS:
            args = [np.array([float(x) for x in add(fv(b), mul(fv(u), F(s)))]) for b, s in
                    ((o, s0), (o, t0), (add(fv(o), fv(offset)), s1), (add(fv(o), fv(offset)), t1))]
            got = line_intersect3(*args)
            require(got is None, 'parallel lines %s: %s', [a.tolist() for a in args], got)
            ctx.step()
    ctx.state('parallel', tuple(u), tuple(offset), k)
    ctx.outcome('parallel')
