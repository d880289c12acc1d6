import itertools
from fractions import Fraction as F

import numpy as np

from mc.engine import Families, histories, product, require
from mc.lib import fv, require_close, require_refused

PROPERTY = 'C26'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every box with origin out of {-2,0,1.5}^3 and shape out of {0,1,2.5,7}^3, given as lists, tuples and arrays of integers and floats; '
             'every shape with a negative side; malformed origins and shapes; every history of up to 4 assignments and mutations out of 11 with '
             'all quantities read after every step; '
             'likewise: boxes in units of 2^-60 to 2^60 and far away; sides of unlike lengths, 2^-40 to 2^40',
    'thorough': 'origins and shapes over 5 values per axis; histories of up to 6 operations',
}
ASSUMPTIONS = ['only the constructor validates the shape; sides assigned later are non-negative here']
FAMILIES = Families()


def judge(ctx, box, o, s, what, scaled=False):
    o, s = fv(o), fv(s)
    top = [a + b for a, b in zip(o, s)]
    mid = [a + b / 2 for a, b in zip(o, s)]
    expected = {
        'origin': o, 'shape': s, 'ranges': [[a, b] for a, b in zip(o, top)],
        'min_x': o[0], 'min_y': o[1], 'min_z': o[2], 'max_x': top[0], 'max_y': top[1], 'max_z': top[2],
        'mid_x': mid[0], 'mid_y': mid[1], 'mid_z': mid[2], 'width': s[0], 'height': s[1], 'depth': s[2],
        'center_point': mid, 'floor_point': [mid[0], o[1], mid[2]], 'volume': s[0] * s[1] * s[2],
        'surface_area': 2 * (s[0] * s[1] + s[1] * s[2] + s[0] * s[2]),
    }
    for name in sorted(expected):
        size = max(abs(float(x)) for x in np.ravel(np.array(expected[name], dtype=object))) if scaled else None
        require_close(getattr(box, name), expected[name], '%s of the box %s', name, what, scale=size, tol=1e-6 if scaled and isinstance(box.shape, np.ndarray) and box.shape.dtype == np.float32 else 1e-9)
        ctx.step()
    # reading leaves the box as it was
    require_close(box.origin, o, 'origin of the box %s after reading', what)
    require_close(box.shape, s, 'shape of the box %s after reading', what)


SIZES = [2.0 ** -60, 2.0 ** 60, 2.0 ** -30, 2.0 ** -9, 2.0 ** 9, 2.0 ** 30]


@FAMILIES.family(lambda tier: product(SIZES, [(0, 0, 0), (-2, 0, 1.5), (1000, -5, 4096)], itertools.product((0, 1, 2.5, 1000), repeat=3)))
def other_sizes(ctx, by, origin, shape):
    """Boxes in other units, thin ones, far ones, and boxes of other numeric types."""
    from blmath.geometry import Box
    o, s = [x * by for x in origin], [x * by for x in shape]
    forms = [list, lambda x: np.array(x, dtype=float)]
    if by == 2.0 ** 9:
        forms += [lambda x: np.array(x, dtype=int), lambda x: np.array(x, dtype=np.float32), lambda x: np.array(x, dtype=np.int64)[::-1].copy()[::-1]]
    for form in forms:
        judge(ctx, Box(form(o), form(s)), o, s, '%s %s' % (o, s), scaled=True)
    ctx.state('size', by, tuple(origin), tuple(shape))


@FAMILIES.family(lambda tier: product(itertools.product((-40, -13, 0, 9, 40) if tier == 'quick' else range(-40, 41, 8), repeat=3), [False, True]))
def unlike_sides(ctx, bits, flat):
    """Sides of very different lengths: each counts."""
    from blmath.geometry import Box
    s = [2.0 ** b * (1 + 0.25 * i) for i, b in enumerate(bits)]
    if flat:
        s[sum(bits) % 3] = 0.0
    box = Box([0, 0, 0], s)
    x, y, z = fv(s)
    area, volume = 2 * (x * y + y * z + z * x), x * y * z
    require(abs(F(float(box.surface_area)) - area) <= area / 10 ** 12, 'surface area of a box of %s: %r', s, box.surface_area)
    require(abs(F(float(box.volume)) - volume) <= volume / 10 ** 12, 'volume of a box of %s: %r', s, box.volume)
    require([box.max_x, box.max_y, box.max_z] == s and [2 * box.mid_x, 2 * box.mid_y, 2 * box.mid_z] == s, 'extent of a box of %s', s)
    require([2 * c for c in box.center_point] == s and box.ranges.tolist() == [[0, c] for c in s], 'ranges of a box of %s', s)
    ctx.step(6)
    ctx.state('unlike', tuple(bits), flat)


def sets(tier):
    if tier == 'quick':
        return (-2, 0, 1.5), (0, 1, 2.5, 7)
    return (-2, 0, 1.5, 100, -0.25), (0, 1, 2.5, 7, 0.125)


@FAMILIES.family(lambda tier: product(itertools.product(sets(tier)[0], repeat=3), itertools.product(sets(tier)[1], repeat=3)))
def boxes(ctx, origin, shape):
    from blmath.geometry import Box
    forms = [list, tuple, lambda x: np.array(x, dtype=float)]
    if all(float(x).is_integer() for x in list(origin) + list(shape)):
        forms += [lambda x: np.array(x, dtype=int), lambda x: [int(y) for y in x]]
    for form in forms:
        o, s = form(origin), form(shape)
        box = Box(o, s)
        judge(ctx, box, origin, shape, '%s %s' % (origin, shape))
        judge(ctx, Box(origin=o, shape=s), origin, shape, '%s %s' % (origin, shape))
        require(list(o) == list(origin) and list(s) == list(shape), 'an argument was changed')
    ctx.state(tuple(origin), tuple(shape))
    ctx.outcome('box', sum(x == 0 for x in shape))


@FAMILIES.family(lambda tier: ((list(s),) for s in itertools.product((-1, -0.001, 0, 2), repeat=3)))
def negative(ctx, shape):
    from blmath.geometry import Box
    for form in (list, tuple, np.array):
        for origin in ([0, 0, 0], [1, -5, 2.5]):
            if min(shape) < 0:
                require_refused('shape %s' % (shape,), lambda: Box(origin, form(shape)), ValueError)
                ctx.outcome('refused')
            else:
                judge(ctx, Box(origin, form(shape)), origin, shape, '%s %s' % (origin, shape))
            ctx.step()
    ctx.state('negative', tuple(shape))


MALFORMED = [[], [1], [1, 2], [1, 2, 3, 4], [[1, 2, 3]], [[1], [2], [3]], None, 'abc', [1, 2, None], [1, 2, 'x'], [1, 2, float('nan')],
             [1, float('inf'), 2], 5, [True, False, True], [1j, 2, 3], [[1, 2], [3, 4]]]


@FAMILIES.family(lambda tier: product(range(len(MALFORMED)), range(2)))
def malformed(ctx, i, which):
    from blmath.geometry import Box
    bad = MALFORMED[i]
    args = [[0, 1, 2], [1, 2, 3]]
    args[which] = bad
    require_refused('%s %r' % (('origin', 'shape')[which], bad), lambda: Box(*args), ValueError, TypeError)
    ctx.step()
    ctx.state('malformed', i, which)
    ctx.outcome('malformed')


OPS = ['origin=', 'shape=', 'origin[0]=', 'shape[1]=', 'origin+=', 'shape*=', 'shape=0', 'other', 'origin turned', 'shape turned', 'grown backwards']


@FAMILIES.family(lambda tier: ((list(h),) for h in histories(OPS, 4 if tier == 'quick' else 6)))
def changes(ctx, ops):
    """Whatever is assigned, every quantity is that of the current origin and shape."""
    from blmath.geometry import Box
    o, s = fv((1, 2, 3)), fv((4, 1, 2))
    box = Box([1.0, 2.0, 3.0], [4.0, 1.0, 2.0])
    done = []
    for op in ops:
        done.append(op)
        if op == 'origin=':
            o = [o[1] + 1, o[2], o[0]]
            box.origin = np.array([float(x) for x in o])
        elif op == 'shape=':
            s = [s[1] + 1, s[2], s[0]]
            box.shape = np.array([float(x) for x in s])
        elif op == 'origin[0]=':
            o[0] -= 5
            box.origin[0] = float(o[0])
        elif op == 'shape[1]=':
            s[1] += F(1, 2)
            box.shape[1] = float(s[1])
        elif op == 'origin+=':
            o = [x + 2 for x in o]
            box.origin += 2
        elif op == 'shape*=':
            s = [x * 2 for x in s]
            box.shape *= 2
        elif op == 'origin turned':
            o = [o[2], o[0], o[1]]
            box.origin[:] = [float(x) for x in o]
        elif op == 'shape turned':
            s = [s[2], s[0], s[1]]
            box.shape[:] = [float(x) for x in s]
        elif op == 'grown backwards':
            # the far corner stays where it was
            o, s = [x - 1 for x in o], [x + 1 for x in s]
            box.origin -= 1
            box.shape += 1
        elif op == 'shape=0':
            s = fv((0, 0, 0))
            box.shape = np.zeros(3)
        else:
            other = Box([9, 9, 9], [1, 1, 1])
            judge(ctx, other, (9, 9, 9), (1, 1, 1), 'another')
        judge(ctx, box, o, s, 'after %s' % done)
        ctx.state('history', tuple(o), tuple(s))
