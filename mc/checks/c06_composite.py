import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc import env
from mc.engine import Families, product, require
from mc.lib import fv, identity, inverse, matmul, rank, require_close, require_refused

PROPERTY = 'C06'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every sequence of 3 steps out of 20 (15 transformations, 5 groups of refused calls); after every step every sub-range, both directions, '
             '4 point sets; plus stacks of 1..12 equal or cyclic steps with every sub-range; '
             'caller arrays used again and answers overwritten; every invertible 3x3 matrix of -1, 0 and 1 and unequal scales, with and without a translation; steps which do as little as 2^-48 or as much as 2^48',
    'thorough': 'every sequence of 4 steps out of the same 20, every sub-range, both directions; stacks of 1..24',
}
ASSUMPTIONS = ['matrices given by the caller are affine (last row 0 0 0 1)',
               'sub-ranges satisfy 0 <= start <= stop <= number of steps',
               'comparison to 1e-9 relative against exact rational matrices']
FAMILIES = Families()


def prepare(scratch):
    env.with_chumpy()


R90Z = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
R345 = [[F(3, 5), 0, F(4, 5)], [0, 1, 0], [F(-4, 5), 0, F(3, 5)]]
SHEAR = [[1, 2, 0], [0, 1, 0], [0, -1, 2]]
OTHER = [[2, 0, 1], [0, 1, 0], [1, 0, 1]]
AFFINE = [[1, 0, 2, 5], [0, 2, 0, -1], [1, 1, 1, 0], [0, 0, 0, 1]]
AFFINE_B = [[0, 1, 0, 2], [1, 0, 0, 3], [0, 0, 3, -4], [0, 0, 0, 1]]


def m4(m3):
    return [fv(r) + [F(0)] for r in m3] + [fv([0, 0, 0, 1])]


def shift(v):
    m = identity(4)
    for i in range(3):
        m[i][3] = F(v[i])
    return m


def scaling(k):
    m = identity(4)
    for i in range(3):
        m[i][i] = F(k)
    return m


def arr(m):
    return np.array([[float(x) for x in r] for r in m])


def steps():
    """name, call on a transform, forward matrix (None: must be refused), reverse matrix, returns an index"""
    up_look = [[0, 0, 1], [0, 1, 0], [-1, 0, 0]]  # up = y, look = -x
    return [
        ('scale 2', lambda t: t.scale(2), scaling(2), None, True),
        ('scale .25', lambda t: t.scale(0.25), scaling(F(1, 4)), None, True),
        ('translate', lambda t: t.translate(np.array([1., -2., 3.])), shift([1, -2, 3]), None, True),
        ('translate list', lambda t: t.translate([4, 0, -1]), shift([4, 0, -1]), None, True),
        ('reorient', lambda t: t.reorient(up=[0, 1, 0], look=[-1, 0, 0]), m4(up_look), None, True),
        ('reorient tilted', lambda t: t.reorient(np.array([0., 3., 4.]), np.array([2., 0., 0.])),
         m4([[0, F(4, 5), F(-3, 5)], [0, F(3, 5), F(4, 5)], [1, 0, 0]]), None, True),
        ('rotate vector', lambda t: t.rotate(np.array([0., 0., math.pi / 2])), m4(R90Z), None, True),
        ('rotate matrix', lambda t: t.rotate(arr(R345)), m4(R345), None, True),
        ('rotate list', lambda t: t.rotate([0, -math.pi / 2, 0]), m4([[0, 0, -1], [0, 1, 0], [1, 0, 0]]), None, True),
        ('matrix3', lambda t: t.append_transform3(arr(SHEAR)), m4(SHEAR), None, True),
        ('matrix3 pair', lambda t: t.append_transform3(arr(SHEAR), arr(OTHER)), m4(SHEAR), m4(OTHER), True),
        ('matrix4', lambda t: t.append_transform4(arr(AFFINE)), [fv(r) for r in AFFINE], None, True),
        ('matrix4 pair', lambda t: t.append_transform4(arr(AFFINE_B), reverse=arr(AFFINE)),
         [fv(r) for r in AFFINE_B], [fv(r) for r in AFFINE], True),
        ('units', lambda t: t.convert_units('m', 'cm'), scaling(100), None, False),
        ('units none', lambda t: t.convert_units(from_units='in', to_units='in'), scaling(1), None, False),
        ('bad factors', [lambda t: t.scale(0), lambda t: t.scale(-1.5), lambda t: t.scale(0.0), lambda t: t.scale(-3)], None, None, True),
        ('bad units', [lambda t: t.convert_units('kg', 'g'), lambda t: t.convert_units('cm', 'kg'), lambda t: t.convert_units('kg', 'kg'),
                       lambda t: t.convert_units('cm', 'blah'), lambda t: t.convert_units(None, 'cm')], None, None, True),
        ('bad directions', [lambda t: t.reorient([1, 1, 1], [-2, -2, -2]), lambda t: t.reorient([0, 0, 0], [0, 0, 1]),
                            lambda t: t.reorient([0, 1, 0], [0, 0, 0])], None, None, True),
        ('bad vectors', [lambda t: t.translate([1, 2]), lambda t: t.translate(np.array([1., 2., 3., 4.])), lambda t: t.translate(np.eye(3)),
                         lambda t: t.rotate([1, 2]), lambda t: t.rotate(np.eye(4)), lambda t: t.rotate(np.zeros((0,)))], None, None, True),
        ('bad matrices', [lambda t: t.append_transform3(np.eye(4)), lambda t: t.append_transform3(np.eye(3), np.eye(4)),
                          lambda t: t.append_transform3(np.ones((3, 2))), lambda t: t.append_transform4(np.eye(3)),
                          lambda t: t.append_transform4(np.ones((3, 4))), lambda t: t.append_transform4(np.ones((2, 4, 4))),
                          lambda t: t.append_transform4(np.eye(4), np.eye(3)),
                          lambda t: t.append_transform4(np.zeros((4, 4))), lambda t: t.append_transform3(np.zeros((3, 3)))], None, None, True),
    ]


class Reused(object):
    """One buffer for all the arrays a caller hands over: written anew before each call."""

    def __init__(self, n):
        self.a = np.zeros((n, n))

    def __call__(self, m):
        self.a[...] = arr(m)
        return self.a


STEPS = steps()
POINTS = [
    np.zeros((0, 3)),
    np.array([[1., 2., 3.]]),
    np.array([[0., 0., 0.], [1., 0., 0.], [0., -2., 0.], [0.5, 0.25, -8.]]),
    np.array([[1, 2, 3], [-4, 5, 6], [0, 0, 1]]),
]


def gen(tier):
    n = len(STEPS)
    if tier == 'quick':
        return product(range(n), range(n), range(n))
    return product(range(n), range(n), range(n), range(n))


@FAMILIES.family(gen)
def sequence(ctx, *ops):
    from blmath.geometry.transform import CompositeTransform
    t = CompositeTransform()
    model = []
    for i, op in enumerate(ops):
        apply_step(ctx, t, model, op, [STEPS[o][0] for o in ops[:i + 1]])
        # a query in between never changes what follows
        if i + 1 < len(ops):
            judge(ctx, t, model, 0, len(model), i % 2 == 1, POINTS[2], ops)
            so_far = product_of(model, 0, len(model), i % 2 == 0)
            names = [STEPS[o][0] for o in ops[:i + 1]]
            require_close(t(POINTS[2], reverse=i % 2 == 0), image(so_far, POINTS[2]), 'all of the steps so far, %s', names)
            require_close(t.matrix_for(reverse=i % 2 == 0), so_far, 'matrix of all of the steps so far, %s', names)
            ctx.step(2)
    for start in range(len(model) + 1):
        for stop in range(start, len(model) + 1):
            for reverse in (False, True):
                judge(ctx, t, model, start, stop, reverse, POINTS[(start + stop) % 4], ops)
    judge_all(ctx, t, model, ops)
    # ... and once more: queries are repeatable
    for reverse in (True, False):
        judge(ctx, t, model, 0, len(model), reverse, POINTS[2], ops)
    ctx.state(tuple(map(tuple, product_of(model, 0, len(model), False))))


def apply_step(ctx, t, model, op, names):
    name, call, forward, reverse, returns_index = STEPS[op]
    ctx.step()
    if forward is None:
        for k, one in enumerate(call):
            require_refused('%s, number %d' % (names, k), lambda one=one: one(t))
            ctx.step()
        ctx.outcome('refused', name)
        return
    index = call(t)
    if returns_index:
        require(index == len(model), '%s: returned index %r, expected %d', names, index, len(model))
    model.append(op)
    ctx.outcome(name)


INVERSES = {}
PRODUCTS = {}


def exact(ops, reverse):
    """The exact matrix of a sequence of steps, extended by one step at a time."""
    key = (ops, reverse)
    if key not in PRODUCTS:
        if not ops:
            PRODUCTS[key] = identity(4)
        elif reverse:  # the last step is undone first
            PRODUCTS[key] = matmul(reverse_of(ops[0]), exact(ops[1:], True))
        else:
            PRODUCTS[key] = matmul(STEPS[ops[-1]][2], exact(ops[:-1], False))
    return PRODUCTS[key]


def reverse_of(op):
    if op not in INVERSES:
        INVERSES[op] = STEPS[op][3] if STEPS[op][3] is not None else inverse(STEPS[op][2])
    return INVERSES[op]


FLOATS = {}


def product_of(model, start, stop, reverse):
    key = (tuple(model[start:stop]), reverse)
    if key not in FLOATS:
        FLOATS[key] = np.array([[float(x) for x in r] for r in exact(*key)])
        if len(FLOATS) > 200000:
            FLOATS.clear()
            PRODUCTS.clear()
            FLOATS[key] = np.array([[float(x) for x in r] for r in exact(*key)])
    return FLOATS[key]


def image(matrix, points):
    return points.astype(float).dot(matrix[:3, :3].T) + matrix[:3, 3]


def judge(ctx, t, model, start, stop, reverse, points, ops):
    want = product_of(model, start, stop, reverse)
    what = 'steps %s, range (%d, %d), reverse=%s' % ([STEPS[o][0] for o in ops], start, stop, reverse)
    before = points.copy()
    got = t(points, from_range=(start, stop), reverse=reverse)
    matrix = t.matrix_for(from_range=(start, stop), reverse=reverse)
    require_close(matrix, want, 'matrix of %s', what)
    if matrix.flags.writeable:  # its owner may do so
        matrix[...] = 77
    expected = image(want, points)
    require(got.shape == points.shape, 'shape of %s: %s', what, got.shape)
    if len(points):
        require_close(got, expected, 'points of %s', what)
    if got.flags.writeable:
        got[...] = 77
    require(np.array_equal(points, before) and not np.shares_memory(got, points), 'the points given were changed: %s', what)
    ctx.step(2)


def judge_all(ctx, t, model, ops):
    """No range means all of them; forward then reverse is the identity where the inverses are true."""
    n = len(model)
    names = [STEPS[o][0] for o in ops]
    for reverse in (False, True):
        want = product_of(model, 0, n, reverse)
        require_close(t.matrix_for(reverse=reverse), want, 'matrix of all steps %s reverse=%s', names, reverse)
        p = POINTS[2]
        expected = image(want, p)
        require_close(t(p, reverse=reverse), expected, 'all steps %s reverse=%s', names, reverse)
        ctx.step(2)
    p = POINTS[2]
    stepwise = p
    for i in range(n):
        stepwise = t(stepwise, from_range=(i, i + 1))
    require_close(t(p), stepwise.tolist(), 'one by one: %s', names)
    if all(STEPS[o][3] is None for o in model):
        back = t(t(p), reverse=True)
        require_close(back, p.tolist(), 'round trip: %s', names, tol=1e-8)
        ctx.outcome('round trip')
    ctx.step(2)


def long_gen(tier):
    n = 12 if tier == 'quick' else 24
    for length in range(1, n + 1):
        for first in range(15):
            for stride in (0, 1, 4):
                yield (length, first, stride)


@FAMILIES.family(long_gen)
def long_stack(ctx, length, first, stride):
    """Longer stacks, every sub-range, both directions."""
    from blmath.geometry.transform import CompositeTransform
    allowed = [i for i in range(15) if STEPS[i][0] not in ('units', 'matrix4', 'matrix4 pair')]
    t = CompositeTransform()
    model = []
    ops = [allowed[(first + k * stride) % len(allowed)] for k in range(length)]
    for op in ops:
        apply_step(ctx, t, model, op, [op])
    for start in range(length + 1):
        for stop in range(start, length + 1):
            if stop - start > 6 and not (start == 0 or stop == length):
                continue
            for reverse in (False, True):
                want = product_of(model, start, stop, reverse)
                scale = max(1.0, np.abs(want).max())
                got = t.matrix_for(from_range=(start, stop), reverse=reverse)
                require_close(got, want, 'stack %s range (%d, %d) reverse=%s', ops, start, stop, reverse, tol=1e-7, scale=scale)
                ctx.step()
    ctx.state('long', length, first, stride)


@FAMILIES.family(lambda tier: product(range(6), range(6)))
def two_transforms(ctx, a, b):
    """Two transforms in use at once never influence each other."""
    from blmath.geometry.transform import CompositeTransform
    t, u = CompositeTransform(), CompositeTransform()
    mt, mu = [], []
    for k in range(3):
        apply_step(ctx, t, mt, (a + 2 * k) % 15, ['t'])
        apply_step(ctx, u, mu, (b + 5 * k) % 15, ['u'])
        judge(ctx, t, mt, 0, len(mt), k == 1, POINTS[2], [a])
        judge(ctx, u, mu, 0, len(mu), k == 0, POINTS[2], [b])
    fresh = CompositeTransform()
    require_close(fresh.matrix_for(), identity(4), 'a new transform is the identity')
    require_close(fresh(POINTS[2]), POINTS[2].tolist(), 'a new transform is the identity')
    ctx.state('two', a, b)


MATRICES3 = [SHEAR, OTHER, R90Z]
MATRICES4 = [AFFINE, AFFINE_B, identity(4)]


@FAMILIES.family(lambda tier: product(range(3), range(3), range(3), [3, 4], range(4)))
def reused_buffers(ctx, a, b, c, n, form):
    """The caller fills one array again and again; each step is what the array was then."""
    from blmath.geometry.transform import CompositeTransform
    t = CompositeTransform()
    forward, backward = Reused(n), Reused(n)
    matrices = MATRICES3 if n == 3 else MATRICES4
    want, back = identity(4), identity(4)
    for k in (a, b, c):
        m, r = matrices[k], matrices[(k + 1) % 3]
        append = t.append_transform3 if n == 3 else t.append_transform4
        if form == 0:
            append(forward(m))
            r = inverse(m)
        elif form == 1:
            append(forward(m), backward(r))
        elif form == 2:
            append(forward(m), reverse=backward(r))
            forward(identity(n))
            backward(identity(n))
        else:
            vector = np.array([1., 2., float(k)])
            t.translate(vector)
            vector[:] = 77
            m, r = shift([1, 2, k]), shift([-1, -2, -k])
        m, r = [x if len(x) == 4 else m4(x) for x in (m, r)]
        want, back = matmul([fv(x) for x in m], want), matmul(back, [fv(x) for x in r])
        require_close(t.matrix_for(), want, 'matrix after a buffer was used again')
        require_close(t.matrix_for(reverse=True), back, 'reverse matrix after a buffer was used again')
        ctx.step(3)
    ctx.state('reused', a, b, c, n, form)


DIAGONAL = (0.25, 0.5, 2.25, 3, -1, -0.125)


@FAMILIES.family(lambda tier: [('small', r, s) for r in itertools.product((-1, 0, 1), repeat=3) for s in itertools.product((-1, 0, 1), repeat=3)] +
                 [('diagonal', (a, b), ()) for a in DIAGONAL for b in DIAGONAL])
def any_matrix(ctx, kind, r, s):
    """Whatever the matrix, what is undone is what was done."""
    from blmath.geometry.transform import CompositeTransform
    if kind == 'small':
        matrices = [[r, s, t] for t in itertools.product((-1, 0, 1), repeat=3)]
    else:
        matrices = [[[r[0], 0, 0], [0, r[1], 0], [0, 0, c]] for c in DIAGONAL]
    points = np.array([[1., 2, -3], [0.5, 0, 8]])
    for m in matrices:
        forward = m4(m)
        if rank(forward) < 4:
            continue
        for moved in (False, True):
            if moved:
                forward = [row[:3] + [F(k)] for row, k in zip(forward, (5, -1, 2))] + [forward[3]]
            back = inverse(forward)
            t = CompositeTransform()
            if moved:
                t.append_transform4(arr(forward))
            else:
                t.append_transform3(np.array(m, dtype=float))
            require_close(t.matrix_for(), forward, 'matrix %s', forward)
            require_close(t.matrix_for(reverse=True), back, 'reverse of the matrix %s', forward)
            require_close(t(t(points), reverse=True), points.tolist(), 'points by %s and back', forward)
            ctx.step(3)
    ctx.state('matrix', kind, tuple(r), tuple(s))


@FAMILIES.family(lambda tier: product(range(0, 49, 4 if tier == 'quick' else 1), ['translate', 'scale', 'matrix', 'rotate', 'large translate', 'large scale']))
def slight_steps(ctx, bits, how):
    """A step which does very little, or very much, does and undoes just that."""
    from blmath.geometry.transform import CompositeTransform
    little = 2.0 ** -bits
    t = CompositeTransform()
    if how.endswith('translate'):
        by = little if how == 'translate' else 1 / little
        t.translate([by, -3 * by, 0])
        want, back = shift([by, -3 * by, 0]), shift([-by, 3 * by, 0])
    elif how == 'scale':
        t.scale(1 + little)
        want, back = scaling(1 + F(little)), scaling(1 / (1 + F(little)))
    elif how == 'large scale':
        t.scale(1 / little)
        t.scale(little / 2)
        want, back = scaling(F(1, 2)), scaling(2)
        require_close(t.matrix_for((0, 1)), scaling(1 / F(little)), 'scale by 2^%d', bits, tol=1e-12)
        require_close(t.matrix_for((1, 2), reverse=True), scaling(2 / F(little)), 'scale by 2^%d undone', bits, tol=1e-12)
    elif how == 'matrix':
        m = [[1, little, 0], [0, 1, 0], [0, -little, 1]]
        t.append_transform3(np.array(m))
        want, back = m4(m), m4([[1, -little, 0], [0, 1, 0], [0, little, 1]])
        require(abs(t.matrix_for()[0, 1] - little) <= 1e-12 * little and abs(t.matrix_for(reverse=True)[2, 1] - little) <= 1e-15 + 1e-12 * little, 'a shear by 2^-%d', bits)
    else:
        angle = math.pi * little
        t.rotate([0, 0, angle])
        c, s = math.cos(angle), math.sin(angle)
        want, back = m4([[c, -s, 0], [s, c, 0], [0, 0, 1]]), m4([[c, s, 0], [-s, c, 0], [0, 0, 1]])
    for reverse, expected in ((False, want), (True, back)):
        got = t.matrix_for(reverse=reverse)
        for i, j in itertools.product(range(4), range(4)):
            x = float(expected[i][j])
            # Next to nothing is not nothing: relative to the entry itself.
            slack = 1e-15 if how in ('rotate', 'matrix') or x == 0 else 0
            require(abs(got[i, j] - x) <= max({'rotate': 1e-10, 'scale': 2e-15}.get(how, 1e-12) * abs(x), slack), '%s by 2^-%d, reverse %s: entry %d, %d is %r, not %r', how, bits, reverse, i, j, got[i, j], x)
        ctx.step()
    if how == 'translate':
        moved = np.array([[little, -3 * little, 0]])
        require(np.all(np.abs(t(np.zeros((1, 3))) - moved) <= 1e-12 * little) and np.all(np.abs(t(np.zeros((1, 3)), reverse=True) + moved) <= 1e-12 * little),
                'the origin translated by 2^-%d', bits)
    ctx.state('slight', bits, how)


@FAMILIES.family(lambda tier: product([1, 2, 3, 4, 5], [1, 2, 3, 4, 5]))
def matrix_shapes(ctx, r, c):
    from blmath.geometry.transform.composite import convert_33_to_44, convert_44_to_33
    m = np.arange(1., r * c + 1).reshape(r, c)
    before = m.copy()
    if (r, c) == (3, 3):
        got = convert_33_to_44(m)
        require_close(got, m4(m.tolist()), 'padded matrix')
        require_close(convert_44_to_33(got), m.tolist(), 'unpadded matrix')
    else:
        require_refused('3x3 expected', lambda: convert_33_to_44(m), ValueError)
    if (r, c) == (4, 4):
        require_close(convert_44_to_33(m), m[:3, :3].tolist(), 'unpadded matrix')
    else:
        require_refused('4x4 expected', lambda: convert_44_to_33(m), ValueError)
    require(np.array_equal(m, before), 'the matrix given was changed')
    ctx.step(2)
    ctx.state('shape', r, c)


@FAMILIES.family(lambda tier: product(range(8)))
def bad_points(ctx, which):
    from blmath.geometry.transform import CompositeTransform
    t = CompositeTransform()
    t.scale(2)
    bad = [np.zeros(3), np.zeros((2, 2)), np.zeros((3, 4)), np.zeros((1, 3, 3)), np.zeros((3, 1)), np.zeros((0,)), np.zeros((5, 0)), np.zeros((4, 4))][which]
    require_refused('points of shape %s' % (bad.shape,), lambda: t(bad), ValueError)
    ctx.step()
    ctx.state('bad', which)
