import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc import env
from mc.engine import Families, product, require
from mc.lib import cross, dot, fv, norm2, rank, require_close, require_refused

PROPERTY = 'C07'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every axis in {-1,0,1}^3 and 6 skew axes x 41 angles up to 3 turns; every up, look in {-2..2}^3 at 3 magnitudes; '
             'every Euler order of length 1-3 x 8^k angles; 215 axes with tiny components x 15 angles close to none and to half a turn; half and quarter turns '
             'as products of rotations with 145 x 14 axes, also rounded and in single precision; look directions from 2^-5 to 2^-30 off up; angles given as '
             'integers of every width, single and double precision, lists and tuples',
    'thorough': 'axes in {-2..2}^3 x 145 angles; up, look in {-3..3}^3; Euler angles at 15 degree steps',
}
RULE = ('exhaustive grids of axes, angles, direction pairs and Euler orders against quaternion, exact and OpenCV references; '
        'a state is one configuration; non-trivial when the rotation is not the identity')
ASSUMPTIONS = ['half turns recovered from a matrix are compared to 1e-7 (angles from a cosine), everything else to 1e-9',
               'the Jacobian at half turns is not defined and not judged']
FAMILIES = Families()


def prepare(scratch):
    env.with_chumpy()


def quaternion_matrix(axis, theta):
    """Independent of the code: rotation matrix by quaternion."""
    n = math.sqrt(sum(x * x for x in axis))
    w = math.cos(theta / 2)
    x, y, z = [math.sin(theta / 2) * a / n for a in axis]
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def is_rotation(R, what, *args):
    require(R.shape == (3, 3), what + ': shape %s', *(args + (R.shape,)))
    require_close(R.dot(R.T), np.eye(3).tolist(), what + ': orthonormal', *args)
    require(abs(np.linalg.det(R) - 1) < 1e-9, what + ': determinant', *args)


def axes(tier):
    r = (-1, 0, 1) if tier == 'quick' else (-2, -1, 0, 1, 2)
    grid = [a for a in itertools.product(r, repeat=3) if any(a)]
    return grid + [(1, 2, 3), (-3, 1, 0.5), (1e-3, 1, 0), (0, 5, -1e-3), (10, -10, 1), (2, 2, -1)]


def angles(tier):
    n = 20 if tier == 'quick' else 72
    out = [k * math.pi / 12 if tier == 'quick' else k * math.pi / 36 for k in range(-n, n + 1)]
    return out + [1e-3, 1e-2, 3.1, 3.14, 5.0, 6 * math.pi - 0.5]


@FAMILIES.family(lambda tier: product(axes(tier), angles(tier)))
def vector_to_matrix(ctx, axis, theta):
    import cv2
    from blmath.geometry.transform.rodrigues import rodrigues, as_rotation_matrix, Rodrigues
    import chumpy as ch
    n = math.sqrt(sum(x * x for x in axis))
    v = np.array([theta * a / n for a in axis])
    want = quaternion_matrix(axis, theta)
    if any(axis) and abs(abs(theta) % (2 * math.pi)) > 1e-9:
        ctx.state(axis_key(axis), theta)
    for form in (v, v.reshape(3, 1), v.reshape(1, 3), v.tolist()):
        before = np.array(form)
        R = rodrigues(form)
        is_rotation(R, 'rodrigues(%s)', v)
        require_close(R, want.tolist(), 'rodrigues(%s)', v)
        require(np.array_equal(np.array(form), before), 'the argument was changed')
        ctx.step()
    for form in (v, v.reshape(3, 1), v.reshape(1, 3)):
        require_close(as_rotation_matrix(form), want.tolist(), 'as_rotation_matrix(%s)', v)
        ctx.step()
    R, jac = rodrigues(v, calculate_jacobian=True)
    cvR, cvjac = cv2.Rodrigues(v)
    require_close(R, want.tolist(), 'rodrigues with Jacobian (%s)', v)
    require_close(R, cvR.tolist(), 'OpenCV (%s)', v)
    require(jac.shape == (3, 9), 'shape of the Jacobian')
    require_close(jac, cvjac.tolist(), 'Jacobian of rodrigues(%s)', v)
    h = 1e-6
    numeric = np.array([(quat_vec(v + h * e) - quat_vec(v - h * e)).ravel() / (2 * h) for e in np.eye(3)])
    require_close(jac, numeric.tolist(), 'Jacobian of rodrigues(%s) against differences', v, tol=1e-6)
    rt = ch.array(v)
    node = Rodrigues(rt=rt)
    require_close(np.array(node.r), want.tolist(), 'Rodrigues node (%s)', v)
    require_close(np.asarray(dense(node.dr_wrt(rt))), numeric.T.tolist(), 'derivative of the Rodrigues node (%s)', v, tol=1e-6)
    rt[:] = 2 * v
    require_close(np.array(node.r), quat_vec(2 * v).tolist(), 'Rodrigues node after its vector changes (%s)', v)
    ctx.step(5)
    ctx.outcome('full turn' if abs(theta % (2 * math.pi)) < 1e-9 else 'turn')


def dense(m):
    return m.toarray() if hasattr(m, 'toarray') else np.asarray(m)


def axis_key(axis):
    n = math.sqrt(sum(x * x for x in axis))
    return tuple(round(a / n, 9) for a in axis)


def quat_vec(v):
    theta = math.sqrt(sum(x * x for x in v))
    return quaternion_matrix(v if theta else (1, 0, 0), theta)


def exact_jacobian(axis, theta):
    """Of angle / (2 sine) times the antisymmetric part, where the angle comes from the trace."""
    n = np.array(axis) / math.sqrt(norm2(axis))
    s, c = math.sin(theta), math.cos(theta)
    if abs(theta) < 1e-2:
        k, slope = 0.5 * (1 + theta ** 2 / 6), -(1 / 12. + theta ** 2 / 30)
    else:
        k, slope = theta / (2 * s), (theta * c / s - 1) / (4 * s * s)
    out = np.zeros((9, 3))
    out[[0, 4, 8]] = slope * 2 * s * n
    for i, (plus, minus) in enumerate([(7, 5), (2, 6), (3, 1)]):
        out[plus, i], out[minus, i] = k, -k
    return out.tolist()


@FAMILIES.family(lambda tier: product(axes(tier), angles(tier), [1, 1.0001, 3]))
def matrix_to_vector(ctx, axis, theta, scale):
    """A rotation matrix (or a multiple of one) becomes the vector of that rotation, of at most half a turn."""
    import cv2
    from blmath.geometry.transform.rodrigues import rodrigues, as_rotation_matrix
    reduced = math.remainder(theta, 2 * math.pi)
    half = abs(abs(reduced) - math.pi) < 1e-2
    tol = 1e-7 if half else 1e-9
    R = quaternion_matrix(axis, theta)
    given = R * scale
    before = given.copy()
    v = rodrigues(given)
    require(np.size(v) == 3, 'shape %s', np.shape(v))
    v = v.ravel()
    require(np.linalg.norm(v) <= math.pi + 1e-9, 'more than half a turn: %s', v)
    require_close(quat_vec(v), R.tolist(), 'vector of the matrix of %s turned by %s', axis, theta, tol=tol)
    if not half:
        n = math.sqrt(sum(x * x for x in axis))
        require_close(v, [reduced * a / n for a in axis], 'vector of the matrix of %s turned by %s', axis, theta, tol=tol)
        if abs(reduced) > 1e-13:
            require_close(v / reduced, [a / n for a in axis], 'axis of the matrix of %s turned by %s', axis, theta, tol=1e-5 if abs(reduced) > 1e-9 else 1e-2)
    if not half and scale == 1:
        _, jac = rodrigues(given, calculate_jacobian=True)
        require_close(jac, exact_jacobian(axis, reduced), 'Jacobian at the matrix of %s turned by %s', axis, theta, tol=1e-5 if abs(reduced) < 1e-3 else 1e-6)
        if abs(reduced) > 9e-4:
            _, cvjac = cv2.Rodrigues(given)
            require_close(jac, cvjac.tolist(), 'Jacobian of OpenCV at the matrix of %s turned by %s', axis, theta, tol=1e-6)
        ctx.step()
    require_close(as_rotation_matrix(given), R.tolist(), 'as_rotation_matrix', tol=tol)
    require(np.array_equal(given, before), 'the matrix given was changed')
    ctx.step(2)
    ctx.state('matrix', axis_key(axis), theta, scale)
    ctx.outcome('half turn' if half else 'matrix')


CLOSE = [0, 1e-14, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 3e-6, 9e-6, 9.9e-6, 1.1e-5, 2e-5, 1e-4, 1e-3]


@FAMILIES.family(lambda tier: product([a for a in itertools.product((-3, 0, 1e-9, 1e-5, 1e-3, 2) if tier == 'quick' else
                                                                    (-3, -1, 0, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.5, 2), repeat=3) if any(a)],
                                      CLOSE, [0, 1, -1], [1, 7]))
def close_to_none_and_half(ctx, axis, off, halves, scale):
    """Angles close to none and close to half a turn."""
    matrix_to_vector(ctx, axis, off if not halves else halves * (math.pi - off), scale)


def primitive(n):
    out = []
    for a in itertools.product(range(-n, n + 1), repeat=3):
        if any(a) and math.gcd(*a) == 1 and a > (0, 0, 0):
            out.append(a)
    return out


def turned(tier):
    for a in primitive(3 if tier == 'quick' else 5):
        for b in primitive(1 if tier == 'quick' else 3) + [a]:
            yield (a, b, 'half')
            if max(map(abs, a)) < 3:
                yield (a, b, 'quarter')


@FAMILIES.family(turned)
def turned_turns(ctx, a, b, turn):
    """Half and quarter turns as computed: a product of rotations, with its rounding errors."""
    if not any(a) or not any(b):
        return
    from blmath.geometry.transform.rodrigues import rodrigues, as_rotation_matrix
    H = 2 * np.outer(a, a) / norm2(a) - np.eye(3) if turn == 'half' else quaternion_matrix(a, math.pi / 2)
    for angle in (0.7, math.pi / 2, 2.5):
        Q = quaternion_matrix(b, angle)
        for R in (Q.dot(H).dot(Q.T), H.dot(Q.T).dot(H).dot(Q), Q.dot(Q).dot(H)):
            for form in (R, R.astype(np.float32), np.round(R, 6)):
                tol = 1e-7 if form is R else 1e-5
                v = rodrigues(form)
                require(np.linalg.norm(v) <= math.pi + 1e-9, 'more than half a turn: %s', v)
                require_close(quat_vec(v.ravel()), R.tolist(), 'vector of %s', form, tol=tol)
                require_close(as_rotation_matrix(form), R.tolist(), 'as_rotation_matrix of %s', form, tol=tol)
                ctx.step(2)
    ctx.state('turned', tuple(a), tuple(b), turn)


@FAMILIES.family(lambda tier: product([1, 2, 3, 4, 9], [1, 2, 3, 4, 9]))
def wrong_shapes(ctx, r, c):
    from blmath.geometry.transform.rodrigues import rodrigues, as_rotation_matrix
    if (r, c) in ((1, 3), (3, 1), (3, 3)):
        return
    m = np.ones((r, c))
    require_refused('shape %s' % ((r, c),), lambda: rodrigues(m))
    require_refused('shape %s' % ((r, c),), lambda: as_rotation_matrix(m))
    if r != 3:
        require_refused('shape %s' % ((r,),), lambda: rodrigues(np.ones(r)))
    ctx.step(2)
    ctx.state('shape', r, c)


def directions(tier):
    r = range(-2, 3) if tier == 'quick' else range(-3, 4)
    return list(itertools.product(r, repeat=3))


@FAMILIES.family(lambda tier: [(tier, u) for u in directions(tier)])
def up_and_look(ctx, tier, up):
    from blmath.geometry.transform import rotation_from_up_and_look
    from mc.lib import cross, fv
    for look in directions(tier):
        for ku, kl in ((1, 1), (1e-3, 50), (7, 0.125)):
            u = [x * ku for x in up]
            l = [x * kl for x in look]
            c = cross(fv(up), fv(look))
            if not any(c):
                require_refused('up %s look %s' % (u, l), lambda: rotation_from_up_and_look(u, l), ValueError)
                ctx.outcome('refused')
            else:
                R = rotation_from_up_and_look(u, l)
                is_rotation(R, 'up %s look %s', u, l)
                require_close(R.dot(u), [0, math.sqrt(dot(u, u)), 0], 'up %s look %s: up goes to +y', u, l)
                d = dot(fv(up), fv(look)) / F(norm2(fv(up)))
                z = math.sqrt(float(norm2([F(a) - d * F(b) for a, b in zip(look, up)]))) * kl
                y = float(dot(fv(up), fv(look))) * kl / math.sqrt(norm2(up))
                require_close(R.dot(l), [0, y, z], 'up %s look %s: look goes to the +z side', u, l)
                ctx.outcome('oriented')
                ctx.state('up', tuple(up), look, ku)
            ctx.step()
    if max(map(abs, up)) <= 1:
        a, b = np.array(up, dtype=float), np.array([1., -2., 2.])
        if any(cross(fv(up), fv([1, -2, 2]))):
            R = rotation_from_up_and_look(a, b)
            require_close(R, rotation_from_up_and_look(list(up), [1, -2, 2]).tolist(), 'arrays and lists agree')
            require(np.array_equal(a, np.array(up, dtype=float)), 'an argument was changed')


@FAMILIES.family(lambda tier: product(range(5, 31), [u for u in itertools.product((-1, 0, 2), repeat=3) if any(u)], [(1, 1), (2.**-20, 2.**20), (2.**30, 2.**-30)]))
def nearly_up(ctx, bits, up, sizes):
    """A look which is nearly up is still a look."""
    from blmath.geometry.transform import rotation_from_up_and_look
    off = 2.0 ** -bits
    for aside in itertools.product((-1, 0, 1), repeat=3):
        if not any(cross(fv(up), fv(aside))):
            continue
        for side in (1, -1):
            look = [F(side * u) + F(a) * F(off) for u, a in zip(up, aside)]
            R = rotation_from_up_and_look([u * sizes[0] for u in up], [float(x) * sizes[1] for x in look])
            is_rotation(R, 'up %s look %s', up, look)
            d = dot(fv(up), look) / F(norm2(fv(up)))
            z = [a - d * b for a, b in zip(look, fv(up))]
            n = math.sqrt(float(norm2(z)))
            require_close(R[1], [u / math.sqrt(norm2(up)) for u in up], 'up %s look %s: y', up, look)
            require_close(R[2], [float(x) / n for x in z], 'up %s look %s: z', up, look, tol=2.0 ** (bits - 48))
            ctx.step()
    ctx.state('nearly', bits, tuple(up), tuple(sizes))


@FAMILIES.family(lambda tier: product(['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float32'], range(0, 127, 5), ['xyz', 'zyx', 'yxz', 'x', 'zz']))
def kinds_of_angles(ctx, kind, start, order):
    """Angles in degrees kept as whole numbers, of whatever size, are those angles."""
    from blmath.geometry.transform.rotation import euler
    degrees = [(start + 31 * i) % 128 for i in range(len(order))]
    unit = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1)}
    want = np.eye(3)
    for letter, d in zip(order, degrees):
        want = quaternion_matrix(unit[letter], math.radians(d)).dot(want)
    array = np.array(degrees, dtype=kind)
    for given in (array, list(array), tuple(array), array[::-1].copy()[::-1]) + ((array[0],) if len(order) == 1 else ()):
        require_close(euler(given, order=order), want.tolist(), 'euler of %s as %s about %s', degrees, kind, order, tol=1e-9 if kind != 'float32' else 1e-6)
        ctx.step()
    ctx.state('kinds', kind, start, order)


def euler_cases(tier):
    step = 30 if tier == 'quick' else 15
    few = [0, 30, 90, -90, 180, 45, 200, -10] if tier == 'quick' else range(-180, 361, 45)
    for order in itertools.product('xyz', repeat=1):
        for a in range(-360, 361, step):
            yield (''.join(order), (a,))
    for order in itertools.product('xyz', repeat=2):
        for t in itertools.product(few, repeat=2):
            yield (''.join(order), t)
    for order in itertools.product('xyz', repeat=3):
        for t in itertools.product(few, repeat=3):
            yield (''.join(order), t)


@FAMILIES.family(euler_cases)
def euler_angles(ctx, order, degrees):
    from blmath.geometry.transform.rotation import euler
    unit = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1)}
    want = np.eye(3)
    for letter, d in zip(order, degrees):
        want = quaternion_matrix(unit[letter], math.radians(d)).dot(want)
    got = euler(list(degrees), order=order)
    is_rotation(got, 'euler(%s, %s)', degrees, order)
    require_close(got, want.tolist(), 'euler(%s, %s)', degrees, order)
    rad = [math.radians(d) for d in degrees]
    require_close(euler(rad, order=order, units='rad'), want.tolist(), 'euler in radians (%s, %s)', degrees, order)
    require_close(euler(np.array(degrees, dtype=float), order, 'deg'), want.tolist(), 'euler of an array')
    ctx.step(3)
    if order == 'xyz':
        require_close(euler(list(degrees)), want.tolist(), 'default order')
    if len(order) == 1:
        require_close(euler(degrees[0], order=order), want.tolist(), 'euler of a number')
        require_close(euler(rad[0], order, 'rad'), want.tolist(), 'euler of a number in radians')
        if order == 'x':
            require_close(euler(degrees[0]), want.tolist(), 'euler of a number about x')
    ctx.state('euler', order, degrees if isinstance(degrees, tuple) else tuple(degrees))
    ctx.outcome('euler', len(order))
