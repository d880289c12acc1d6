import itertools
import math

import numpy as np

from mc.engine import Families, product, require
from mc.lib import cross, dot, norm2, require_close, require_refused, same_bits, sgn

PROPERTY = 'C17'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every ordered pair of vectors of {-2,0,1,3}^3 and 6 others (integer and float arrays, three magnitudes), alone and in stacks '
             'of 0, 1, 3 and 12; every look direction of {-1,0,1}^3; vectors of dimension 1, 2, 4 and 5; all wrong shapes; '
             'likewise: vectors of length 2^-300 to 2^300, look-alike last columns, stacks of 1000 and 5000',
    'thorough': 'every ordered pair of vectors of {-3,...,3}^3',
}
RULE = 'exhaustive vector pairs against exact dot and cross products; a state is one pair'
ASSUMPTIONS = ['directions projected onto or normalized are not zero', 'angles of collinear vectors are compared to 1e-5 degrees']
FAMILIES = Families()

LOOKS = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)] + [(-1, 2, 5)]


def vectors(tier):
    r = (-2, 0, 1, 3) if tier == 'quick' else range(-3, 4)
    return list(itertools.product(r, repeat=3)) + [(0.5, -0.25, 8), (1e-3, 0, 1), (100, 3, -7), (0.1, 0.2, 0.3), (-1, -1, 1e3), (0, 0.7, 0)]


def pairs(tier):
    return ((tier, u) for u in vectors(tier))


def make(v, kind):
    if kind == 'int':
        return np.array(v)
    if kind == 'strided':
        return np.repeat(np.array(v, dtype=float), 2)[::2]
    return np.array(v, dtype=float)


@FAMILIES.family(pairs)
def pair(ctx, tier, u):
    from blmath.numerics import vx
    u = tuple(u)
    others = vectors(tier)
    nu = math.sqrt(norm2(u))
    for k, w in enumerate(others):
        kind = ('float', 'int', 'strided')[k % 3]
        scale = (1, 1, 1000, 0.001)[k % 4] if kind != 'int' else 1
        v = tuple(x * scale for x in w)
        a, b = make(u, kind), make(v, kind)
        before = a.copy(), b.copy()
        nv = math.sqrt(norm2(v))
        what = '%s, %s' % (u, v)
        if nv:
            s = dot(u, v) / nv
            p = [x / nv * s for x in v]
            require_close(vx.sproj(a, onto=b), s, 'sproj %s', what)
            require_close(vx.proj(a, onto=b), p, 'proj %s', what)
            r = vx.reject(a, from_v=b)
            require_close(r, [x - y for x, y in zip(u, p)], 'reject %s', what)
            require(abs(float(np.dot(r, b))) <= 1e-9 * max(1, nu) * max(1, nv), 'reject %s is not perpendicular', what)
            ctx.step(3)
        if nv and nu:
            c = cross(u, v)
            want = math.degrees(math.atan2(math.sqrt(norm2(c)), dot(u, v)))
            tol = 1e-9 if 1e-3 < want < 179.999 else 1e-5
            got = vx.angle(a, b, np.array([0., 0., 1.]))
            require(-1e-12 <= got <= 180 + 1e-9 and abs(got - want) <= tol * max(1, want), 'angle %s: %s, expected %s', what, got, want)
            ctx.step()
            for look in LOOKS:
                turn = dot(c, look)
                if turn != 0 and abs(turn) < 1e-9 * max(nu * nv, 1e-9):
                    continue
                if turn == 0 and not all(float(x) == int(x) for x in u + v):
                    continue
                got = vx.signed_angle(a, b, np.array(look))
                expected = -want if turn < 0 else want
                require(abs(got - expected) <= tol * max(1, want), 'signed angle %s looking along %s: %s, expected %s', what, look, got, expected)
                ctx.outcome(sgn(turn))
                ctx.step()
            square = norm2(c)
            for atol in (1e-8, 0.5, 20.):
                if abs(math.sqrt(square) - atol) > 1e-9 * max(1, nu * nv):
                    got = vx.almost_collinear(a, b, atol=atol)
                    require(bool(got) == (math.sqrt(square) <= atol), 'almost_collinear %s within %s: %s', what, atol, got)
                    ctx.step()
            if math.sqrt(square) > 1e-7 or square == 0 and kind != 'strided' and all(float(x) == int(x) for x in u + v):
                require(bool(vx.almost_collinear(a, b)) == (square == 0), 'almost_collinear %s', what)
        require(same_bits(a, before[0]) and same_bits(b, before[1]), 'an argument was changed: %s', what)
        ctx.state(tuple(u), v)


SIZES = [(2.**-30, 1.), (1., 2.**-30), (2.**-30, 2.**-30), (2.**-12, 2.**-12), (2.**30, 2.**-30), (2.**30, 2.**30), (2.**-100, 2.**-100), (2.**-300, 2.**-300), (1., 2.**-300), (2.**-300, 2.**300), (2.**300, 2.**300)]


@FAMILIES.family(lambda tier: ((u, k) for u in itertools.product((-2, 0, 1, 3) if tier == 'quick' else range(-3, 4), repeat=3)
                               for k in range(len(SIZES)) if any(u)))
def very_long_or_short(ctx, u, which):
    """Directions and angles do not depend on the lengths."""
    from blmath.numerics import vx
    su, sv = SIZES[which]
    a = np.array(u) * su
    nu = math.sqrt(norm2(u))
    require_close(vx.magnitude(a) / su, nu, 'magnitude of %s times %s', u, su)
    require_close(vx.normalize(a), [x / nu for x in u], 'normalize %s times %s', u, su)
    require_close(vx.normalize(np.array([a, a[::-1]]))[0], [x / nu for x in u], 'normalize a stack')
    for v in itertools.product((-2, 0, 1, 3), repeat=3):
        if not any(v):
            continue
        b = np.array(v) * sv
        nv = math.sqrt(norm2(v))
        what = '%s times %s, %s times %s' % (u, su, v, sv)
        s = dot(u, v) / nv
        require_close(vx.sproj(a, onto=b) / su, s, 'sproj %s', what)
        require_close(vx.proj(a, onto=b) / su, [x / nv * s for x in v], 'proj %s', what)
        require_close(vx.reject(np.array([a, 2 * a]), from_v=b)[1] / su, [2 * (y - x / nv * s) for x, y in zip(v, u)], 'reject %s', what)
        c = cross(u, v)
        want = math.degrees(math.atan2(math.sqrt(norm2(c)), dot(u, v)))
        tol = 1e-9 if 1e-3 < want < 179.999 else 1e-5
        got = vx.angle(a, b, np.array([0., 0., 1.]))
        require(abs(got - want) <= tol * max(1, want), 'angle %s: %s, expected %s', what, got, want)
        for look in LOOKS[::5] + [c] if any(c) else LOOKS[:1]:
            got = vx.signed_angle(a, b, np.array(look))
            expected = -want if dot(c, look) < 0 else want
            require(abs(got - expected) <= tol * max(1, want), 'signed angle %s looking along %s: %s, expected %s', what, look, got, expected)
            ctx.step()
        if 2.**-300 < su * sv < 2.**300:
            got = vx.almost_collinear(a, b, atol=1e-300)
            require(bool(got) == (not any(c)), 'almost_collinear %s without tolerance: %s', what, got)
        ctx.step(5)
    ctx.state('sizes', tuple(u), which)


@FAMILIES.family(lambda tier: product([1000, 5000] if tier == 'quick' else [257, 1000, 5000, 70000], ['float', 'int', 'fortran']))
def long_stacks(ctx, size, kind):
    """Stacks which repeat the same few vectors over and over."""
    from blmath.numerics import vx
    few = [v for v in itertools.product((-2, 0, 1, 3), repeat=3) if any(v)]
    onto = (1, -2, 2)
    everything = np.array([few[k % len(few)] for k in range(size)])
    s = np.asfortranarray(everything.astype(float)) if kind == 'fortran' else everything.astype(int if kind == 'int' else float)
    n = np.sqrt((everything ** 2).sum(axis=1))
    against = everything.dot(onto) / 3.
    want = {'normalize': everything / n[:, None], 'magnitude': n, 'sproj': against, 'proj': against[:, None] * np.array(onto) / 3.,
            'reject': everything - against[:, None] * np.array(onto) / 3., 'pad': np.hstack([everything, np.ones((size, 1))]),
            'homogeneous': everything[:, [2, 0, 1]] * 2. + [1, -3, 0]}
    m = np.array([[0, 0, 2., 1], [2, 0, 0, -3], [0, 2, 0, 0], [0, 0, 0, 1]])
    o = np.array(onto)
    got = {'normalize': vx.normalize(s), 'magnitude': vx.magnitude(s), 'sproj': vx.sproj(s, onto=o), 'proj': vx.proj(s, onto=o),
           'reject': vx.reject(s, from_v=o), 'pad': vx.pad_with_ones(s), 'homogeneous': vx.apply_homogeneous(s, m)}
    for name in want:
        require(got[name].shape == want[name].shape, '%s of a stack of %d: shape %s', name, size, got[name].shape)
        wrong = np.flatnonzero(np.abs(got[name] - want[name]).reshape(size, -1).max(axis=1) > 1e-9)
        require(not len(wrong), '%s of a stack of %d: wrong at %s', name, size, wrong[:5])
        ctx.step()
    for axis in range(3):
        zeroed = everything.copy()
        zeroed[:, axis] = 0
        require(np.array_equal(vx.reject_axis(s, axis), zeroed), 'reject_axis of a stack of %d', size)
        require(np.array_equal(vx.reject_axis(s, axis, squash=True), np.delete(everything, axis, axis=1)), 'squashed stack of %d', size)
    padded = got['pad'].copy()
    require(np.array_equal(vx.unpad(padded), everything), 'unpad a stack of %d', size)
    for bad in (0, size // 2, size - 1):
        padded[bad, 3] = 2
        require_refused('no column of ones', lambda: vx.unpad(padded), ValueError)
        padded[bad, 3] = 1
    ctx.step(10)
    ctx.state('long', size, kind)


@FAMILIES.family(lambda tier: product(vectors(tier), ['float', 'int', 'strided']))
def one_vector(ctx, v, kind):
    from blmath.numerics import vx
    a = make(v, kind)
    before = a.copy()
    n = math.sqrt(norm2(v))
    require_close(vx.magnitude(a), n, 'magnitude %s', v)
    if any(v):
        unit = vx.normalize(a)
        require_close(unit, [x / n for x in v], 'normalize %s', v)
        require_close(vx.normalize(unit), unit, 'normalize twice %s', v)
        require_close(vx.magnitude(vx.normalize(np.array(v) * 1e-30)), 1.0, 'normalize a tiny vector')
        require_close(vx.magnitude(vx.normalize(np.array(v) * 1e30)), 1.0, 'normalize a huge vector')
        ctx.step(4)
    for axis in range(3):
        dropped = [x for k, x in enumerate(v) if k != axis]
        zeroed = [0 if k == axis else x for k, x in enumerate(v)]
        stack = np.array([v, v, zeroed])
        require_close(vx.reject_axis(a, axis), zeroed, 'reject_axis %s', v)
        require_close(vx.reject_axis(a, axis=axis, squash=True), dropped, 'reject_axis %s squashed', v)
        require_close(vx.reject_axis(stack, axis), [zeroed] * 3, 'reject_axis of a stack')
        require_close(vx.reject_axis(stack, axis, squash=True), [dropped] * 3, 'reject_axis of a stack, squashed')
        require_close(stack, [list(v), list(v), zeroed], 'the stack given was changed')
        got = vx.reject_axis(a, axis)
        got[:] = 5
        ctx.step(4)
    for axis in (3, -1, 7):
        require_refused('axis %s' % axis, lambda: vx.reject_axis(a, axis, squash=True), ValueError)
    for size in (1, 1e-7, 1.1e-8, 0.9e-8, 1e-9):
        if kind == 'int' and size != 1:
            continue
        x = a * size
        biggest = max(abs(c) for c in v) * size
        for atol in (None, 1e-3, 2.5):
            limit = 1e-8 if atol is None else atol
            if abs(biggest - limit) > 1e-12:
                got = vx.almost_zero(x) if atol is None else vx.almost_zero(x, atol=atol)
                require(bool(got) == (biggest <= limit), 'almost_zero %s within %s: %s', x, limit, got)
                ctx.outcome('zero', bool(got))
                ctx.step()
    require(same_bits(a, before), 'the vector given was changed')
    ctx.state('one', tuple(v), kind)


@FAMILIES.family(lambda tier: product([0, 1, 3, 12], range(12), ['float', 'int', 'fortran']))
def stacks(ctx, size, start, kind):
    """A stack is treated vector by vector."""
    from blmath.numerics import vx
    everything = [v for v in vectors('quick') if any(v)]
    if kind == 'int':
        everything = [v for v in everything if all(x == int(x) for x in v)]
    chosen = [everything[(start * 5 + 7 * k) % len(everything)] for k in range(size)]
    onto = np.array(everything[(start * 11 + 3) % len(everything)])
    s = np.array(chosen).reshape(-1, 3)
    if kind != 'int':
        s = s.astype(float)
    if kind == 'fortran':
        s = np.asfortranarray(s)
    before, o = s.copy(), onto.copy()
    for name, whole, single in (
            ('normalize', vx.normalize(s), vx.normalize), ('magnitude', vx.magnitude(s), vx.magnitude),
            ('sproj', vx.sproj(s, onto=onto), lambda x: vx.sproj(x, onto)),
            ('proj', vx.proj(s, onto=onto), lambda x: vx.proj(x, onto)),
            ('reject', vx.reject(s, from_v=onto), lambda x: vx.reject(x, onto))):
        width = () if name in ('magnitude', 'sproj') else (3,)
        require(np.shape(whole) == (size,) + width, '%s of a stack of %d: shape %s', name, size, np.shape(whole))
        for k in range(size):
            require_close(whole[k], single(s[k]), '%s of vector %d of a stack', name, k)
        ctx.step()
    padded = vx.pad_with_ones(s)
    require(padded.shape == (size, 4) and np.all(padded[:, 3] == 1) and np.array_equal(padded[:, :3], s), 'padded stack %s', padded)
    back = vx.unpad(padded)
    require(np.array_equal(back, s) and back.shape == (size, 3), 'unpadded stack')
    for bad in range(size):
        for value in (0, 2, -1):
            wrong = padded.copy()
            wrong[bad, 3] = value
            require_refused('no column of ones', lambda: vx.unpad(wrong), ValueError)
            ctx.step()
    m = np.array([[0., 2, 0, 5], [1, 0, -1, 0], [0, 0.5, 3, -2], [0, 0, 0, 1]])
    require_close(vx.apply_homogeneous(s, m), s.dot(m[:3, :3].T) + m[:3, 3], 'apply_homogeneous')
    if size:
        projective = m.copy()
        projective[3] = [0, 0, 0, 2]
        require_refused('a projective matrix', lambda: vx.apply_homogeneous(s, projective), ValueError)
    require(same_bits(s, before) and same_bits(onto, o), 'the stack given was changed')
    ctx.step(3)
    ctx.state('stack', size, start, kind)
    ctx.outcome('stack', size)


@FAMILIES.family(lambda tier: product([1, 2, 4, 5], range(8)))
def other_dimensions(ctx, dim, start):
    from blmath.numerics import vx
    u = [((start + 3 * k) % 5) - 1.5 for k in range(dim)]
    v = [((2 * start + k) % 7) - 2.25 for k in range(dim)]
    nv = math.sqrt(norm2(v))
    a, b = np.array(u), np.array(v)
    require_close(vx.magnitude(b), nv, 'magnitude')
    require_close(vx.normalize(b), [x / nv for x in v], 'normalize')
    s = dot(u, v) / nv
    require_close(vx.sproj(a, onto=b), s, 'sproj')
    require_close(vx.proj(a, onto=b), [s * x / nv for x in v], 'proj')
    require_close(vx.reject(a, from_v=b), [y - s * x / nv for x, y in zip(v, u)], 'reject')
    if dim != 2:
        require_close(vx.magnitude(np.array([u, v])), [math.sqrt(norm2(u)), nv], 'magnitude of a stack')
    ctx.step(6)
    ctx.state('dimension', dim, start)


SHAPES = [(), (0,), (2,), (3,), (4,), (1, 3), (2, 2), (3, 3), (3, 4), (4, 3), (4, 4), (0, 3), (0, 4), (5, 1), (2, 3, 3), (1, 1, 3), (1, 1, 1, 3)]


@FAMILIES.family(lambda tier: ((list(c),) for n in range(5) for c in itertools.product((1., 0., 2., -1., 1 + 2.**-50), repeat=n)))
def last_column(ctx, column):
    """Only ones are stripped off."""
    from blmath.numerics import vx
    m = np.array([[i, -i, 2. * i, c] for i, c in enumerate(column)]).reshape(-1, 4)
    for x in (m, np.asfortranarray(m), m[::-1]):
        if all(c == 1 for c in column):
            require(np.array_equal(vx.unpad(x), x[:, :3]), 'unpadded %s', column)
        else:
            require_refused('last column %s' % column, lambda: vx.unpad(x), ValueError)
        ctx.step()
    ctx.state('column', tuple(column))


@FAMILIES.family(lambda tier: product(SHAPES))
def shapes(ctx, shape):
    from blmath.numerics import vx
    shape = tuple(shape)
    x = np.ones(shape)
    many = len(shape) not in (1, 2)
    if many:
        for name, fn in (('normalize', vx.normalize), ('magnitude', vx.magnitude),
                         ('proj', lambda y: vx.proj(y, np.array([1., 2., 3.]))),
                         ('reject_axis', lambda y: vx.reject_axis(y, 0)),
                         ('reject_axis', lambda y: vx.reject_axis(y, 0, squash=True))):
            require_refused('%s of shape %s' % (name, shape), lambda: fn(x), ValueError)
            ctx.step()
    if len(shape) != 2 or shape[1] != 3:
        require_refused('pad %s' % (shape,), lambda: vx.pad_with_ones(x), ValueError)
        require_refused('transform %s' % (shape,), lambda: vx.apply_homogeneous(x, np.eye(4)), ValueError)
    if len(shape) != 2 or shape[1] != 4:
        require_refused('unpad %s' % (shape,), lambda: vx.unpad(x), ValueError)
    if shape != (4, 4):
        require_refused('transform by %s' % (shape,), lambda: vx.apply_homogeneous(np.ones((2, 3)), x), ValueError)
    ctx.step(3)
    ctx.outcome('refused', many)
    ctx.state('shape', shape)


@FAMILIES.family(lambda tier: itertools.product(range(6), range(6)))
def basis(ctx, i, j):
    """The basis vectors stay what they are, whatever is done to ones read before."""
    from blmath.numerics import vx
    names = ['x', 'y', 'z', 'neg_x', 'neg_y', 'neg_z']
    want = lambda k: [(1 if k < 3 else -1) if k % 3 == c else 0 for c in range(3)]
    first = getattr(vx.basis, names[i])
    require_close(first, want(i), 'basis vector %s', names[i])
    first *= 7
    first += 1
    second = getattr(vx.basis, names[j])
    require_close(second, want(j), 'basis vector %s after %s was changed', names[j], names[i])
    require_close(getattr(vx.basis, names[i]), want(i), 'basis vector %s after it was changed', names[i])
    ctx.step(3)
    ctx.state('basis', i, j)
