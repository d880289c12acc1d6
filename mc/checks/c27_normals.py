import itertools

import numpy as np

from mc import env
from mc.engine import Families, histories, product, require
from mc.lib import require_close

PROPERTY = 'C27'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every list of 1-2 faces over 4 vertices (24 + 576) in 3 placements of the vertices, for 6 quantities, values and full Jacobians; '
             'cross products and normalization of every pair out of {-1,0,2}^3; every history of up to 4 changes (vertices in place, vertices '
             'replaced, vertices behind an expression, other faces, more faces, a bigger mesh) with values and Jacobians read or left unread in between; '
             'products of factors which share rows or are one object; '
             'likewise: factors replaced by ones of other sizes, meshes in units of 2^-20 to 2^20, and strips of hundreds of faces; every history of 4 in which vertices are replaced by more or fewer of them',
    'thorough': '5 vertices and up to 2 faces in 5 placements; histories of up to 6 changes',
}
ASSUMPTIONS = ['Jacobians and unit normals are judged where the normal is not zero',
               'chumpy 0.70 is imported with the numpy and inspect names it expects; blmath itself sees the installed numpy']
FAMILIES = Families()


def prepare(scratch):
    env.with_chumpy()


# -- reference: plain numpy, differentiated exactly by the complex step ------------

def cross(a, b):
    return np.stack([a[:, 1] * b[:, 2] - a[:, 2] * b[:, 1], a[:, 2] * b[:, 0] - a[:, 0] * b[:, 2], a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]], axis=1)


def unit(x):
    s = np.sqrt(np.sum(x * x, axis=1))
    s[s == 0] = 1
    return x / s[:, np.newaxis]


def scaled(v, f):
    return cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]])


def summed(v, f):
    out = np.zeros(v.shape, dtype=v.dtype)
    n = scaled(v, f)
    for i, face in enumerate(f):
        for k in face:
            out[k] = out[k] + n[i]
    return out


def averaged(v, f):
    n = summed(v, f) / np.bincount(f.ravel(), minlength=len(v))[:, np.newaxis]
    return n / (np.sum(n * n, axis=1) ** .25)[:, np.newaxis]


REFERENCE = {
    'face normals': lambda v, f: unit(scaled(v, f)),
    'scaled face normals': scaled,
    'edges': lambda v, f: v[f[:, 1]] - v[f[:, 0]],
    'other edges': lambda v, f: v[f[:, 0]] - v[f[:, 2]],
    'vertex normals': lambda v, f: unit(summed(v, f)),
    'sized vertex normals': averaged,
}
QUANTITIES = list(REFERENCE)


def build(name, v, f):
    from blmath.optimization.objectives import normals as m
    if name == 'face normals':
        return m.TriNormals(v, f)
    if name == 'scaled face normals':
        return m.TriNormalsScaled(v, f)
    if name == 'edges':
        return m.TriEdges(f, 1, 0, v)
    if name == 'other edges':
        return m.TriEdges(f=f, cplus=0, cminus=2, v=v)
    if name == 'vertex normals':
        return m.VertNormals(v, f)
    return m.VertNormals(v=v, f=f, normalized=False)


def defined(name, v, f):
    """May value and Jacobian be judged?"""
    if name in ('scaled face normals', 'edges', 'other edges'):
        return True
    if not np.all(np.sum(scaled(v, f) ** 2, axis=1) > 1e-6):
        return False
    if name == 'face normals':
        return True
    used = np.zeros(len(v), dtype=bool)
    used[f.ravel()] = True
    if not np.all(np.sum(summed(v, f) ** 2, axis=1)[used] > 1e-6):
        return False
    return name == 'vertex normals' or bool(np.all(used))


def jacobian(fn, x):
    step = 1e-30
    cols = []
    for i in range(x.size):
        y = x.astype(complex).ravel()
        y[i] += 1j * step
        cols.append(np.imag(fn(y.reshape(x.shape))).ravel() / step)
    return np.array(cols).T


def full(dr):
    return np.asarray(dr.todense()) if hasattr(dr, 'todense') else np.asarray(dr)


def judge_value(ctx, obj, name, v, f, what):
    want = REFERENCE[name](v, f).ravel()
    require_close(np.ravel(obj.r), want, '%s of %s', name, what, scale=np.max(np.abs(want)))
    if 'vertex' in name:
        require(obj.r.shape == v.shape, '%s of %s: shape %s', name, what, obj.r.shape)
    if name in ('face normals', 'vertex normals'):
        lengths = np.sqrt(np.sum(obj.r.reshape(-1, 3) ** 2, axis=1))
        require(np.all((np.abs(lengths - 1) < 1e-9) | (lengths < 1e-9)), '%s of %s: lengths %s', name, what, lengths)
    ctx.step()


def judge_jacobian(ctx, obj, wrt, name, v, f, what, inner=None):
    fn = (lambda x: REFERENCE[name](inner(x), f)) if inner else (lambda x: REFERENCE[name](x, f))
    at = wrt.r.reshape(-1, 3)
    want = jacobian(fn, at)
    require_close(full(obj.dr_wrt(wrt)), want, 'Jacobian of the %s of %s', name, what, tol=1e-8, scale=np.max(np.abs(want)))
    ctx.step()


PLACES = [
    [(0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 3), (1, 1, 1)],
    [(1, 1, 0), (-1, 0.5, 2), (3, 1, -1), (0, -2, 1), (2, 2, 5)],
    [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (1, 1, 0)],
    [(10, 0, 1), (11, 0, 1), (10, 0.5, 1), (10, 0, 2), (-4, 3, 0.25)],
    [(-1, -2, -3), (3, -1, 2), (0.5, 0.25, 0), (1, -4, 1), (0, 6, 0)],
]


def face_lists(tier):
    n = 4 if tier == 'quick' else 5
    faces = list(itertools.permutations(range(n), 3))
    for k in (1, 2):
        for fs in itertools.product(faces, repeat=k):
            yield ([list(x) for x in fs], n, 3 if tier == 'quick' else 5)


@FAMILIES.family(face_lists)
def meshes(ctx, faces, n, places):
    import chumpy as ch
    f = np.array(faces)
    for place in PLACES[:places]:
        v = np.array(place[:n], dtype=float)
        leaf = ch.array(v.copy())
        for name in QUANTITIES:
            if not defined(name, v, f):
                ctx.outcome('undefined', name)
                continue
            obj = build(name, leaf, f)
            what = 'faces %s' % (faces,)
            judge_value(ctx, obj, name, v, f, what)
            judge_jacobian(ctx, obj, leaf, name, v, f, what)
            ctx.outcome('defined', name)
        require(np.array_equal(leaf.r, v) and f.tolist() == faces, 'an argument was changed')
        ctx.state(str(faces), str(place))


VECTORS = list(itertools.product((-1, 0, 2), repeat=3))


@FAMILIES.family(lambda tier: product(range(27)))
def products(ctx, i):
    """Cross products and normalization of single rows and stacks."""
    import chumpy as ch
    from blmath.optimization.objectives.normals import CrossProduct, NormalizedNx3
    a = np.array([VECTORS[i]] * 27, dtype=float)
    b = np.array(VECTORS, dtype=float)
    for lo, hi in [(0, 27)] + [(k, k + 1) for k in range(27)] + [(3, 6)]:
        x, y = ch.array(a[lo:hi].copy()), ch.array(b[lo:hi].copy())
        obj = CrossProduct(x, y)
        require_close(obj.r, cross(a[lo:hi], b[lo:hi]).ravel(), 'cross product of %s and rows %d-%d', VECTORS[i], lo, hi)
        require_close(full(obj.dr_wrt(x)), jacobian(lambda z: cross(z, b[lo:hi]), a[lo:hi]), 'Jacobian of the cross product (first)')
        require_close(full(obj.dr_wrt(y)), jacobian(lambda z: cross(a[lo:hi], z), b[lo:hi]), 'Jacobian of the cross product (second)')
        y[:] = b[lo:hi] + 1
        require_close(obj.r, cross(a[lo:hi], b[lo:hi] + 1).ravel(), 'cross product after the second factor changed')
        x[:] = a[lo:hi] - 3
        require_close(full(obj.dr_wrt(y)), jacobian(lambda z: cross(a[lo:hi] - 3, z), b[lo:hi]), 'Jacobian after the first factor changed')
        require_close(obj.r, cross(a[lo:hi] - 3, b[lo:hi] + 1).ravel(), 'cross product after both factors changed')
        ctx.step(6)
    rows = [r for r in VECTORS if any(r)]
    for chosen in ([VECTORS[i]], [VECTORS[i], rows[(i * 7) % 26]], rows[i % 26:] + rows[:2]):
        v = np.array(chosen, dtype=float)
        if not np.all(np.any(v, axis=1)):
            continue
        x = ch.array(v.copy())
        obj = NormalizedNx3(x)
        require_close(obj.r, unit(v), 'normalized %s', chosen)
        require_close(full(obj.dr_wrt(x)), jacobian(unit, v), 'Jacobian of normalized %s', chosen)
        x[:] = v[::-1] * 2 + [0, 0, 9]
        require_close(full(obj.dr_wrt(x)), jacobian(unit, v[::-1] * 2 + [0, 0, 9]), 'Jacobian of normalized %s after a change', chosen)
        require_close(obj.r, unit(v[::-1] * 2 + [0, 0, 9]), 'normalized %s after a change', chosen)
        ctx.step(4)
        for by in SCALES:
            # every row of its own length
            w = v * by * 2.0 ** np.arange(len(v))[:, np.newaxis]
            x = ch.array(w.copy())
            obj = NormalizedNx3(x)
            require_close(obj.r, unit(w), 'normalized %s times %s', chosen, by)
            got, want = full(obj.dr_wrt(x)), jacobian(unit, w)
            for k in range(len(w)):
                rows_k = slice(3 * k, 3 * k + 3)
                require_close(got[rows_k], want[rows_k], 'Jacobian of normalized %s times %s, row %s', chosen, by, k, tol=1e-8, scale=np.max(np.abs(want[rows_k])) or 1.0)
            obj = CrossProduct(x, ch.array(w[::-1] + by))
            ref = cross(w, w[::-1] + by)
            require_close(obj.r, ref.ravel(), 'cross product of short rows', scale=by * by * 4.0 ** len(v) * 16)
            require_close(full(obj.dr_wrt(x)), jacobian(lambda z: cross(z, w[::-1] + by), w), 'Jacobian of short rows', scale=by * 2.0 ** len(v) * 4)
            ctx.step(4)
    ctx.state('product', i)


PAIRS = ['x x', 'x 2x', '3x x', 'x unit', 'unit x', 'unit unit', 'x y', 'y x', 'y y', 'sum x', 'x sum', 'same sum', 'cross x', 'x cross', 'cross cross']


@FAMILIES.family(lambda tier: product(PAIRS, ['made', 'set', 'first set', 'second set'], range(0, 27, 3 if tier == 'quick' else 1)))
def shared_factors(ctx, pair, how, i):
    """Cross products both factors of which depend on the same rows, or are the same."""
    import chumpy as ch
    from blmath.optimization.objectives.normals import CrossProduct, NormalizedNx3
    a = np.array([VECTORS[(i + k) % 27] for k in (0, 4, 11)], dtype=float) + [[1, 0, 3]]
    b = np.array([VECTORS[(i + k) % 27] for k in (2, 5, 20)], dtype=float) + [[0, 3, 1]]
    x, y = ch.array(a.copy()), ch.array(b.copy())
    total = x + y
    parts = {'x': (x, lambda p, q: p), '2x': (x * 2, lambda p, q: 2 * p), '3x': (x * 3, lambda p, q: 3 * p), 'unit': (NormalizedNx3(x), lambda p, q: unit(p)),
             'y': (y, lambda p, q: q), 'sum': (x + y, lambda p, q: p + q), 'same': (total, lambda p, q: p + q),
             'cross': (CrossProduct(x, y), lambda p, q: cross(p, q))}
    one, two = pair.split()
    (first, f), (second, g) = parts[one], parts[two]
    if how == 'made':
        obj = CrossProduct(first, second)
    else:
        obj = CrossProduct(ch.array(b[::-1].copy()), ch.array(a[::-1].copy()))
        obj.r  # noqa
        if how == 'set':
            obj.set(a=first, b=second)
        elif how == 'first set':
            obj.a = first
            obj.b = second
        else:
            obj.b = second
            obj.a = first
    ref = lambda p, q: cross(f(p, q), g(p, q))
    what = 'the cross product of %s (%s)' % (pair, how)
    for step in range(2):
        if step:
            a = a[::-1] * 2 + [[0, 1, 0]]
            x[:] = a
        require_close(obj.r, ref(a, b).ravel(), '%s', what, scale=100.0)
        if 'x' in pair or pair.split()[0] != 'y':
            require_close(full(obj.dr_wrt(x)), jacobian(lambda z: ref(z, b), a), 'Jacobian of %s', what, scale=100.0)
        if 'y' in pair or 'sum' in pair or 'cross' in pair:
            require_close(full(obj.dr_wrt(y)), jacobian(lambda z: ref(a, z), b), 'Jacobian of %s by the other rows', what, scale=100.0)
        ctx.step(3)
    ctx.state('shared', pair, how, i)
    ctx.outcome('shared', one == two)


SCALES = [2.0 ** -20, 2.0 ** -10, 2.0 ** -6, 2.0 ** 10, 2.0 ** 20]
COUNTS = {'one': 1, 'two': 2, 'four': 4, 'nine': 9}


@FAMILIES.family(lambda tier: ((list(h),) for h in histories(list(COUNTS) + ['first', 'second', 'read', 'by first', 'by second'], 4 if tier == 'quick' else 5)
                               if h[-1] in ('read', 'by first', 'by second')))
def factors(ctx, ops):
    """A cross product after any history of factors replaced by others of any size."""
    import chumpy as ch
    from blmath.optimization.objectives.normals import CrossProduct, NormalizedNx3
    rows = lambda n, k: np.array([VECTORS[(5 * k + 7 * i + 1) % 27] for i in range(n)], dtype=float) + [[1, 0, 3]]
    a, b = rows(2, 1), rows(2, 2)
    x, y = ch.array(a.copy()), ch.array(b.copy())
    obj, of_first = CrossProduct(x, y), NormalizedNx3(x)
    for k, op in enumerate(ops):
        what = 'after %s' % ops[:k + 1]
        if op in COUNTS:
            a, b = rows(COUNTS[op], 2 * k + 3), rows(COUNTS[op], 2 * k + 4)
            x, y = ch.array(a.copy()), ch.array(b.copy())
            obj.set(a=x, b=y)
            of_first.v = x
        elif op == 'first':
            a = a[::-1] * 2 + 1
            x[:] = a
        elif op == 'second':
            b = rows(len(b), 3 * k + 5)
            y = ch.array(b.copy())
            obj.b = y
        elif op == 'read':
            require_close(obj.r, cross(a, b).ravel(), 'cross product %s', what)
            require_close(of_first.r, unit(a), 'normalized rows %s', what)
        elif op == 'by first':
            require_close(full(obj.dr_wrt(x)), jacobian(lambda z: cross(z, b), a), 'Jacobian %s', what)
            require_close(full(of_first.dr_wrt(x)), jacobian(unit, a), 'Jacobian of the normalized rows %s', what)
        else:
            require_close(full(obj.dr_wrt(y)), jacobian(lambda z: cross(a, z), b), 'Jacobian %s', what)
        ctx.step()
    ctx.state(str(a), str(b))
    ctx.outcome(ops[-1], len(a))


@FAMILIES.family(lambda tier: product(range(len(FACES)), range(len(PLACES)), SCALES + [1.0], [0, 1, 2, 3]))
def scales(ctx, i, place, by, shift):
    """The same meshes in other units, far away, and with integer vertices."""
    import chumpy as ch
    f = np.array(FACES[i])
    v = np.array(PLACES[place][:4], dtype=float)
    integer = shift == 3 and by >= 1
    if integer:
        v = np.round(v * 4)
    v = v * by + np.array([0, 100, -4000, 0][shift]) * by
    usable = [n for n in QUANTITIES if defined(n, v / by, f)]
    leaf = ch.array(v.astype(int) if integer and place % 2 else v.copy())
    for name in usable:
        obj = build(name, leaf, f)
        what = 'faces %s at %s times %s' % (FACES[i], PLACES[place][:4], by)
        judge_value(ctx, obj, name, v, f, what)
        judge_jacobian(ctx, obj, leaf, name, v, f, what)
    ctx.state(i, place, by, shift)
    ctx.outcome(len(usable), integer)


@FAMILIES.family(lambda tier: product([3, 50, 300] if tier == 'quick' else [3, 50, 300, 1500, 6000]))
def long_strips(ctx, n):
    """Strips of thousands of triangles."""
    import chumpy as ch
    k = np.arange(n)
    v = np.stack([k, k % 2 * 2.0, (k * k % 7) / 2.0], axis=1)
    f = np.array([(j, j + 1, j + 2) if j % 2 else (j + 1, j, j + 2) for j in range(n - 2)])
    leaf = ch.array(v.copy())
    for name in QUANTITIES:
        if defined(name, v, f):
            obj = build(name, leaf, f)
            judge_value(ctx, obj, name, v, f, 'a strip of %s' % len(f))
            if n <= 300:
                judge_jacobian(ctx, obj, leaf, name, v, f, 'a strip of %s' % len(f))
    ctx.state('strip', n)


FACES = [
    [[0, 1, 2], [0, 2, 3]],
    [[0, 1, 3], [3, 1, 2]],
    [[0, 1, 2], [0, 2, 3], [0, 3, 1], [1, 3, 2]],
    [[2, 1, 0], [0, 2, 3]],
]
BIG = [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 5]]
SPOTS = [
    [(0, 0, 0), (1, 0, 0.5), (1, 2, 0), (-1, 1, 1)],
    [(1, 1, 0), (2, 0.5, 2), (3, 3, -1), (0, 2, 1)],
    [(0, 0, 1), (3, 0, 1), (0, 3, 1), (-2, -2, 4)],
]
BIGGER = [(0, 0, 3), (2, 0, 0), (1, 2, 0), (-1, 2, 1), (-2, -1, 0), (0, -2, 1)]

CHANGES = ['in place', 'element', 'replace', 'faces', 'more faces', 'bigger', 'jacobian', 'nothing']
LEAF_CHANGES = ['in place', 'element', 'jacobian', 'nothing']


def change_histories(tier):
    depth = 4 if tier == 'quick' else 5
    for name in ('vertex normals', 'sized vertex normals'):
        for h in histories(CHANGES, depth):
            yield (name, list(h))
    for name in QUANTITIES:
        for h in histories(LEAF_CHANGES, depth + 1 if tier != 'quick' else depth):
            yield (name + ' of an expression', list(h))
    for name in ('edges', 'other edges'):
        for h in histories(['in place', 'replace', 'faces', 'jacobian', 'nothing'], depth):
            yield (name, list(h))


@FAMILIES.family(change_histories)
def changes(ctx, name, ops):
    """After any history, value and Jacobian are those of the current mesh."""
    import chumpy as ch
    expression = name.endswith(' of an expression')
    if expression:
        name = name[:-len(' of an expression')]
    v = np.array(SPOTS[0], dtype=float)
    f = np.array(FACES[0])
    leaf = ch.array(v.copy())
    inner = (lambda x: x * 2 + np.arange(12).reshape(4, 3) % 5) if expression else None
    obj = build(name, leaf * 2 + np.arange(12).reshape(4, 3) % 5 if expression else leaf, f)
    spot = face = 0
    done = []
    for op in ops:
        done.append(op)
        if op == 'in place':
            spot = (spot + 1) % 3
            v = np.array(BIGGER if len(v) == 6 else SPOTS[spot], dtype=float) + (0.25 * len(done) if len(v) == 6 else 0)
            leaf[:] = v
        elif op == 'element':
            v = v.copy()
            v[1, 2] += 0.5
            leaf[:] = v
        elif op == 'replace':
            spot = (spot + 1) % 3
            v = np.array(BIGGER if len(v) == 6 else SPOTS[spot], dtype=float) * (1 + len(done))
            leaf = ch.array(v.copy())
            obj.v = leaf
        elif op == 'faces':
            if len(v) == 6:
                f = f[::-1].copy()
            else:
                face = (0, 1, 3)[((0, 1, 3).index(face) + 1 if face in (0, 1, 3) else 0) % 3]
                f = np.array(FACES[face])
            obj.f = f
        elif op == 'more faces':
            if len(v) == 6:
                f = np.array(BIG + [[0, 5, 1]])
            else:
                face = 2
                f = np.array(FACES[2])
            obj.f = f
        elif op == 'bigger':
            v = np.array(BIGGER, dtype=float) * (1 + 0.5 * len(done))
            f = np.array(BIG)
            leaf = ch.array(v.copy())
            obj.set(v=leaf, f=f) if hasattr(obj, 'set') else setattr(obj, 'v', leaf)
        at = inner(v) if expression else v
        if not defined(name, at, f):
            ctx.outcome('undefined', name)
            continue
        what = 'a mesh after %s' % done
        if op == 'jacobian':
            judge_jacobian(ctx, obj, leaf, name, v, f, what, inner)
        elif op != 'nothing' or len(done) == len(ops):
            judge_value(ctx, obj, name, at, f, what)
        ctx.state(name, expression, str(v.tolist()), str(f.tolist()))
        ctx.outcome('defined', name, expression)
    at = inner(v) if expression else v
    if defined(name, at, f):
        judge_jacobian(ctx, obj, leaf, name, v, f, 'a mesh after %s' % done, inner)
        judge_value(ctx, obj, name, at, f, 'a mesh after %s' % done)


GROWN = ['more vertices', 'fewer vertices', 'in place', 'jacobian', 'nothing']


@FAMILIES.family(lambda tier: ((name, list(h)) for name in ('vertex normals', 'edges', 'other edges') for h in histories(GROWN, 4 if tier == 'quick' else 5)))
def other_numbers_of_vertices(ctx, name, ops):
    """Vertices are replaced by more or fewer ones, the faces being kept."""
    import chumpy as ch
    f = np.array(FACES[0])
    least = int(f.max()) + 1
    pool = np.array(list(SPOTS[0]) + [(5, 1, -2), (0, 7, 3), (2, 2, 9)], dtype=float)
    n = 4
    v = pool[:n].copy()
    leaf = ch.array(v.copy())
    obj = build(name, leaf, f)
    done = []
    for op in ops:
        done.append(op)
        what = 'a mesh after %s' % done
        if op == 'in place':
            v = v * 1.5 + 0.25 * len(done)
            leaf[:] = v
        elif op != 'nothing' and op != 'jacobian':
            n = min(n + 1, 7) if op == 'more vertices' else max(n - 1, least)
            v = pool[:n] * (1 + len(done))
            leaf = ch.array(v.copy())
            obj.v = leaf
        if not defined(name, v, f):
            ctx.outcome('undefined', name)
            continue
        if op == 'jacobian':
            judge_jacobian(ctx, obj, leaf, name, v, f, what)
        elif op != 'nothing':
            judge_value(ctx, obj, name, v, f, what)
        ctx.state('numbers', name, str(v.tolist()))
    if defined(name, v, f):
        judge_jacobian(ctx, obj, leaf, name, v, f, 'a mesh after %s' % done)
        judge_value(ctx, obj, name, v, f, 'a mesh after %s' % done)
