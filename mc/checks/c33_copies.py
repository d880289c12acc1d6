"""Copies of the library's objects (copy, deep copy, pickle) answer as the original did,
and neither side notices what happens to the other afterwards."""
import copy
import itertools
import pickle

import numpy as np
import scipy.sparse as sp

from mc.checks import c30_independence as calls
from mc.checks import c32_threads as objects
from mc.engine import Families, product, require

PROPERTY = 'C33'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'for each of 15 objects of 9 classes and 4 ways of copying (shallow, deep, first and latest pickle protocol): every history of 3 changes, '
             'before and after the copy, to the original or to the copy; both are asked everything after every change; '
             'copies of 5 kinds of objects with up to 300 points, rows, steps or names',
    'thorough': 'every history of 5 changes, all pickle protocols; copies of copies',
}
ASSUMPTIONS = ['the reference is an object made anew with the same changes and no copy',
               'a shallow copy shares what it refers to: it is only judged on attributes which are replaced as a whole']
FAMILIES = Families()
A = objects.A
WAYS = [('shallow', copy.copy), ('deep', copy.deepcopy)] + [
    ('pickle %d' % n, lambda x, n=n: pickle.loads(pickle.dumps(x, n))) for n in range(pickle.HIGHEST_PROTOCOL + 1)]


def prepare(scratch):
    calls.prepare(scratch)


def setter(name, value):
    return lambda x: setattr(x, name, value.copy() if isinstance(value, np.ndarray) else value)


def changes():
    """kind -> changes, each with whether it only replaces attributes as a whole"""
    V = objects.P * [1, 2, -1] + [3, 0, 0.5]
    steps = [('scale', lambda t: t.scale(3), False), ('translate', lambda t: t.translate(A(0, 5, 1)), False)]
    polyline = [('v', setter('v', V), True), ('fewer', setter('v', V[:3]), True), ('closed', setter('closed', True), True), ('open', setter('closed', False), True),
                ('flip', lambda x: x.flip(), True), ('partition', lambda x: x.partition_by_length(1.5), True)]

    def poke(name):
        def run(x):
            getattr(x, name)[0] = 7.5
        return (name + '[0]', run, False)
    return {
        'plane': [poke('reference_point'), ('normal[:]', lambda x: x.normal.__setitem__(slice(None), A(0, 1, 0)), False)],
        'box': [('origin', setter('origin', A(5, 5, 5)), True), ('shape', setter('shape', A(2, 2, 4)), True), poke('origin'), poke('shape')],
        'open polyline': polyline + [poke('v')],
        'closed polyline': polyline + [poke('v')],
        'composite': steps,
        'manager': steps + [('tag', lambda t: t.tag_as('e'), False), ('tag again', lambda t: t.tag_as('b'), False)],
        'manager with points': steps + [('set', setter('d', objects.P[:2]), True), ('set other', setter('a', objects.P + 1), True)],
        'value': [('value', setter('value', 7), True), ('units', setter('units', 'in'), True), ('double', lambda x: setattr(x, 'value', x.value * 2), True)],
        'units': [('nothing', lambda x: x.factor('cm', 'm'), True)],
        'block matrix': [('nothing', lambda x: x.matvec(A(1, 1, 1)), True)],
    }


MORE = {
    'empty polyline': ('open polyline', lambda: _polyline(None)),
    'closed pair': ('closed polyline', lambda: _polyline([[0, 0, 0], [2, 0, 1]], True)),
    'closed single': ('closed polyline', lambda: _polyline([[0, 3, 0]], True)),
    'integer plane': ('plane', lambda: _plane(np.array([1.0, 2.0, 3.0]), np.array([1.0, 2.0, 2.0]))),
    'value without units': ('value', lambda: _value(2.5)),
}


def _polyline(v, closed=False):
    from blmath.geometry import Polyline
    return Polyline(v, closed)


def _plane(p, n):
    from blmath.geometry import Plane
    return Plane(p, n)


def _value(x):
    from blmath.value import Value
    return Value(x)


def object_of(kind):
    table = objects.readers()
    base = MORE[kind][0] if kind in MORE else kind
    make, reads = table[base]
    return (MORE[kind][1] if kind in MORE else make), reads, changes()[base]


def kinds():
    return list(objects.readers()) + list(MORE)


def ask(x, reads):
    out = []
    for name in sorted(reads):
        try:
            out.append((name, calls.image(reads[name](x))))
        except Exception as e:
            out.append((name, calls.image(e)))
    return out


REFERENCES = {}


def reference(kind, ops):
    """What an object made anew answers after these changes."""
    key = (kind, ops)
    if key not in REFERENCES:
        make, reads, alphabet = object_of(kind)
        x = make()
        refused = []
        for o in ops:
            refused.append(change(x, alphabet[o]))
        REFERENCES[key] = (ask(x, reads), refused)
    return REFERENCES[key]


def change(x, op):
    try:
        op[1](x)
    except Exception as e:
        return type(e).__name__
    return None


def gen(tier):
    depth = 3 if tier == 'quick' else 5
    for kind in kinds():
        alphabet = object_of(kind)[2]
        for w, (way, _) in enumerate(WAYS):
            allowed = [i for i, op in enumerate(alphabet) if way != 'shallow' or op[2]]
            if depth == 3 and 2 < w < len(WAYS) - 1:
                continue
            if depth == 5 and len(alphabet) > 5 and w > 3:
                continue
            moves = [(i, side) for i in allowed for side in (0, 1)]
            for before in range(depth):
                after = depth - before
                for first in itertools.product(range(len(alphabet)), repeat=before):
                    for rest in itertools.product(moves, repeat=min(after, 2 if tier == 'quick' else 3)):
                        yield (kind, w, first, rest)
            if not allowed:
                yield (kind, w, (), ())


@FAMILIES.family(gen)
def histories(ctx, kind, w, first, rest):
    way, duplicate = WAYS[w]
    make, reads, alphabet = object_of(kind)
    what = '%s, %s copy after %s' % (kind, way, [alphabet[o][0] for o in first])
    x = make()
    for o in first:
        change(x, alphabet[o])
    y = duplicate(x)
    require(type(y) is type(x), '%s: a %s', what, type(y))
    sides = [x, y]
    done = [tuple(first), tuple(first)]
    judge(ctx, kind, sides, done, reads, what)
    for o, side in rest:
        refused = change(sides[side], alphabet[o])
        done[side] += (o,)
        require(refused == reference(kind, done[side])[1][-1], '%s: %s is refused with %s', what, alphabet[o][0], refused)
        judge(ctx, kind, sides, done, reads, '%s, %s' % (what, [(alphabet[o][0], 'copy' if s else 'original') for o, s in rest]))
    ctx.state(kind, way, tuple(first))
    ctx.outcome(kind, way)


def judge(ctx, kind, sides, done, reads, what):
    for k in (0, 1):
        want = reference(kind, done[k])[0]
        got = ask(sides[k], reads)
        for (name, w), (_, g) in zip(want, got):
            require(calls.alike(g, w), '%s: the %s answers %s to %s instead of %s', what, ('original', 'copy')[k], calls.brief(g), name, calls.brief(w))
        ctx.step(len(reads))


def large(kind, n):
    from blmath.geometry import Plane, Polyline
    from blmath.geometry.transform import CompositeTransform, CoordinateManager
    from blmath.numerics.linalg.static_block_sparse_matrix import StaticBlockSparseMatrix
    k = np.arange(n)
    points = np.stack([k, k * k % 17, -k % 5], axis=1) / 8.0
    if kind == 'polyline':
        x = Polyline(points, closed=True)
        return x, lambda x: [x.v, x.e, x.segments, x.total_length, x.closed, x.apex(A(0, 1, 0))]
    if kind == 'plane':
        x = Plane.fit_from_points(points + A(0, 0, 1e6)) if n > 3 else Plane(points[0], A(1, 2, 3))
        return x, lambda x: [x.normal, x.reference_point, x.equation, x.signed_distance(points)]
    if kind == 'matrix':
        x = StaticBlockSparseMatrix(sp.csr_matrix(np.diag(k + 1.0) + np.eye(n, k=1)))
        return x, lambda x: [x.matvec(k * 1.0), x.MTM(), x.row_sparsity, x.dense_column_indices]
    x = CoordinateManager() if kind == 'manager' else CompositeTransform()
    for i in range(n):
        if kind == 'manager':
            x.tag_as('t%d' % i)
        x.translate(A(i, 1, 0)) if i % 3 else x.rotate(A(0, 0.1, 0.01 * i))
    if kind == 'manager':
        x.t0 = points[:3]
        return x, lambda x: [getattr(x, 't%d' % i) for i in range(0, n, 1 + n // 20)]
    return x, lambda x: [x(points), x(points, reverse=True), x(points, from_range=(n // 2, n)), x.matrix_for(from_range=(n - 1, n)), len(x.transforms)]


@FAMILIES.family(lambda tier: product(['polyline', 'plane', 'matrix', 'manager', 'composite'], range(len(WAYS)), [1, 5, 17, 33, 70, 130, 300] + ([1030] if tier != 'quick' else [])))
def large_objects(ctx, kind, w, n):
    x, reads = large(kind, n)
    want = calls.image(reads(x))
    y = WAYS[w][1](x)
    for side, z in (('original', x), ('copy', y), ('copy of the copy', WAYS[w][1](y))):
        got = calls.image(reads(z))
        require(calls.alike(got, want), 'the %s (%s) of a %s of %d answers %s instead of %s', side, WAYS[w][0], kind, n, calls.brief(got), calls.brief(want))
        ctx.step()
    ctx.state('large', kind, w, n)


@FAMILIES.family(lambda tier: product(kinds(), range(len(WAYS)), range(len(WAYS))))
def copy_of_copy(ctx, kind, w, u):
    make, reads, alphabet = object_of(kind)
    x = make()
    y = WAYS[w][1](x)
    z = WAYS[u][1](y)
    judge(ctx, kind, [y, z], [(), ()], reads, '%s, %s copy of a %s copy' % (kind, WAYS[u][0], WAYS[w][0]))
    for o, op in enumerate(alphabet):
        if op[2] or 'shallow' not in (WAYS[w][0], WAYS[u][0]):
            x, = [make()]
            y = WAYS[w][1](x)
            z = WAYS[u][1](y)
            change(y, op)
            judge(ctx, kind, [x, y], [(), (o,)], reads, '%s: %s on a %s copy' % (kind, op[0], WAYS[w][0]))
            judge(ctx, kind, [x, z], [(), ()], reads, '%s: %s on a %s copy of which there is a %s copy' % (kind, op[0], WAYS[w][0], WAYS[u][0]))
    ctx.state('twice', kind, w, u)
