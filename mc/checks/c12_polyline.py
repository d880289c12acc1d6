import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc import env
from mc.engine import Families, require
from mc.lib import close, freeze, require_close, require_refused

PROPERTY = 'C12'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every history of 3 operations out of 21 from 6 initial polylines (none, 3 and 5 vertices, open and closed; operations '
             'set 0 to 12), everything '
             'derived judged after the last or after every operation; '
             'likewise: vertices in units of 2^-60 to 2^60 and up to 10^6 away, and long polylines',
    'thorough': 'every history of 4 operations out of the same 21 from 10 initial polylines',
}
ASSUMPTIONS = ['an array handed over as vertices is not written to afterwards', 'a polyline without vertices is not reindexed']
FAMILIES = Families()


def prepare(scratch):
    env.with_lace()

A = [[0., 0., 0.], [3., 4., 0.], [3., 4., 12.]]
SETS = [
    None,
    [],
    [[1, 2, 3]],
    [[0, 0, 0], [0, 0, 2]],
    A,
    [[1., 1., 1.], [1., 1., 1.], [5., 4., 1.], [1., 1., 1.]],
    [[2., 0., 0.], [2., 1., 0.], [0., 1., 0.], [0., 0., 0.], [1., 0., -2.]],
    [[float(i), float(i % 3), float(i * i % 5)] for i in range(12)],
]
FORMS = {
    'list': lambda v: v,
    'array': lambda v: np.array(v, dtype=float).reshape(-1, 3),
    'ints': lambda v: np.array(v).reshape(-1, 3).astype(int),
    'fortran': lambda v: np.asfortranarray(np.array(v, dtype=float).reshape(-1, 3)),
    'tuple': lambda v: tuple(tuple(p) for p in v),
}
OPS = [
    ('v', 0, None), ('v', 1, 'array'), ('v', 2, 'tuple'), ('v', 3, 'ints'), ('v', 4, 'array'), ('v', 5, 'list'), ('v', 6, 'fortran'),
    ('bad', np.zeros((2, 2))), ('bad', np.zeros(3)), ('bad', [['x', 'y', 'z']]), ('bad', np.zeros((1, 3, 3))),
    ('closed', True), ('closed', False),
    ('flip',), ('partition', 1.1), ('partition', 2.7), ('partition', 100.),
    ('reindex', 0), ('reindex', 1), ('reindex', -1),
    ('copy',),
]


def array_if_empty(v):
    return np.zeros((0, 3)) if v == [] else v


def gen(tier):
    if tier == 'quick':
        modes, depth = [(mode, start) for mode in (0, 1) for start in (0, 4, 6)], 3
    else:
        modes, depth = [(1, 0), (1, 4), (1, 5), (0, 6), (0, 7)], 4
    for mode, start in modes:
        for closed in (False, True):
            for ops in itertools.product(range(len(OPS)), repeat=depth):
                yield (mode, start, closed) + ops


@FAMILIES.family(gen)
def history(ctx, mode, start, closed, *ops):
    from blmath.geometry import Polyline
    given = array_if_empty(SETS[start])
    if given is not None and mode:
        given = FORMS['array'](given)
    line = Polyline(given, closed) if closed else Polyline(given)
    model = [None if given is None else [list(map(float, p)) for p in SETS[start]], closed, watch(given)]
    judge(ctx, line, model, [])
    for i, op in enumerate(ops):
        what = (start, closed) + tuple(OPS[o] for o in ops[:i + 1])
        line = step(ctx, line, model, OPS[op], what)
        if mode or i + 1 == len(ops):
            judge(ctx, line, model, what)
    ctx.state(tuple(map(tuple, model[0] or [])), model[0] is None, model[1])


def step(ctx, line, model, op, what):
    ctx.step()
    kind = op[0]
    v = model[0]
    ctx.outcome(kind)
    if kind == 'v':
        given = SETS[op[1]]
        value = given if op[2] is None or not given and op[2] != 'array' else FORMS[op[2]](given)
        before = freeze(value)
        line.v = value
        require(freeze(value) == before, '%s: the vertices given were changed', what)
        if len(model) > 2:
            model[2] += watch(value)
        model[0] = None if given is None else [list(map(float, p)) for p in given]
    elif kind == 'bad':
        require_refused('%s' % (what,), lambda: setattr(line, 'v', op[1]), ValueError, TypeError)
    elif kind == 'closed':
        line.closed = op[1]
        model[1] = op[1]
    elif kind == 'flip':
        require(line.flip() is None, '%s: flip changes the polyline itself', what)
        model[0] = v and v[::-1]
    elif kind == 'partition':
        require(line.partition_by_length(op[1]) is line, '%s: partition_by_length is for chaining', what)
        model[0] = v and partition(v, model[1], op[1])
        if not v:
            require(np.size(line.partition_by_length(op[1], ret_indices=True)) == 0, '%s: indices of no vertices', what)
    elif kind == 'reindex':
        if not model[1]:
            require_refused('%s' % (what,), lambda: line.reindexed(0), ValueError)
        elif v:
            k = op[1] % len(v)
            new = line.reindexed(k)
            judge(ctx, line, model, what)
            model[0] = v[k:] + v[:k]
            return new
    elif kind == 'copy':
        new = line.copy()
        check_given(model, what)
        if v:
            del model[2:]  # what is written to next may be a caller's array
            line.v[:] = 77.
        line.v = [[9, 9, 9]]
        line.closed = not model[1]
        return new
    return line


def watch(value):
    return [(value, value.tobytes())] if isinstance(value, np.ndarray) else []


def check_given(model, what):
    """What callers handed over as vertices is theirs."""
    for value, before in model[2] if len(model) > 2 else ():
        require(value.tobytes() == before, '%s: vertices given earlier were changed', what)


def partition(v, closed, longest):
    out = []
    edges = list(zip(v, v[1:] + v[:1])) if closed else list(zip(v, v[1:]))
    for a, b in edges:
        n = max(1, math.ceil(math.dist(a, b) / longest - 1e-12))
        out += [[x + (y - x) * k / n for x, y in zip(a, b)] for k in range(n)]
    if not closed:
        out.append(v[-1])
    return out


def judge(ctx, line, model, what):
    """Everything a polyline tells about itself."""
    v, closed = model[:2]
    check_given(model, what)
    what = 'polyline after %s' % (what,)
    n = 0 if v is None else len(v)
    require(line.closed == closed, '%s: closed is %s', what, line.closed)
    require(len(line) == n, '%s: length %d, expected %d', what, len(line), n)
    if n == 0:
        require('no verts' in repr(line), '%s: %r', what, line)
    else:
        word = 'closed' if closed else 'open'
        require(word in repr(line) and str(n) in repr(line), '%s: %r', what, line)
    if v is None:
        require(line.v is None and line.e is None, '%s: no vertices expected', what)
        require(np.shape(line.segment_lengths) == (0,) and line.total_length == 0, '%s: lengths without vertices', what)
        require(np.shape(line.segments) == (0, 2, 3) and np.shape(line.segment_vectors) == (0, 3), '%s: segments without vertices', what)
        require(line.to_dict()['vertices'] == [] and sorted(line.to_dict()) == ['edges', 'vertices'], '%s: dictionary without vertices', what)
        ctx.step()
        return
    require(line.v.dtype == np.float64 and line.v.shape == (n, 3), '%s: %s vertices of shape %s', what, line.v.dtype, line.v.shape)
    size = max([abs(x) for p in v for x in p] + [0.]) or 1.
    require_close(line.v, np.array(v).reshape(-1, 3), '%s: vertices', what, scale=size)
    if closed:
        edges = [[i, (i + 1) % n] for i in range(n)]
    else:
        edges = [[i, i + 1] for i in range(n - 1)]
    require(line.e.shape == (len(edges), 2) if n else line.e.shape[0] == 0, '%s: edges of shape %s', what, line.e.shape)
    require(line.e.tolist() == edges, '%s: edges %s, expected %s', what, line.e.tolist(), edges)
    require(not line.e.flags.writeable, '%s: edges can be written to', what)
    require_refused('%s: setting edges' % what, lambda: setattr(line, 'e', np.zeros((1, 2))), AttributeError)
    segments = np.array([[v[a], v[b]] for a, b in edges]).reshape(-1, 2, 3)
    vectors = segments[:, 1] - segments[:, 0]
    lengths = [math.sqrt(math.fsum(x * x for x in row)) for row in vectors]
    require_close(line.segment_lengths, lengths, '%s: lengths', what, scale=size)
    require_close(line.total_length, math.fsum(lengths), '%s: total length', what, scale=size * len(lengths))
    require_close(line.segments, segments, '%s: segments', what, scale=size)
    require_close(line.segment_vectors, vectors, '%s: segment vectors', what, scale=size)
    d = line.to_dict()
    require(sorted(d) == ['edges', 'vertices'] and np.asarray(d['edges']).tolist() == edges, '%s: dictionary %s', what, d)
    require(close(d['vertices'], v, tol=5.1e-4 + 4e-16 * size, scale=1.0), '%s: vertices of the dictionary %s', what, d['vertices'])
    judge_dict(line, v, 3, what, line.to_dict())
    lines = line.as_lines()
    require(np.array_equal(lines.v, line.v) and np.array_equal(lines.e, line.e) and lines.vc is None, '%s: lines', what)
    require(line.as_lines(vc='red').vc == 'red' and np.array_equal(line.as_lines(vc='red').e, line.e), '%s: coloured lines', what)
    for decimals in (0, 6) if n < 100 else (0,):
        judge_dict(line, v, decimals, what)
    ctx.step(10)


def judge_dict(line, v, decimals, what, got=None):
    got = (got or line.to_dict(decimals=decimals))['vertices']
    unit = 10. ** -decimals
    size = max([abs(x) for p in v for x in p] + [0.])
    require(close(got, v, tol=0.5 * unit + 4e-16 * size, scale=1.0), '%s: vertices of the dictionary to %d decimals: %s', what, decimals, got)
    whole = np.asarray(got) / unit
    require(np.all(np.abs(whole - np.around(whole)) <= 1e-9 * np.maximum(1, np.abs(whole))), '%s: vertices to %d decimals: %s',
            what, decimals, got)


PLACES = [(1., 0.), (2.**-20, 0.), (2.**20, 0.), (1., 1000.), (1 / 3., -1e6), (2.**-30, 1.), (2.**-60, 0.), (2.**60, 0.)]


@FAMILIES.family(lambda tier: itertools.product(range(2, len(SETS)), range(len(PLACES)), [False, True], sorted(FORMS)))
def placed(ctx, which, place, closed, form):
    """The same shapes very small, very large and far away."""
    from blmath.geometry import Polyline
    scale, shift = PLACES[place]
    v = [[x * scale + shift for x in map(float, p)] for p in SETS[which]]
    if form == 'ints':
        scale = min(scale, 2. ** 50)
        v = [[x * scale + shift for x in map(float, p)] for p in SETS[which]]
        v = [[float(int(x)) for x in p] for p in v]
    line = Polyline(FORMS[form](v), closed=closed)
    model = [v, closed]
    what = (which, place, closed, form)
    judge(ctx, line, model, what)
    for decimals in (-2, -1, 0, 1, 2, 3, 5, 9):
        judge_dict(line, v, decimals, what)
    line.flip()
    model[0] = v[::-1]
    judge(ctx, line, model, what + ('flip',))
    if closed:
        line = step(ctx, line, model, ('reindex', 1), what + ('reindex',))
        judge(ctx, line, model, what + ('reindex',))
    twin = line.copy()
    judge(ctx, twin, model, what + ('copy',))
    parts = 2.7 * (scale if shift == 0 else 1.)
    if max(map(lambda x: math.dist(*x), zip(model[0], model[0][1:] + model[0][:1]))) < 1000 * parts:
        line = step(ctx, line, model, ('partition', parts), what + ('partition',))
        judge(ctx, line, model, what + ('partition',))
    ctx.state('placed', which, place, closed, form)


@FAMILIES.family(lambda tier: itertools.product([100, 255, 256, 257, 1025, 5000] if tier == 'quick' else [100, 127, 128, 129, 255, 256, 257, 1025,
                                                                                                      5000, 33000, 70000], [False, True]))
def long_polylines(ctx, n, closed):
    from blmath.geometry import Polyline
    v = [[float(i), float(i % 3), float(i * i % 5)] for i in range(n)]
    line = Polyline(np.array(v), closed)
    model = [v, closed]
    for ops in ((), (('flip',),), (('closed', not closed),), (('closed', True), ('reindex', n - 2)), (('copy',),), (('closed', closed),)):
        for op in ops:
            line = step(ctx, line, model, op, (n, closed, op))
        judge(ctx, line, model, (n, closed, ops))
    ctx.state('long', n, closed)


@FAMILIES.family(lambda tier: itertools.product(range(len(SETS)), range(len(SETS)), [False, True], [False, True]))
def two_polylines(ctx, i, j, ci, cj):
    """Polylines in use at once do not influence each other."""
    from blmath.geometry import Polyline
    v = [None if SETS[k] is None else [list(map(float, p)) for p in SETS[k]] for k in (i, j)]
    a, b = Polyline(array_if_empty(SETS[i]), closed=ci), Polyline(array_if_empty(SETS[j]), closed=cj)
    judge(ctx, a, [v[0], ci], ('first', i))
    judge(ctx, b, [v[1], cj], ('second', j))
    a.closed = not ci
    c = b.copy()
    b.v = array_if_empty(SETS[i])
    judge(ctx, c, [v[1], cj], ('copy', j))
    judge(ctx, b, [v[0], cj], ('second', i))
    judge(ctx, a, [v[0], not ci], ('first', i))
    ctx.state('two', i, j, ci, cj)
