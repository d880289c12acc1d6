import io
import itertools

import numpy as np

from mc.engine import Families, product, require
from mc.lib import same_bits

PROPERTY = 'C04'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every assignment of 25 leaves to 9 document shapes with up to 3 slots; every dtype x shape of an annotated array; '
             'every sparse format x 3x3 pattern of entries; every subset of the six annotation keys; '
             'the largest and least numbers of 7 dtypes, alone and together, in arrays and in 7 sparse formats, to the last digit',
    'thorough': 'as quick, with two-level nesting of every shape in every shape',
}
RULE = ('exhaustive product of document shapes and leaves; a state is one document; '
        'non-trivial: it contains at least one annotated quantity, array or matrix')
ASSUMPTIONS = ['quantities are finite; documents have string keys and do not reuse the annotation keys for other data']
FAMILIES = Families()

LEAVES = [
    ('v', 1, 'cm'), ('v', 0.1, 'in'), ('v', -2.5, None), ('v', 1e300, 'kg'), ('v', 1e-300, 'years'),
    ('v', 0, 'deg'), ('v', 1. / 3, 'hours_per_week'), ('v', 123456789.123456789, 'feet'), ('v', -0.0, 'g'),
    ('v', 5e-324, 'm'), ('v', 2 ** 53 + 2, 'mm'), ('v', 1, ''),
    ('p', 1), ('p', 2.5), ('p', 'text'), ('p', None), ('p', True), ('p', ''),
    ('p', []), ('p', {}), ('p', [1, 2]), ('p', {'value': 1, 'units': 'cm'}), ('p', {'a': {'b': None}}),
    ('p', {'ndarray': [1]}), ('p', u'\u00e9\u4e2d'),
]
LEAVES = [l for l in LEAVES if l[-1] != '' or l[0] == 'p']

SHAPES = [
    lambda a, b, c: a,
    lambda a, b, c: [a],
    lambda a, b, c: {'k': a},
    lambda a, b, c: [a, b],
    lambda a, b, c: {'k': a, 'j': b},
    lambda a, b, c: {'k': [a, {'i': b}]},
    lambda a, b, c: [[a], [[b]]],
    lambda a, b, c: {'k': a, 'j': [b, c]},
    lambda a, b, c: [a, {'k': {'i': b}}, [c, a]],
]
ARITY = [1, 1, 1, 2, 2, 2, 2, 3, 3]


def leaf(spec):
    from blmath.value import Value
    return Value(*spec[1:]) if spec[0] == 'v' else spec[1]


def agree(got, want, path='$'):
    from blmath.value import Value
    if isinstance(want, Value):
        require(isinstance(got, Value), '%s: %r is not a quantity', path, got)
        require(got.value == want.value and str(got.value) == str(want.value) and got.units == want.units,
                '%s: %r is not %r %r', path, got, want.value, want.units)
    elif isinstance(want, dict):
        require(type(got) is dict and set(got) == set(want), '%s: %r', path, got)
        for k in want:
            agree(got[k], want[k], path + '.' + k)
    elif isinstance(want, list):
        require(type(got) is list and len(got) == len(want), '%s: %r', path, got)
        for i, (g, w) in enumerate(zip(got, want)):
            agree(g, w, '%s[%d]' % (path, i))
    else:
        require(type(got) is type(want) and got == want, '%s: %r is not %r', path, got, want)


def documents(tier):
    for s in range(len(SHAPES)):
        for first in range(len(LEAVES)):
            yield (s, first)


@FAMILIES.family(documents)
def round_trip(ctx, s, first):
    from blmath.util import json
    n = len(LEAVES)
    for rest in itertools.product(range(n), repeat=ARITY[s] - 1):
        if ARITY[s] == 3 and rest[1] >= 14:
            continue
        ids = [first] + list(rest) + [0, 0]
        doc = SHAPES[s](*[leaf(LEAVES[i]) for i in ids[:3]])
        text = json.dumps(doc)
        agree(json.loads(text), doc)
        ctx.step()
        if len(rest) < 2:
            again = json.dumps(json.loads(text))
            require(again == text, 'not stable under a second round trip: %s', text)
            f = io.StringIO()
            json.dump(doc, f)
            require(f.getvalue() == text, 'dump and dumps disagree')
            f.seek(0)
            agree(json.load(f), doc)
            agree(json.loads(json.dumps(doc, indent=2, sort_keys=True)), doc)
            f = io.StringIO()
            json.dump(doc, f, indent=1)
            f.seek(0)
            agree(json.load(f), doc)
            ctx.step(4)
        ctx.state(s, tuple(ids[:ARITY[s]]))
    ctx.outcome('shape', s)


@FAMILIES.family(lambda tier: product(range(3 if tier == 'quick' else len(SHAPES)), range(len(SHAPES)), range(12)))
def nested(ctx, outer, inner, first):
    from blmath.util import json
    a, b, c = leaf(LEAVES[first]), leaf(LEAVES[(first + 5) % 24]), leaf(LEAVES[(first + 11) % 24])
    sub = SHAPES[inner](a, b, c)
    doc = SHAPES[outer](sub, a, SHAPES[inner](c, a, b))
    agree(json.loads(json.dumps(doc)), doc)
    ctx.step()
    ctx.state('nested', outer, inner, first)


DTYPES = ['float64', 'float32', 'int64', 'int32', 'uint8', 'bool', 'uint64', 'complex128', None]
ARRAYS = [[], [1], [1, 2, 3], [[1, 2], [3, 4]], [[1], [2], [3]], [[]], [[[1, 0], [0, 1]]], 5, [0, 1, 255],
          [[1, 2, 3]] * 4]


@FAMILIES.family(lambda tier: product(DTYPES, range(len(ARRAYS)), range(len(SHAPES))))
def ndarray(ctx, dtype, which, shape):
    import simplejson
    from blmath.util import json
    data = ARRAYS[which]
    note = {'__ndarray__': data}
    if dtype:
        note['dtype'] = dtype
    want = np.array(data, dtype=np.dtype(dtype) if dtype else np.float64)
    text = simplejson.dumps(SHAPES[shape](note, 'b', 'c'))
    got = json.loads(text)
    plain = SHAPES[shape]('@', 'b', 'c')
    count = [0]
    compare_at(got, plain, want, count)
    require(count[0] >= 1, 'no array decoded from %s', text)
    f = io.StringIO(text)
    count = [0]
    compare_at(json.load(f), plain, want, count)
    require(count[0] >= 1, 'no array decoded from %s', text)
    ctx.step(2)
    ctx.state('array', dtype, which, shape)
    ctx.outcome('array', str(want.dtype))


def compare_at(got, plain, want, count):
    if plain == '@':
        require(isinstance(got, np.ndarray), 'not an array: %r', got)
        require(same_bits(got, want), 'array %r, expected %r', got, want)
        count[0] += 1
    elif isinstance(plain, dict):
        require(type(got) is dict and set(got) == set(plain), 'document changed: %r', got)
        for k in plain:
            compare_at(got[k], plain[k], want, count)
    elif isinstance(plain, list):
        require(type(got) is list and len(got) == len(plain), 'document changed: %r', got)
        for g, p in zip(got, plain):
            compare_at(g, p, want, count)
    else:
        require(got == plain, 'document changed: %r', got)


FORMATS = ['coo', 'csr', 'csc', 'lil', 'dok', 'dia', 'bsr']


@FAMILIES.family(lambda tier: product(FORMATS, ['float64', 'float32', 'int64'], range(64)))
def sparse(ctx, fmt, dtype, pattern):
    """Every pattern of entries of a 2x3 matrix; one entry is given twice (they add up)."""
    import scipy.sparse as sp
    import simplejson
    from blmath.util import json
    cells = [(i // 3, i % 3, i + 1) for i in range(6) if pattern >> i & 1]
    if cells:
        cells.append((cells[0][0], cells[0][1], 10))
    dense = np.zeros((2, 3))
    for r, c, x in cells:
        dense[r, c] += x
    note = {'__scipy.sparse.sparsematrix__': True, 'dtype': dtype, 'shape': [2, 3], 'format': fmt,
            'data': [x for _, _, x in cells], 'row': [r for r, _, _ in cells], 'col': [c for _, c, _ in cells]}
    got = json.loads(simplejson.dumps({'k': [note]}))['k'][0]
    require(sp.issparse(got), 'not a sparse matrix: %r', got)
    require(got.shape == (2, 3) and got.format == fmt and got.dtype == np.dtype(dtype), 'header of %r', got)
    require(np.array_equal(got.toarray(), dense), 'entries %s, expected %s', got.toarray(), dense)
    ctx.step()
    ctx.state('sparse', fmt, dtype, pattern)


NUMBERS = {
    'float64': [0.1, -1e300, 5e-324, 2.0 ** 53 + 2, 1. / 3, -0.0, 123456789.123456789],
    'float32': [0.1, -1e30, 2.0 ** -149, 16777216, 1. / 3, -0.0],
    'int64': [2 ** 53 + 1, -(2 ** 53) - 1, 2 ** 63 - 1, -2 ** 63, 2 ** 60 + 1, 7],
    'uint64': [2 ** 64 - 1, 2 ** 63 + 1, 2 ** 53 + 1, 0, 7],
    'int32': [2 ** 31 - 1, -2 ** 31, 16777217],
    'uint8': [255, 128, 1],
    'int8': [-128, 127, -1],
}


@FAMILIES.family(lambda tier: product(sorted(NUMBERS), FORMATS, range(1, 8)))
def every_digit(ctx, dtype, fmt, n):
    """Numbers come back to the last digit, in arrays and in sparse matrices."""
    import scipy.sparse as sp
    import simplejson
    from blmath.util import json
    numbers = (NUMBERS[dtype] * 7)[:n] if n < 7 else NUMBERS[dtype]
    want = np.array(numbers, dtype=dtype)
    for text in (simplejson.dumps({'__ndarray__': numbers, 'dtype': dtype}), simplejson.dumps({'dtype': dtype, '__ndarray__': want.tolist()})):
        got = json.loads(text)
        require(isinstance(got, np.ndarray) and same_bits(got, want), '%s: array %r, expected %r', dtype, got, want)
        ctx.step()
    if dtype in ('uint8', 'int8') and fmt in ('lil', 'dok'):
        return
    nonzero = [x for x in numbers if x]
    if nonzero:
        k = list(range(len(nonzero)))
        note = {'__scipy.sparse.sparsematrix__': True, 'dtype': dtype, 'shape': [len(nonzero), len(nonzero) + 2], 'format': fmt,
                'data': nonzero, 'row': k, 'col': [i + 1 for i in k]}
        got = json.loads(simplejson.dumps(note))
        require(sp.issparse(got) and got.format == fmt and got.dtype == np.dtype(dtype), 'header of %r', got)
        coo = got.tocoo()
        found = {(int(i), int(j)): x for i, j, x in zip(coo.row, coo.col, coo.data) if x}
        require(found == {(i, i + 1): np.dtype(dtype).type(x) for i, x in zip(k, nonzero)}, '%s %s: entries %s, expected %s', fmt, dtype, found, nonzero)
        ctx.step()
    ctx.state('digits', dtype, fmt, n)


KEYS = ['dtype', 'shape', 'data', 'format', 'row', 'col']


@FAMILIES.family(lambda tier: [(m,) for m in range(63)])
def incomplete(ctx, mask):
    """An incomplete annotation is ordinary data."""
    import simplejson
    from blmath.util import json
    full = {'dtype': 'float64', 'shape': [1, 1], 'data': [1], 'format': 'csr', 'row': [0], 'col': [0]}
    note = {k: full[k] for i, k in enumerate(KEYS) if mask >> i & 1}
    doc = dict(note)
    agree(json.loads(simplejson.dumps(doc)), doc)
    note['__scipy.sparse.sparsematrix__'] = True
    agree(json.loads(simplejson.dumps([note])), [note])
    ctx.step(2)
    ctx.state('incomplete', mask)
