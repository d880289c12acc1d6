import decimal
import itertools
from fractions import Fraction as F

import numpy as np

from mc.engine import Families, product, require
from mc.lib import freeze, require_refused

PROPERTY = 'C18'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every shape of 0-3 axes with lengths 0-4 x 25 expected shapes x 7 kinds of content x lists, tuples, arrays and Fortran arrays; '
             'every non-numeric element kind (15) at every position of sequences of up to 4 and of 2x2 arrays; 44 scalars and objects; '
             'every subset of the four options on every shape; likewise: single bad elements at several places of arrays of up to 66000; the extreme numbers of each kind',
    'thorough': 'lengths up to 5, sequences up to 6, every dtype out of 10',
}
RULE = 'exhaustive shapes, contents and containers against the rules of coercion; a state is one input and expectation'
ASSUMPTIONS = ['ragged sequences and 0-d arrays are not judged', 'not-a-number is not coerced to integers']
FAMILIES = Families()


def lengths(tier):
    return range(0, 5 if tier == 'quick' else 6)


def shapes(tier):
    for n in (1, 2, 3):
        for s in itertools.product(lengths(tier), repeat=n):
            if n < 3 or max(s) <= 3:
                yield s


EXPECTED = ([None, (-1,), (0,), (1,), (3,), (-1, 3), (3, -1), (-1, -1), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (0, 3), (4, -1), (-1, 4),
             (-1, 2), (0, 0), (4, 4), (1, 1), (-1, -1, -1), (2, 3, 1), (-1, 3, 3), (1, -1, 2), (1, 1, 1, 1)])
CONTENTS = ['int', 'float', 'uint8', 'float32', 'bool', 'complex', 'str']


def content(shape, kind):
    n = int(np.prod(shape))
    base = np.arange(1, n + 1).reshape(shape)
    if kind == 'str':
        return base.astype(str)
    return base.astype({'int': int, 'float': float, 'uint8': np.uint8, 'float32': np.float32, 'bool': bool, 'complex': complex}[kind])


@FAMILIES.family(lambda tier: ((s, k) for s in shapes(tier) for k in CONTENTS))
def shape_and_content(ctx, shape, kind):
    from blmath.numerics import as_numeric_array
    shape = tuple(shape)
    array = content(shape, kind)
    size = array.size
    forms = [array, np.asfortranarray(array)]
    if kind in ('int', 'float', 'bool', 'complex') and size:
        forms += [array.tolist(), tuple(array.tolist())]
    numeric = kind not in ('bool', 'complex', 'str')
    for expected in EXPECTED:
        fits = expected is None or len(expected) == len(shape) and all(e in (-1, d) for e, d in zip(expected, shape))
        turned = not fits and len(expected) == len(shape) and all(e in (-1, d) for e, d in zip(expected, shape[::-1]))
        for form in forms:
            before = freeze(form)
            what = '%s of shape %s, expected shape %s' % (kind, shape, expected)
            ctx.step()
            if not numeric or not (fits or turned):
                require_refused(what, lambda: as_numeric_array(form, shape=expected), ValueError)
                ctx.outcome('refused', numeric)
            else:
                got = as_numeric_array(form, shape=expected)
                want = array if fits else array.T
                require(isinstance(got, np.ndarray) and got.shape == want.shape and np.array_equal(got, want), '%s: got %r', what, got)
                require(got.dtype == np.asarray(form).dtype, '%s: type became %s', what, got.dtype)
                ctx.outcome('turned' if turned else 'taken')
            require(freeze(form) == before, '%s: the input was changed', what)
        ctx.state(shape, kind, expected)


@FAMILIES.family(lambda tier: ((s, k) for s in shapes(tier) for k in ('int', 'float', 'uint8', 'float32', 'bool')))
def coerced(ctx, shape, kind):
    """A type asked for is the type of the result."""
    from blmath.numerics import as_numeric_array
    array = content(tuple(shape), kind)
    for dtype in (np.float64, np.float32, np.int64, np.uint64, np.int8, float, int):
        got = as_numeric_array(array, dtype=dtype, shape=(-1,) * len(shape))
        require(got.dtype == np.dtype(dtype) and np.array_equal(got, array.astype(dtype)), '%s of shape %s as %s: %r', kind, shape, dtype, got)
        none = as_numeric_array(None, dtype=dtype, allow_none=True, shape=(-1, 3))
        require(none is None, 'None as %s: %r', dtype, none)
        ctx.step(2)
    ctx.state('coerced', tuple(shape), kind)


OPTIONS = ('shape', 'allow_none', 'empty_as_none', 'dtype')


@FAMILIES.family(lambda tier: ((s, k, tuple(o), f) for s in shapes(tier) for k in ('int', 'float')
                               for r in range(5) for o in itertools.combinations(OPTIONS, r) for f in ('array', 'list')))
def options(ctx, shape, kind, given, form):
    """Every subset of the options given, the others left to their defaults: only None and, where asked
    for, the one-dimensional empty array are ever taken for nothing."""
    from blmath.numerics import as_numeric_array
    array = content(tuple(shape), kind)
    value = array if form == 'array' else array.tolist()
    values = {'shape': (-1,) * len(np.shape(value)), 'allow_none': True, 'empty_as_none': True, 'dtype': np.float64}
    kwargs = dict((k, values[k]) for k in given)
    what = '%s of shape %s as %s with %s' % (kind, shape, form, list(given))
    got = as_numeric_array(value, **kwargs)
    if np.shape(value) == (0,) and 'allow_none' in given and 'empty_as_none' in given:
        require(got is None, '%s: %r', what, got)
    else:
        require(isinstance(got, np.ndarray) and got.shape == np.shape(value) and np.array_equal(got, value), '%s: %r', what, got)
        if 'dtype' in given:
            require(got.dtype == np.float64, '%s: %r', what, got.dtype)
    if 'allow_none' in given:
        require(as_numeric_array(None, **kwargs) is None, 'None with %s', list(given))
    else:
        require_refused('None with %s' % list(given), lambda: as_numeric_array(None, **kwargs), ValueError)
    ctx.step(2)
    ctx.state('options', tuple(shape), kind, tuple(given), form)


@FAMILIES.family(lambda tier: product([None, (3,), (-1, 3), (0,)], [False, True], [False, True], [False, True]))
def nothing(ctx, shape, allow_none, empty_as_none, dtype):
    from blmath.numerics import as_numeric_array
    dtype = np.float64 if dtype else None
    shape = None if shape is None else tuple(shape)
    call = lambda x: as_numeric_array(x, shape=shape, allow_none=allow_none, empty_as_none=empty_as_none, dtype=dtype)
    if allow_none:
        require(call(None) is None, 'None is allowed')
    else:
        require_refused('None is not allowed', lambda: call(None), ValueError)
    for empty in ([], (), np.zeros(0)):
        if allow_none and empty_as_none:
            require(call(empty) is None, 'an empty array means None')
        elif shape is not None and shape != (0,):
            require_refused('an empty array', lambda: call(empty), ValueError)
        else:
            require(call(empty).shape == (0,), 'an empty array')
    ctx.step(4)
    ctx.state('nothing', shape, allow_none, empty_as_none, str(dtype))
    ctx.outcome('none', allow_none, empty_as_none)


GOOD = {'int': 3, 'float': -1.5, 'zero': 0, 'np.float32': np.float32(2.5), 'np.int8': np.int8(-3), 'big': 1e300, 'tiny': 5e-324}
BAD = {'nan': float('nan'), 'inf': float('inf'), '-inf': -float('inf'), 'np.nan': np.float32('nan'), 'complex': 1j, 'text': 'x',
       'digits': '7', 'None': None, 'object': object(), 'complex zero': 1 + 0j, 'dict': {}, 'bytes': b'1', 'type': int, 'np.inf': np.float64('inf'),
       'np.complex': np.complex64(2)}


def elements(tier):
    top = 4 if tier == 'quick' else 6
    for n in range(1, top + 1):
        for at in range(n):
            for name in sorted(BAD):
                for good in sorted(GOOD):
                    yield (n, at, name, good)


@FAMILIES.family(elements)
def one_bad_element(ctx, n, at, name, good):
    from blmath.numerics import as_numeric_array
    from blmath.numerics.predicates import isnumeric, isnumericarray, isnumericscalar
    values = [GOOD[good]] * n
    clean = list(values)
    values[at] = BAD[name]
    kinds = [list, tuple]
    if name != 'dict' or n > 1:
        kinds.append(lambda v: np.array(v))
    for make in kinds:
        bad, fine = make(values), make(clean)
        what = '%s at %d of %d' % (name, at, n)
        require(not isnumericarray(bad) and not isnumeric(bad), '%s: said to be numeric', what)
        require(isnumericarray(fine) and isnumeric(fine), '%s: %s said not to be numeric', what, clean)
        require(not isnumericscalar(fine) and not isnumericscalar(bad), 'a sequence is not a scalar')
        require_refused(what, lambda: as_numeric_array(bad), ValueError, TypeError)
        got = as_numeric_array(fine)
        require(got.shape == (n,) and got.tolist() == np.array(clean).tolist(), '%s: %r', clean, got)
        ctx.step(8)
    if n == 4:
        for order in 'CF':
            square = np.array(values).reshape((2, 2), order=order)
            require(not isnumericarray(square), '%s at %d of a square: said to be numeric', name, at)
            require_refused('%s in a square' % name, lambda: as_numeric_array(square, shape=(2, -1)), ValueError, TypeError)
            ctx.step(2)
    ctx.state('element', n, at, name, good)
    ctx.outcome('bad', name)


HUGE = [1.7e308, -1.7e308, 1e308, 5e-324, 0.0, 1]


@FAMILIES.family(lambda tier: ((list(v),) for n in (1, 2, 3, 4) for v in itertools.product(HUGE, repeat=n)))
def extreme(ctx, values):
    """Finite numbers are numbers, whatever their sum."""
    from blmath.numerics import as_numeric_array
    from blmath.numerics.predicates import isnumeric, isnumericarray
    for make in (list, tuple, np.array, lambda v: np.array([v, v]), lambda v: np.array(v * 500), lambda v: np.float32(np.array(v) / 1e270)):
        x = make(values)
        require(isnumeric(x) and isnumericarray(x), '%s said not to be numeric', values)
        require(np.array_equal(as_numeric_array(x), np.asarray(x)), 'coerced %s', values)
        ctx.step(3)
    ctx.state('extreme', tuple(values))


POSITIONS = [0, 1, -1, -2, 2 ** 7, 2 ** 8, 999, 2 ** 10, 3001, 2 ** 12 + 1, 9999, 2 ** 15, 2 ** 16 + 1]


@FAMILIES.family(lambda tier: product([1200, 6000, 66000] if tier == 'quick' else [300, 1200, 6000, 66000, 300000], ['nan', 'inf', '-inf', 'None', 'complex', 'text'],
                                      POSITIONS))
def large_arrays(ctx, n, name, at):
    """One bad element anywhere in a large array."""
    from blmath.numerics import as_numeric_array
    from blmath.numerics.predicates import isnumeric, isnumericarray
    if at >= n:
        return
    clean = np.arange(n) / 4.
    bad = clean.astype({'None': object, 'complex': complex, 'text': object}.get(name, float))
    bad[at] = BAD[name]
    forms = [lambda a: a, lambda a: a.reshape(-1, 3), lambda a: np.asfortranarray(a.reshape(-1, 3)), lambda a: np.repeat(a, 2)[::2],
             lambda a: a.reshape(-1, 3).T, lambda a: a.reshape(3, -1, 2)]
    if name in ('nan', 'None') and n < 10000:
        forms += [lambda a: a.tolist(), lambda a: a.reshape(-1, 3).tolist()]
    for form in forms:
        x, y = form(bad), form(clean)
        what = '%s at %d of %d' % (name, at, n)
        require(not isnumeric(x) and not isnumericarray(x), '%s: said to be numeric', what)
        require(isnumeric(y) and isnumericarray(y), '%d numbers said not to be numeric', n)
        require_refused(what, lambda: as_numeric_array(x), ValueError, TypeError)
        require_refused(what, lambda: as_numeric_array(x, shape=(-1,) * np.ndim(y)), ValueError, TypeError)
        require(np.array_equal(as_numeric_array(y), y), '%d numbers', n)
        ctx.step(5)
    ctx.state('large', n, name, at)


SCALARS = [
    (1, True), (0, True), (-7, True), (1.5, True), (0.0, True), (-0.0, True), (10 ** 30, True), (1e308, True), (5e-324, True),
    (F(1, 3), True), (F(0), True), (decimal.Decimal('1.1'), True), (np.float32(2), True), (np.float64(0), True), (np.int8(3), True),
    (np.uint64(2 ** 63), True), (np.int64(0), True), (np.float16(1), True),
    (True, False), (False, False), (np.True_, False), (np.False_, False), (float('nan'), False), (float('inf'), False),
    (-float('inf'), False), (np.float32('nan'), False), (np.float64('-inf'), False), (1j, False), (complex(2, 0), False),
    (np.complex64(1), False), (None, False), (object(), False), (int, False), (len, False), (Ellipsis, False),
]


@FAMILIES.family(lambda tier: product(range(len(SCALARS))))
def scalars(ctx, i):
    from blmath.numerics.predicates import isnumeric, isnumericarray, isnumericscalar
    x, numeric = SCALARS[i]
    require(bool(isnumeric(x)) is numeric, 'isnumeric(%r): %r', x, isnumeric(x))
    require(bool(isnumericscalar(x)) is numeric, 'isnumericscalar(%r): %r', x, isnumericscalar(x))
    require(not isnumericarray(x), 'isnumericarray(%r)', x)
    ctx.step(3)
    ctx.state('scalar', i)
    ctx.outcome('scalar', numeric)


OBJECTS = ['abc', '', b'abc', {}, {'a': 1}, set(), {1, 2}, [None], ['a'], [True], [True, False], (False,), [[True], [False]], [1j], [[1, 2], [3, 1j]],
           np.array([True]), np.array(['a']), np.array([None]), np.array([1 + 0j])]


@FAMILIES.family(lambda tier: product(range(len(OBJECTS))))
def not_numbers(ctx, i):
    from blmath.numerics.predicates import isnumeric, isnumericarray, isnumericscalar
    x = OBJECTS[i]
    for fn in (isnumeric, isnumericarray, isnumericscalar):
        require(not fn(x), '%s(%r): %r', fn.__name__, x, fn(x))
    ctx.step(3)
    ctx.state('object', i)


@FAMILIES.family(lambda tier: ((s,) for s in shapes(tier)))
def emptiness(ctx, shape):
    from blmath.numerics.predicates import is_empty_arraylike
    shape = tuple(shape)
    for dtype in (float, int, bool, object):
        a = np.zeros(shape, dtype=dtype)
        require(bool(is_empty_arraylike(a)) == (a.size == 0), 'array of shape %s', shape)
        ctx.step()
    nested = np.zeros(shape).tolist()
    require(bool(is_empty_arraylike(nested)) == (shape[0] == 0), 'list of shape %s', shape)
    require(bool(is_empty_arraylike(tuple(nested))) == (shape[0] == 0), 'tuple of shape %s', shape)
    require(is_empty_arraylike(None), 'None is empty')
    for full in ([None], (None,), [[]], [0], (False,), np.array(0), np.array(None)):
        require(not is_empty_arraylike(full), '%r is not empty', full)
    ctx.step(10)
    ctx.state('empty', shape)
    ctx.outcome('empty', 0 in shape)
