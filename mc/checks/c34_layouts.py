"""An answer depends on the numbers in an array, not on how the array is stored."""
import itertools

import numpy as np

from mc.checks import c30_independence as calls
from mc.engine import Families, product, require

PROPERTY = 'C34'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'for each of about 240 calls covering all modules, and those with many points again with one and with three, every assignment of 9 ways of storing (row by row, column by column, some rows of an array stored by column, read backwards, '
             'every other element of a larger buffer, part of a wider array, read-only, misaligned, a subclass) to its array arguments and to the '
             'parts of its sparse ones, index arrays in 3 types; all of them where there are at most 4096, otherwise every one of two arguments; one array given for every two arguments of '
             'one shape; the calls with whole numbers in place of theirs (and of eight times theirs), each argument as 64-bit, 32-bit or single-precision '
             'numbers, or as a whole or library number, in every combination up to 256; every two arguments of one shape as parts of one array (interleaved, shifted, turned round)',
    'thorough': 'the same with all assignments, and after each the call with plain arrays again',
}
ASSUMPTIONS = ['arrays have the native byte order', 'messages and other text may show the kind of number; answers from single precision are compared to 2e-3',
               'an answer is compared with the answer for plain arrays in a fresh process, numbers to 1e-9']
CHUNK = 1
RULE = 'every way of storing every array argument of every call of the catalogue; a state is one call'
FAMILIES = Families()
# these refuse (or warn of) arrays whose reshaping needs a copy: C31
BY_LAYOUT = ('reshape', 'reshape copy')
# no unique answer (the rotation of one point, or of none about another)
UNIQUE_ONLY = ('rigid transform [1]', 'rigid rotation [1]', 'rigid rotation scale [1]')


def prepare(scratch):
    calls.prepare(scratch)
    resize()


def names():
    calls.names()
    resize()
    return [n for n in calls.CATALOGUE if n.split(' [')[0] not in BY_LAYOUT and n not in UNIQUE_ONLY]


def resize():
    """The calls with many points again with one and with three of them: arrays as wide as high are stored alike either way round."""
    for name, (fn, args, kwargs) in list(calls.CATALOGUE.items()):
        if ' [' in name:
            continue
        many = [n for a in args if isinstance(a, np.ndarray) and a.dtype.kind == 'f' for n in a.shape if n > 3]
        for n in (1, 3):
            given = [shorter(a, max(many), n) if many and isinstance(a, np.ndarray) and a.dtype.kind == 'f' else a for a in args]
            if many and '%s [%d]' % (name, n) not in calls.CATALOGUE:
                calls.CATALOGUE['%s [%d]' % (name, n)] = (fn, given, kwargs)


def shorter(a, many, n):
    return a[tuple(slice(n) if m == many else slice(None) for m in a.shape)].copy()



class Sub(np.ndarray):
    pass


def backwards(x):
    flip = (slice(None, None, -1),) * x.ndim
    return x[flip].copy()[flip]


def spaced(x):
    big = np.full(tuple(2 * n + 1 for n in x.shape), 9).astype(x.dtype)
    view = big[(slice(1, None, 2),) * x.ndim]
    view[...] = x
    return view


def part(x):
    big = np.full(tuple(n + 2 for n in x.shape), 9).astype(x.dtype)
    view = big[(slice(1, -1),) * x.ndim]
    view[...] = x
    return view


def rows_by_column(x):
    big = np.full((x.shape[0] + 2,) + x.shape[1:], 9, order='F').astype(x.dtype)
    view = big[:x.shape[0]]
    view[...] = x
    return view


def readonly(x):
    x = x.copy()
    x.flags.writeable = False
    return x


def misaligned(x):
    raw = np.zeros(x.nbytes + 1, dtype=np.uint8)
    view = raw[1:].view(x.dtype).reshape(x.shape) if x.nbytes else x.copy()
    view[...] = x
    return view


LAYOUTS = [('plain', lambda x: x.copy()), ('by column', lambda x: np.array(x, order='F')), ('backwards', backwards), ('spaced', spaced), ('part', part),
           ('read-only', readonly), ('rows by column', rows_by_column), ('misaligned', misaligned), ('subclass', lambda x: x.copy().view(Sub))]
INDICES = [('int32', lambda x: x.astype(np.int32)), ('uint32', lambda x: x.astype(np.uint32)), ('intp', lambda x: x.astype(np.intp))]


def ways(x):
    """[(how, make)] for one argument; one entry if there is nothing to vary."""
    import scipy.sparse as sp
    if isinstance(x, np.ndarray):
        out = [w for i, w in enumerate(LAYOUTS) if x.ndim > 1 or 'by column' not in w[0]]
        if x.dtype.kind in 'iu':
            out = out + INDICES
        return [(n, lambda make=make: make(x)) for n, make in out]
    if sp.issparse(x):
        def stored(readonly_):
            y = x.copy()
            if readonly_:
                for a in (y.data, y.indices, y.indptr):
                    a.flags.writeable = False
            return y
        return [('plain', lambda: stored(False)), ('read-only', lambda: stored(True))]
    if type(x).__name__ == 'Polyline':
        def remade(v):
            return type(x)(v, closed=x.closed)
        return [(n, lambda make=make: remade(make())) for n, make in ways(np.asarray(x.v))]
    return [('as it is', lambda: calls.fresh(x))]


def assignments(args, most):
    all_ways = [ways(a) for a in args]
    n = 1
    for w in all_ways:
        n *= len(w)
    if n <= most:
        for choice in itertools.product(*all_ways):
            yield choice
        return
    seen = set()
    for i, j in itertools.combinations(range(len(args)), 2):
        for a, b in itertools.product(all_ways[i], all_ways[j]):
            choice = [w[0] for w in all_ways]
            choice[i], choice[j] = a, b
            key = tuple(c[0] for c in choice)
            if key not in seen:
                seen.add(key)
                yield tuple(choice)


@FAMILIES.family(lambda tier: product(names(), [4096 if tier == 'quick' else 10 ** 6], [tier != 'quick']))
def stored(ctx, name, most, again):
    fn, args, kwargs = calls.CATALOGUE[name]
    wanted = calls.alone(name)
    if ' [' in name and isinstance(wanted, tuple) and wanted[:2] == ('refused', 'IndexError'):
        return  # the faces of a mesh without these vertices

    def run():
        steps = 0
        for choice in assignments(args, most):
            given = [make() for _, make in choice]
            before = calls.look_all(given, kwargs)
            try:
                answer = fn(*given, **{k: calls.fresh(v) for k, v in kwargs.items()})
            except Exception as e:  # the call may be one which is refused
                answer = e
            how = [n for n, _ in choice]
            picture = calls.image(answer)
            require(calls.alike(picture, wanted), '%s with arguments stored %s: %s instead of %s', name, how, calls.brief(picture), calls.brief(wanted))
            require(calls.look_all(given, kwargs) == before, '%s with arguments stored %s: an argument was changed', name, how)
            steps += 1
            if again:
                require(calls.alike(calls.perform(name)[1], wanted), '%s after arguments stored %s', name, how)
        return steps
    steps = calls.in_child(run)
    ctx.step(steps)
    ctx.state(name)
    ctx.outcome('ways', steps)


def twins(args):
    """Every pair of array arguments of one shape and kind."""
    for i, j in itertools.combinations(range(len(args)), 2):
        a, b = args[i], args[j]
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype:
            yield i, j


@FAMILIES.family(lambda tier: product(names(), [tier != 'quick']))
def shared(ctx, name, thorough):
    """One array given for two arguments answers as two equal arrays do."""
    fn, args, kwargs = calls.CATALOGUE[name]

    def ask(given):
        before = calls.look_all(given, kwargs)
        try:
            answer = fn(*given, **{k: calls.fresh(v) for k, v in kwargs.items()})
        except Exception as e:
            answer = e
        require(calls.look_all(given, kwargs) == before, '%s with one array for two arguments: an argument was changed', name)
        return calls.image(answer)

    def run():
        steps = 0
        for i, j in twins(args):
            for one, other in ((i, j), (j, i)):
                separate = [calls.fresh(a) for a in args]
                separate[other] = separate[one].copy()
                wanted = ask(separate)
                for layout, make in (LAYOUTS if thorough else LAYOUTS[:1]):
                    for view in (False, True):
                        given = [calls.fresh(a) for a in args]
                        given[one] = make(given[one])
                        given[other] = given[one][...] if view else given[one]
                        picture = ask(given)
                        require(calls.alike(picture, wanted), '%s with one array (%s) for the arguments %d and %d: %s instead of %s',
                                name, layout, one, other, calls.brief(picture), calls.brief(wanted))
                        steps += 1
        return steps
    steps = calls.in_child(run)
    ctx.step(steps)
    ctx.state('shared', name)
    ctx.outcome('shared', steps)


def overlaps(a, b):
    """Pairs of arrays in one memory: beside each other, one behind the other, turned round."""
    both = np.empty(a.shape + (2,), dtype=a.dtype)
    both[..., 0], both[..., 1] = a, b
    yield both[..., 0], both[..., 1]
    if a.ndim and len(a) > 1:
        behind = np.concatenate([a, b[-1:]])
        yield behind[:-1], behind[1:]
        behind = np.concatenate([a[:1], b])
        yield behind[1:], behind[:-1]
        turned = a.copy()
        yield turned, turned[::-1]
    if a.ndim > 1 and a.shape[1] > 1:
        turned = a.copy()
        yield turned, turned[:, ::-1]
        behind = np.concatenate([a, b[:, -1:]], axis=1)
        yield behind[:, :-1], behind[:, 1:]


@FAMILIES.family(lambda tier: product(names()))
def overlapping(ctx, name):
    """Two arguments which are parts of one array answer as two separate arrays do."""
    fn, args, kwargs = calls.CATALOGUE[name]

    def ask(given):
        before = calls.look_all(given, kwargs)
        try:
            answer = fn(*given, **{k: calls.fresh(v) for k, v in kwargs.items()})
        except Exception as e:
            answer = e
        require(calls.look_all(given, kwargs) == before, '%s with parts of one array: an argument was changed', name)
        return calls.image(answer)

    def run():
        steps = 0
        for i, j in twins(args):
            for x, y in overlaps(args[i], args[j]):
                separate = [calls.fresh(a) for a in args]
                separate[i], separate[j] = x.copy(), y.copy()
                wanted = ask(separate)
                given = [calls.fresh(a) for a in args]
                given[i], given[j] = x, y
                picture = ask(given)
                require(calls.alike(picture, wanted), '%s with parts of one array for the arguments %d and %d: %s instead of %s',
                        name, i, j, calls.brief(picture), calls.brief(wanted))
                steps += 1
        return steps
    steps = calls.in_child(run)
    ctx.step(steps)
    ctx.state('overlapping', name)
    ctx.outcome('overlapping', steps)


# -- kinds of numbers ------------------------------------------------------------------

ARRAY_KINDS = (np.int64, np.int32, np.float32)
NUMBER_KINDS = (int, np.float64, np.int64)


def kinds_of(a):
    import scipy.sparse as sp
    if isinstance(a, np.ndarray) and a.dtype == np.float64 and a.size and np.all(np.isfinite(a)):
        return ARRAY_KINDS
    if sp.issparse(a) and a.dtype == np.float64:
        return ARRAY_KINDS[:2]
    if type(a) is float and np.isfinite(a):
        return NUMBER_KINDS
    return ()


def whole(a, scale):
    import scipy.sparse as sp
    if isinstance(a, np.ndarray):
        return np.round(a * scale)
    if sp.issparse(a):
        return a.astype(float).multiply(scale).rint().asformat(a.format)
    return float(round(a * scale)) or 1.0


def of_kind(a, kind):
    return a.astype(kind) if hasattr(a, 'astype') and not isinstance(a, np.generic) else kind(a)


def near(a, b, tol):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        if a and b and a[0] == b[0] == 'refused':
            return a[1] == b[1]
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b or isinstance(a, str)


@FAMILIES.family(lambda tier: product(names(), (1, 8), [256 if tier == 'quick' else 4096]))
def kinds(ctx, name, scale, most):
    """Whole numbers answer alike as whole-number arrays, as others, and in single precision to its precision."""
    fn, args, kwargs = calls.CATALOGUE[name]
    vary = [i for i, a in enumerate(args) if kinds_of(a)]
    if not vary:
        return
    base = [whole(a, scale) if kinds_of(a) else a for a in args]

    def ask(given):
        before = calls.look_all(given, kwargs)
        try:
            answer = fn(*given, **{k: calls.fresh(v) for k, v in kwargs.items()})
        except Exception as e:
            answer = e
        require(calls.look_all(given, kwargs) == before, '%s with whole numbers: an argument was changed', name)
        return calls.image(answer)

    def run():
        wanted = ask([calls.fresh(a) for a in base])
        if isinstance(wanted, tuple) and wanted[0] == 'refused':
            return 0, wanted[1]
        ways_ = [(float,) + kinds_of(args[i]) for i in vary]
        choices = itertools.product(*ways_)
        steps = 0
        if np.prod([float(len(w)) for w in ways_]) > most:
            choices = [tuple(w[k] if i in which else float for i, w in enumerate(ways_))
                       for which in itertools.chain(itertools.combinations(range(len(vary)), 2), [range(len(vary))]) for k in range(1, 4) if all(len(ways_[i]) > k for i in which)]
        for choice in choices:
            given = [calls.fresh(a) for a in base]
            for i, kind in zip(vary, choice):
                if kind is not float:
                    given[i] = of_kind(given[i], kind)
            picture = ask(given)
            require(near(picture, wanted, 2e-3 if np.float32 in choice else 1e-9), '%s of whole numbers given as %s: %s instead of %s', name,
                    [np.dtype(k).name if k is not float else 'float' for k in choice], calls.brief(picture), calls.brief(wanted))
            steps += 1
        return steps, 'answered'
    steps, how = calls.in_child(run)
    ctx.step(steps)
    ctx.state('kinds', name, scale)
    ctx.outcome('kinds', how)
