import math
import operator
from fractions import Fraction as F

from mc import unitmodel as um
from mc.engine import Families, product, require
from mc.lib import require_close, require_refused

PROPERTY = 'C02'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every ordered pair of 10 units x 6x6 magnitudes x every operator; every chain of 3 operations '
             'over a menu of 22 (operator, operand) pairs from 4 starting quantities; comparisons with infinities and what is not a number',
    'thorough': 'every ordered pair of all unit names; chains of 4 operations from 8 starting quantities',
}
ASSUMPTIONS = [
    'the reference model is exact rational arithmetic over the published unit table',
    'order of quantities whose exact sizes differ by less than 1e-9 relative is judged only for consistency',
]
FAMILIES = Families()

MAGS = [0, 1, -2.5, 3, 12, 0.125]
UNITS = ['cm', 'm', 'in', 'feet', 'kg', 'lb', 'deg', 'rad', 'yr', None]


def V(m, u):
    from blmath.value import Value
    return Value(m, u)


def kind(u):
    return None if u is None else um.KIND[u]


def size(u):
    return F(1) if u is None else um.SIZE[u]


def snap(v):
    return (v.value, v.units)


def same(value, mag, units, what):
    from blmath.value import Value
    require(isinstance(value, Value), '%s: not a quantity: %r', what, value)
    require(value.units == units, '%s: units %r, expected %r', what, value.units, units)
    require_close(value.value, mag, what, tol=1e-11, scale=max(1.0, abs(float(mag))))
    require_close(float(value), mag, what, tol=1e-11, scale=max(1.0, abs(float(mag))))


def is_near_integer(q):
    return abs(q - round(q)) < F(1, 10 ** 9) * max(1, abs(q))


def unit_pairs(tier):
    us = UNITS if tier == 'quick' else um.NAMES + [None]
    return product(us, us)


@FAMILIES.family(unit_pairs)
def binary(ctx, ua, ub):
    for ma in MAGS:
        for mb in MAGS:
            a, b = V(ma, ua), V(mb, ub)
            before = snap(a), snap(b)
            what = '%r %s, %r %s' % (ma, ua, mb, ub)
            ops = [operator.add, operator.sub, operator.lt, operator.le, operator.gt,
                   operator.ge, operator.eq, operator.ne, operator.truediv, operator.floordiv]
            if kind(ua) != kind(ub):
                for op in ops:
                    require_refused('%s(%s)' % (op.__name__, what), lambda: op(a, b))
                    ctx.step()
                ctx.outcome('incompatible refused')
                ctx.state('mixed', ua, ub, ma, mb)
            else:
                k = size(ub) / size(ua)
                x, y = F(ma), F(mb) * k
                same(a + b, x + y, ua, '+ of ' + what)
                same(a - b, x - y, ua, '- of ' + what)
                gap = abs(x - y)
                clear = gap > F(1, 10 ** 9) * max(abs(x), abs(y)) or (ua == ub)
                lt, le, gt, ge, eq, ne = [op(a, b) for op in ops[2:8]]
                for r in (lt, le, gt, ge, eq, ne):
                    require(r in (True, False), 'comparison of %s gave %r', what, r)
                require(ne == (not eq), '!= is not the opposite of == for %s', what)
                require(le == (lt or eq) and ge == (gt or eq), '<=, >= inconsistent for %s', what)
                require(bool(lt) + bool(gt) + bool(eq) == 1, 'not exactly one of <, >, == for %s', what)
                if clear:
                    require(bool(lt) == (x < y) and bool(gt) == (x > y), 'order of %s', what)
                ctx.step(8)
                if mb != 0:
                    same(a / b, x / y, None, '/ of ' + what)
                    if not is_near_integer(x / y) or ua == ub:
                        same(a // b, F(math.floor(x / y)), None, '// of ' + what)
                    ctx.step(2)
                else:
                    require_refused('/ by zero ' + what, lambda: a / b, ZeroDivisionError)
                ctx.outcome('lt' if x < y else 'gt' if x > y else 'eq')
                ctx.state('binary', ua, ub, ma, mb)
            require_refused('* of ' + what, lambda: a * b)
            require_refused('%% of ' + what, lambda: a % b)
            require_refused('** of ' + what, lambda: a ** b)
            ctx.step(3)
            require((snap(a), snap(b)) == before, 'an operand was changed: %s', what)


@FAMILIES.family(unit_pairs)
def not_numbers(ctx, ua, ub):
    """What is not a number, or beyond all of them, compares as such."""
    if kind(ua) != kind(ub):
        return
    nan, inf = float('nan'), float('inf')
    for ma, mb in product((nan, inf, -inf, 0, 1, -2.5), (nan, inf, -inf, 0, 1, -2.5)):
        if ma == ma and abs(ma) != inf and mb == mb and abs(mb) != inf:
            continue
        for op in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne):
            got = op(V(ma, ua), V(mb, ub))
            require(got in (True, False) and bool(got) == op(ma, mb), '%s of %r %s and %r %s: %r', op.__name__, ma, ua, mb, ub, got)
            ctx.step()
    ctx.state('not numbers', ua, ub)


@FAMILIES.family(lambda tier: product(um.NAMES + [None], MAGS, [2, -1, 0.5, 3.25, 0, 7]))
def with_number(ctx, u, m, n):
    a = V(m, u)
    before = snap(a)
    what = '%r %s and %r' % (m, u, n)
    x, y = F(m), F(n)
    same(a * n, x * y, u, '* of ' + what)
    same(n * a, x * y, u, 'reflected * of ' + what)
    same(a + n, x + y, u, '+ of ' + what)
    same(n + a, x + y, u, 'reflected + of ' + what)
    same(a - n, x - y, u, '- of ' + what)
    same(n - a, y - x, u, 'reflected - of ' + what)
    for op in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne):
        require(bool(op(a, n)) == op(x, y), '%s of %s', op.__name__, what)
        require(bool(op(n, a)) == op(y, x), 'reflected %s of %s', op.__name__, what)
    if n:
        same(a / n, x / y, u, '/ of ' + what)
        same(a // n, F(math.floor(x / y)), u, '// of ' + what)
    else:
        require_refused('/ of ' + what, lambda: a / n, ZeroDivisionError)
    require_refused('number / quantity: ' + what, lambda: n / a)
    require_refused('number // quantity: ' + what, lambda: n // a)
    require_refused('number %% quantity: ' + what, lambda: n % a)
    require_refused('number ** quantity: ' + what, lambda: n ** a)
    require_refused('quantity %% number: ' + what, lambda: a % n)
    require_refused('quantity ** number: ' + what, lambda: a ** n)
    same(-a, -x, u, 'negation of ' + what)
    same(+a, x, u, 'plus ' + what)
    same(abs(a), abs(x), u, 'abs of ' + what)
    require(float(a) == m and int(a) == int(m), 'float/int of ' + what)
    require(bool(a) == (m != 0), 'truth of ' + what)
    require(a[0] == m and a[1] == u, 'indexing of ' + what)
    require(tuple(iter_pair(a)) == (m, u), 'unpacking of ' + what)
    require_refused('index 2', lambda: a[2], KeyError)
    require(snap(a) == before, 'the operand was changed: %s', what)
    ctx.step(34)
    ctx.state('number', u, m, n)


def iter_pair(a):
    return a[0], a[1]


@FAMILIES.family(lambda tier: product(UNITS, UNITS, MAGS[1:4]))
def with_list(ctx, ua, ub, m):
    """Lists are handled elementwise, on either side."""
    a = V(m, ua)
    numbers = [2, -1.5, 0]
    x = F(m)
    for got, want in [
            (a * numbers, [x * F(n) for n in numbers]), (numbers * a, [x * F(n) for n in numbers]),
            (a + numbers, [x + F(n) for n in numbers]), (numbers + a, [x + F(n) for n in numbers]),
            (a - numbers, [x - F(n) for n in numbers]), (numbers - a, [F(n) - x for n in numbers])]:
        require(len(got) == len(numbers), 'length of an elementwise result')
        for g, w in zip(got, want):
            same(g, w, ua, 'elementwise')
        ctx.step()
    if kind(ua) == kind(ub):
        k = size(ub) / size(ua)
        others = [V(n, ub) for n in numbers]
        for g, n in zip(a + others, numbers):
            same(g, x + F(n) * k, ua, 'quantity + list')
        for g, n in zip(a - others, numbers):
            same(g, x - F(n) * k, ua, 'quantity - list')
        for g, n in zip(others - a, numbers):
            same(g, F(n) - x / k, ub, 'list - quantity')
        for g, n in zip(others + a, numbers):
            require(kind(g.units) == kind(ua), 'kind of list + quantity')
            require_close(F(g.value) * size(g.units), (F(n) * k + x) * size(ua), 'list + quantity')
        total = sum(others, V(0, ub))
        same(total, sum(F(n) for n in numbers), ub, 'sum of quantities')
        same(sum(others), sum(F(n) for n in numbers), ub, 'sum of quantities from 0')
        order = sorted(others + [V(m, ua)])
        sizes = [F(v.value) * size(v.units) for v in order]
        require(sizes == sorted(sizes) or kind(ua) is None or
                all(p <= q * (1 + F(1, 10 ** 9)) or p <= q for p, q in zip(sizes, sizes[1:])), 'sorting')
        ctx.step(7)
        ctx.outcome('list')
    else:
        others = [V(n, ub) for n in numbers]
        for op in (operator.add, operator.sub):
            require_refused('elementwise across kinds', lambda: op(a, others))
            require_refused('elementwise across kinds', lambda: op(others, a))
        require_refused('elementwise product of quantities', lambda: a * others)
        ctx.step(5)
        ctx.outcome('list refused')
    ctx.state('list', ua, ub, m)


@FAMILIES.family(lambda tier: product(um.NAMES, um.NAMES, MAGS))
def conversion(ctx, ua, ub, m):
    a = V(m, ua)
    if kind(ua) != kind(ub):
        require_refused('convert', lambda: a.convert(ub), ValueError)
        require_refused('attribute', lambda: getattr(a, ub), ValueError)
        ctx.step(2)
    else:
        want = F(m) * size(ua) / size(ub)
        for got in (a.convert(ub), getattr(a, ub)):
            require_close(got.value, want, '%r %s in %s', m, ua, ub, tol=1e-12, scale=max(1e-30, abs(float(want))))
            require(got.units == ub, 'units %s', got.units)
            ctx.step()
        for system in ('metric', 'united_states'):
            to = um.DEFAULTS[system][kind(ua)]
            got = a.convert_to_system_default(system)
            w = F(m) * size(ua) / size(to)
            require(got.units == to, 'default units %s', got.units)
            require_close(got.value, w, 'system default', tol=1e-12, scale=max(1e-30, abs(float(w))))
            ctx.step()
    require(snap(a) == (m, ua), 'conversion changed the quantity')
    ctx.state('convert', ua, ub, m)


@FAMILIES.family(lambda tier: [(u,) for u in um.NAMES])
def construction(ctx, u):
    require_refused('no value', lambda: V(None, u), ValueError)
    require_refused('text', lambda: V('abc', u), ValueError)
    for bad in ('bogus', 'centimetres', '', 'CM'):
        require_refused('unknown units', lambda: V(1, bad), ValueError)
        require_refused('unknown units', lambda: V(1, u).convert(bad))
    for name in ('bogus', 'centimetres', 'CM'):
        require_refused('unknown attribute', lambda: getattr(V(1, u), name), AttributeError)
    for n in um.NAMES:
        require_refused('convert a unitless number', lambda: V(1, None).convert(n), ValueError)
    for raw in (3, 3.0, '3', True):
        require(V(raw, u).value == float(raw) and isinstance(V(raw, u).value, float), 'value is a float')
    ctx.step(15 + len(um.NAMES))
    ctx.state('construct', u)


# -- chains of operations -------------------------------------------------------

MENU = [
    ('add', 1.5, 'in'), ('add', 2, 'cm'), ('add', 3, 'kg'), ('add', 4, '#'),
    ('radd', 2, 'm'), ('radd', 4, '#'),
    ('sub', 1, 'm'), ('sub', 0.5, '#'), ('sub', 7, 'lb'),
    ('rsub', 3, 'feet'), ('rsub', 2, '#'), ('rsub', 1, 'lb'),
    ('mul', 3, '#'), ('mul', -0.5, '#'), ('rmul', 2, '#'),
    ('div', 4, '#'), ('div', 0.25, 'm'), ('div', 2, 'kg'),
    ('neg', 0, '#'), ('abs', 0, '#'), ('conv', 0, 'in'), ('conv', 0, 'g'),
]
STARTS = [(1, 'cm'), (-2.5, 'lb'), (5, None), (3, 'in'), (0.5, 'm'), (90, 'deg'), (2, 'kg'), (0, 'feet')]


def apply_model(state, op, n, u):
    """(magnitude, units) or None when refused."""
    m, units = state
    if u == '#':
        y = F(n)
    else:
        if op in ('add', 'sub', 'radd', 'rsub', 'div', 'conv') and kind(u) != kind(units):
            return None
        y = F(n) * size(u) / size(units)
    if op == 'add':
        return m + y, units
    if op == 'sub':
        return m - y, units
    if op in ('radd', 'rsub'):
        if u == '#':
            return (y + m if op == 'radd' else y - m), units
        # the quantity on the left decides the units
        x = m * size(units) / size(u)
        return (F(n) + x if op == 'radd' else F(n) - x), u
    if op in ('mul', 'rmul'):
        return m * y, units
    if op == 'div':
        return m / y, (units if u == '#' else None)
    if op == 'neg':
        return -m, units
    if op == 'abs':
        return abs(m), units
    return m * size(units) / size(u), u


def apply_real(v, op, n, u):
    other = n if u == '#' else V(n, u)
    if op == 'add':
        return v + other
    if op == 'sub':
        return v - other
    if op == 'radd':
        return other + v
    if op == 'rsub':
        return other - v
    if op == 'mul':
        return v * other
    if op == 'rmul':
        return other * v
    if op == 'div':
        return v / other
    if op == 'neg':
        return -v
    if op == 'abs':
        return abs(v)
    return v.convert(u)


@FAMILIES.family(lambda tier: product(range(4 if tier == 'quick' else 8), product(range(len(MENU)), range(len(MENU)))))
def chains(ctx, start, prefix):
    """All chains with this prefix: the results of one operation feed the next."""
    explore(ctx, [MENU[i] for i in prefix], STARTS[start], 1)


@FAMILIES.family(lambda tier: [] if tier == 'quick' else product(range(8), product(range(len(MENU)), range(len(MENU)))))
def deep_chains(ctx, start, prefix):
    explore(ctx, [MENU[i] for i in prefix], STARTS[start], 2)


def explore(ctx, prefix, start, extra):
    history = [start]
    state, v = (F(start[0]), start[1]), V(*start)
    for op in prefix:
        state, v = advance(ctx, history, state, v, op)
        if state is None:
            return
    descend(ctx, history, state, v, extra)


def descend(ctx, history, state, v, extra):
    if extra == 0:
        return
    for op in MENU:
        h = list(history)
        s, w = advance(ctx, h, state, v, op)
        if s is not None:
            descend(ctx, h, s, w, extra - 1)


def advance(ctx, history, state, v, op):
    history.append(op)
    before = snap(v)
    want = apply_model(state, *op)
    ctx.step()
    if want is None:
        require_refused('history %s' % history, lambda: apply_real(v, *op))
        ctx.outcome('refused')
        return None, None
    got = apply_real(v, *op)
    same(got, want[0], want[1], 'history %s' % history)
    require(snap(v) == before, 'history %s changed its operand', history)
    ctx.state(want)
    ctx.outcome('kind %s' % kind(want[1]))
    return want, got
