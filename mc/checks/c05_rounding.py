from fractions import Fraction as F

import numpy as np

from mc import unitmodel as um
from mc.engine import Families, product, require
from mc.lib import require_close

PROPERTY = 'C05'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every multiple of 1/80 of 14 increments from -40 to 40 increments, and offsets by whole thousands of increments; '
             '14 other increments x 19 powers of ten x 7 places x 31 fractions; lists, tuples, arrays and others to -4 to 6 places; '
             'whole numbers by whole increments',
    'thorough': 'every multiple of 1/800 of the same increments over the same range',
}
RULE = 'exhaustive grid of (value, increment); a state is one pair; non-trivial when the value is not already a multiple'
ASSUMPTIONS = ['within floating-point noise (1e-9 relative) of a tie, either neighbouring multiple is right',
               'increments are given as decimal or binary fractions; the exact increment is the decimal one']
FAMILIES = Families()

NEAREST = ['0.05', '0.1', '0.25', '0.5', '1', '2', '0.2', '5', '10', '0.01', '0.001', '0.125', '3', '100']


def gen(tier):
    steps = 80 if tier == 'quick' else 800
    for i in range(len(NEAREST)):
        for base in (0, 1, -1, 2, -7, 19, -20, 38, 1000, -3000, 99999):
            yield (i, base, steps)


@FAMILIES.family(gen)
def to_increment(ctx, which, base, steps):
    from blmath.numerics import round_to
    from blmath.value import Value
    exact = F(NEAREST[which])
    nearest = float(exact) if exact.denominator != 1 else int(exact)
    last = None
    for k in range(2 * steps + 1):
        value = float((base + F(k, steps)) * exact)
        got = round_to(value, nearest)
        require(um.is_rounding(got, F(value), exact), 'round_to(%r, %r) = %r', value, nearest, got)
        require(abs(F(float(got)) - F(value)) <= exact * (F(1, 2) + F(1, 10 ** 6)), 'round_to(%r, %r) = %r moved too far', value, nearest, got)
        require(last is None or got >= last, 'not monotone: round_to(%r, %r) = %r after %r', value, nearest, got, last)
        last = got
        again = round_to(got, nearest)
        require(again == got, 'not idempotent: round_to(%r, %r) = %r', got, nearest, again)
        require(round_to(-value, nearest) == -got, 'not symmetric at %r, %r', value, nearest)
        ctx.step(3)
        ctx.state(which, value)
        if k % 16 == 0:
            q = Value(value, 'cm').round(nearest)
            require(q.units == 'cm' and um.is_rounding(q.value, F(value), exact), 'Value(%r).round(%r) = %r', value, nearest, q)
            ctx.step()
    ctx.outcome('increment', NEAREST[which])


ODD = ['0.3', '0.7', '1.5', '0.15', '2.5', '7', '0.9', '12', '6.25', '1/3', '1/7', '1/16', '2.54', '0.035']


def multiple(result, x, nearest):
    """Is `result` the multiple closest to exact x, but for 1e-12 of itself?"""
    q = x / nearest
    ks = [k for k in (q.numerator // q.denominator, q.numerator // q.denominator + 1) if abs(q - k) <= F(1, 2) + F(1, 10 ** 9) * max(1, abs(q))]
    return any(abs(F(float(result)) - k * nearest) <= F(1, 10 ** 12) * abs(k) * nearest for k in ks)


@FAMILIES.family(lambda tier: product(range(len(ODD)), range(-9, 10), [0, 1, -1, 5, -12, 250, -4001] if tier == 'quick' else [0, 1, -1, 5, -12, 250, -4001, 10 ** 6 + 1, -10 ** 9]))
def other_increments(ctx, which, tens, base):
    """Increments which are not powers of anything, tiny and huge ones, and numbers of other kinds."""
    from blmath.numerics import round_to
    from blmath.value import Value
    exact = F(ODD[which]) * F(10) ** tens
    nearest = int(exact) if exact.denominator == 1 and tens % 2 else float(exact)
    for k in range(-15, 16):
        value = float((base + F(k, 16)) * exact)
        kinds = [value, np.float64(value)] + ([int(value)] if abs(value) >= 1 else [])
        for v in kinds:
            got = round_to(v, nearest)
            require(multiple(got, F(float(v)) if not isinstance(v, int) else F(v), exact), 'round_to(%r, %r) = %r', v, nearest, got)
            got = round_to(v, np.float64(nearest))
            require(multiple(got, F(float(v)) if not isinstance(v, int) else F(v), exact), 'round_to(%r, np.float64(%r)) = %r', v, nearest, got)
            ctx.step(2)
        q = Value(value, 'kg').round(nearest)
        require(q.units == 'kg' and multiple(q.value, F(value), exact), 'Value(%r).round(%r) = %r', value, nearest, q)
        ctx.step()
    ctx.state('odd', which, tens, base)
    ctx.outcome('odd')


@FAMILIES.family(lambda tier: product([1, 2, 3, 4, 5, 7, 8, 10, 12, 25, 60, 100, 1000], range(-6, 7)))
def whole(ctx, nearest, place):
    """Whole numbers to whole increments: nearest, alike on both sides of zero, multiples stay."""
    from blmath.numerics import round_to
    last = None
    for value in range(place * 4 * nearest - 30, place * 4 * nearest + 31):
        got = round_to(value, nearest)
        require(multiple(got, F(value), F(nearest)), 'round_to(%r, %r) = %r', value, nearest, got)
        for other in (round_to(float(value), nearest), round_to(value, float(nearest)), -round_to(-value, nearest), round_to(np.int64(value), nearest)):
            require(other == got, 'round_to(%r, %r) = %r or %r', value, nearest, got, other)
        require(last is None or got >= last, 'not monotone: round_to(%r, %r) = %r after %r', value, nearest, got, last)
        require(round_to(got, nearest) == got, 'not idempotent: round_to(%r, %r)', got, nearest)
        last = got
        ctx.step(6)
    ctx.state('whole', nearest, place)


@FAMILIES.family(lambda tier: product(range(-4, 7), range(6)))
def other_lists(ctx, precision, kind):
    from blmath.numerics import rounded_list
    step = F(1, 10) ** precision if precision >= 0 else F(10) ** -precision
    base = [0, 5, -15, 44, 56, 149, -151, 999, 12345, -100000, 2 ** 40, None]
    if kind:
        base = [float(F(x) / 8) if x is not None else None for x in base]
    source = [base, base, tuple(base), [np.float64(x) if x is not None else None for x in base], {x: 1 for x in base}, np.array(base[:-1])][kind]
    got = rounded_list(source, precision)
    check_list(got, list(source), step, source)
    got = rounded_list(iterable=source, precision=precision)
    check_list(got, list(source), step, source)
    if kind in (3, 5):
        require(all(g is None or isinstance(g, float) for g in got), 'kinds: %s', [type(g) for g in got])
    ctx.step(2)
    ctx.state('lists', precision, kind)


@FAMILIES.family(lambda tier: product(range(-2, 5), range(40)))
def elementwise(ctx, precision, block):
    from blmath.numerics import rounded_list
    step = F(1, 10) ** precision if precision >= 0 else F(10) ** -precision
    base = [None if k % 5 == 3 else float((F(k * 13 + 7, 37) - 3 * block) * step) for k in range(block)]
    for source in (list(base), tuple(base)):
        got = rounded_list(source, precision)
        check_list(got, base, step, source)
        ctx.step()
    got = rounded_list((x for x in base), precision)
    check_list(got, base, step, base)
    if precision == 0:
        check_list(rounded_list(base), base, step, base)
        check_list(rounded_list(base, precision=0), base, step, base)
    ints = [None, 3, -4, 0]
    got = rounded_list(ints, max(precision, 0))
    require(list(got) == ints, 'whole numbers stay: %r', got)
    ctx.step(2)
    ctx.state('list', precision, block)


def check_list(got, base, step, source):
    require(isinstance(got, list) and len(got) == len(base), 'rounded_list(%r) = %r', source, got)
    for g, x in zip(got, base):
        if x is None:
            require(g is None, 'None stays None')
        else:
            require(um.is_rounding(g, F(x), step), '%r rounded to %s gives %r', x, float(step), g)


@FAMILIES.family(lambda tier: product([None] + um.NAMES, [None, 0, 1, 2, 3], [0, 0.5, 1.26, -2.744, 1234.5678, -1e-7]))
def quantity(ctx, units, places, m):
    """round() of a quantity keeps its units."""
    from blmath.value import Value
    v = Value(m, units)
    got = round(v) if places is None else round(v, places)
    step = F(1, 10 ** (places or 0))
    require(isinstance(got, Value) and got.units == units, 'round(%r, %r) = %r', v, places, got)
    require(um.is_rounding(got.value, F(m), step), 'round(%r, %r) = %r', v, places, got)
    for nearest in ('0.25', '0.1', '2'):
        exact = F(nearest)
        got = v.round(float(exact))
        require(isinstance(got, Value) and got.units == units, '%r.round(%s) = %r', v, nearest, got)
        require(um.is_rounding(got.value, F(m), exact), '%r.round(%s) = %r', v, nearest, got)
    require((v.value, v.units) == (m, units), 'rounding changed the quantity')
    ctx.step(4)
    ctx.state('quantity', units, places, m)
