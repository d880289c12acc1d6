import numpy as np

from mc import unitmodel as um
from mc.engine import Families, product, histories, require
from mc.lib import close, require_close, require_refused, freeze
from fractions import Fraction as F

PROPERTY = 'C01'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every unit name: every ordered pair x 9 magnitudes, every ordered triple of names, '
             'all unit systems, precisions 0-3, default-table histories of length 3',
    'thorough': 'as quick, with every ordered chain of 4 distinct units per kind and default-table histories of length 4',
}
RULE = ('exhaustive product of unit names, kinds, magnitudes and systems against an exact rational table; '
        'a state is one (operation, units, magnitude) configuration, non-trivial when the units differ or a kind is requested')
ASSUMPTIONS = ['the published unit table in mc/unitmodel.py is right', 'results are compared to 1e-12 relative']

FAMILIES = Families()
VALUES = [0, 1, -1, 2.5, -0.1, 7, 1234.5678, 1e-9, 1e12]
KINDS = list(um.TABLE)


def api():
    from blmath import units
    return units


@FAMILIES.family(lambda tier: [(n,) for n in um.NAMES])
def definition(ctx, name):
    u = api()
    base = um.TABLE[um.KIND[name]][0][0][0]
    require(name in u.all_units, '%s is a supported unit', name)
    require(u.units_class(name) == um.KIND[name], '%s is a %s', name, um.KIND[name])
    require_close(u.factor(name, base), um.SIZE[name], 'size of one %s in %s', name, base, tol=1e-12, scale=float(um.SIZE[name]))
    require_close(u.raw(name), um.SIZE[name], 'raw factor of %s', name, tol=1e-12, scale=float(um.SIZE[name]))
    ctx.step(4)
    ctx.state('def', name)


@FAMILIES.family(lambda tier: [(0,)])
def catalogue(ctx, _):
    u = api()
    everything = set(u.all_units)
    require(set(um.NAMES) <= everything, 'missing units: %s', set(um.NAMES) - everything)
    classes = u.all_units_classes if not callable(u.all_units_classes) else u.all_units_classes()
    require(sorted(classes) == sorted(KINDS), 'kinds: %s', sorted(classes))
    listed = {'length': u.lengths, 'weight': u.weights, 'angle': u.angles, 'time': u.times,
              'time_rate': u.time_rates}
    seen = []
    for kind in KINDS:
        members = list(u.units_in_class(kind))
        require(len(members) == len(set(members)), 'duplicate units in %s', kind)
        require(set(members) == set(listed[kind]), 'list of %s disagrees', kind)
        require(set(members) >= {n for n in um.NAMES if um.KIND[n] == kind}, 'members of %s', kind)
        for m in members:
            require(u.units_class(m) == kind, 'class of %s', m)
        seen += members
        ctx.state('kind', kind)
        ctx.step(3)
    require(sorted(seen) == sorted(everything), 'kinds partition the units')
    for blank in (None, ''):
        require(u.units_class(blank) is None, 'no class for no units')


@FAMILIES.family(lambda tier: product(um.NAMES, um.NAMES))
def pair(ctx, a, b):
    u = api()
    if um.KIND[a] != um.KIND[b]:
        require_refused('factor %s -> %s' % (a, b), lambda: u.factor(a, b), ValueError)
        for v in VALUES[:3] + [None]:
            require_refused('convert %r %s -> %s' % (v, a, b), lambda: u.convert(v, a, b), ValueError)
        require_refused('convert_list', lambda: u.convert_list([1, 2], a, b), ValueError)
        require_refused('convert_list of nothing', lambda: u.convert_list([], a, b), ValueError)
        for kind in KINDS:
            require_refused('factor with kind', lambda: u.factor(a, b, units_class=kind), ValueError)
        ctx.step(11)
        ctx.state('refused', a, b)
        ctx.outcome('refused')
        return
    f = um.factor(a, b)
    got = u.factor(a, b)
    require(got > 0, 'factor must be positive')
    require_close(got, f, 'factor(%s, %s)', a, b, tol=1e-12, scale=float(f))
    if um.GROUP[a] == um.GROUP[b]:
        require(got == 1, '%s and %s are the same unit', a, b)
    for v in VALUES:
        exact = F(v) * f
        value, to = u.convert(v, a, b)
        require(to == b, 'convert must name the target units')
        require_close(value, exact, 'convert(%r, %s, %s)', v, a, b, tol=1e-12, scale=max(1e-30, abs(float(exact))))
        back, to = u.convert(value, b, a)
        require(to == a, 'units after the round trip')
        require_close(back, F(v), 'round trip of %r %s via %s', v, a, b, tol=1e-11, scale=max(1e-30, abs(v)))
        ctx.step(2)
        ctx.state('pair', a, b, v)
    require(u.convert(None, a, b) == (None, None), 'None converts to (None, None)')
    listed = u.convert_list(VALUES, a, b)
    require(len(listed) == len(VALUES), 'length of the converted list')
    for v, x in zip(VALUES, listed):
        require_close(x, F(v) * f, 'convert_list element %r', v, tol=1e-12, scale=max(1e-30, abs(float(F(v) * f))))
    require(list(u.convert_list([], a, b)) == [], 'the empty list stays empty')
    array, to = u.convert(np.array([1., -2., 0.5]), a, b)
    require_close(array, [f, -2 * f, f / 2], 'convert array', tol=1e-12, scale=float(2 * f))
    for kind in KINDS:
        if kind == um.KIND[a]:
            require_close(u.factor(a, b, units_class=kind), f, 'factor with its kind', tol=1e-12, scale=float(f))
            require_close(u.convert(3, a, b, units_class=kind)[0], 3 * f, 'convert with its kind', tol=1e-12, scale=float(3 * f))
        else:
            require_refused('%s -> %s as %s' % (a, b, kind), lambda: u.factor(a, b, units_class=kind), ValueError)
            require_refused('%s -> %s as %s' % (a, b, kind), lambda: u.convert(3, a, b, units_class=kind), ValueError)
            require_refused('None %s -> %s as %s' % (a, b, kind), lambda: u.convert(None, a, b, units_class=kind), ValueError)
        ctx.state('kind', a, b, kind)
        ctx.step(2)
    ctx.outcome('converted')


@FAMILIES.family(lambda tier: product([None, ''], [None, ''], VALUES + [None]))
def without_units(ctx, a, b, v):
    u = api()
    for kw in ({}, {'units_class': None}):
        require(u.factor(a, b, **kw) == 1, 'a number without units stays as it is')
        got = u.convert(v, a, b, **kw)
        require(got == ((None, None) if v is None else (v, b)), 'convert %r without units: %s', v, got)
    require(list(u.convert_list(VALUES, a, b)) == VALUES, 'a list without units')
    ctx.state('unitless', a, b, v)
    ctx.step(3)
    for name in um.NAMES + ['nonsense']:
        for call in (lambda: u.factor(a, name), lambda: u.factor(name, a), lambda: u.convert(v, a, name), lambda: u.convert(v, name, a),
                     lambda: u.convert_list(VALUES, a, name), lambda: u.convert_list(VALUES, name, a)):
            require_refused('between no units and %s' % name, call, KeyError, ValueError, TypeError)
            ctx.step()
    ctx.outcome('unitless')


@FAMILIES.family(lambda tier: product(['nonsense', 'CM', 'cm ', 'metres', 'length', '0'], um.NAMES + ['self', 'furlongs'], [2, 0, None]))
def unknown_units(ctx, bad, other, v):
    u = api()
    other = bad if other == 'self' else other
    for a, b in ((bad, other), (other, bad)):
        for what, call in (('factor', lambda: u.factor(a, b)), ('convert', lambda: u.convert(v, a, b)),
                           ('convert_list', lambda: u.convert_list([1, 2], a, b)), ('convert_list of nothing', lambda: u.convert_list([], a, b))):
            require_refused('%s %s -> %s' % (what, a, b), call, KeyError, ValueError)
            ctx.step()
        for kind in KINDS:
            require_refused('factor %s -> %s as %s' % (a, b, kind), lambda: u.factor(a, b, units_class=kind), KeyError, ValueError)
    for system in ('metric', 'united_states'):
        require_refused('default of %s' % bad, lambda: u.convert_to_system_default(v, bad, system), KeyError, ValueError)
    ctx.state('unknown', bad, other, v)
    ctx.outcome('unknown')


def triples(tier):
    for kind in KINDS:
        names = [n for n in um.NAMES if um.KIND[n] == kind]
        for t in product(names, names, names):
            yield (t,)
    if tier == 'thorough':
        for kind in KINDS:
            names = [rows[0][0] for rows in um.TABLE[kind]]
            for t in product(names, names, names, names):
                yield (t,)
            for t in product(names, names, names, names, names):
                yield (t,)


@FAMILIES.family(triples)
def chain(ctx, names):
    """Any chain of conversions is the direct conversion."""
    u = api()
    x = 7.25
    f = 1.0
    for a, b in zip(names, names[1:]):
        x, to = u.convert(x, a, b)
        require(to == b, 'units along the chain')
        f *= u.factor(a, b)
        ctx.step(2)
    direct = u.factor(names[0], names[-1])
    require_close(f, direct, 'product of factors along %s', names, tol=1e-12, scale=direct)
    require_close(x, 7.25 * direct, 'chain %s', names, tol=1e-12, scale=7.25 * direct)
    if names[0] == names[-1]:
        require_close(f, 1, 'a closed chain %s', names, tol=1e-12)
    ctx.state('chain', tuple(names))


@FAMILIES.family(lambda tier: product(um.NAMES + [None, ''], ['metric', 'united_states', None], VALUES + [None]))
def system_default(ctx, name, system, v):
    u = api()
    args = () if system is None else (system,)
    table = um.DEFAULTS[system or 'metric']
    defaults = u.default_units(*args)
    require(dict(defaults) == table, 'default units of %s: %s', system, defaults)
    if name in (None, ''):
        require(tuple(u.convert_to_system_default(v, name, *args)) == (v, name), 'a unitless number is unchanged')
        require(tuple(u.convert_to_default(v, name, table)) == (v, name), 'a unitless number is unchanged')
        ctx.step(2)
        ctx.outcome('unitless')
        return
    to = table[um.KIND[name]]
    for got in (u.convert_to_system_default(v, name, *args), u.convert_to_default(v, name, dict(table))):
        if v is None:
            require(tuple(got) == (None, None), 'None converts to (None, None)')
        else:
            exact = F(v) * um.factor(name, to)
            require(got[1] == to, 'default units: got %s', got[1])
            require_close(got[0], exact, '%r %s in %s', v, name, to, tol=1e-12, scale=max(1e-30, abs(float(exact))))
        ctx.step()
    ctx.state('default', name, system, v)


@FAMILIES.family(lambda tier: product(um.CANONICAL, um.CANONICAL))
def custom_default(ctx, name, target):
    """convert_to_default honours whatever unit the caller's table names."""
    u = api()
    table = dict(um.DEFAULTS['metric'])
    table[um.KIND[target]] = target
    before = dict(table)
    got = u.convert_to_default(12.5, name, table)
    to = before[um.KIND[name]]
    exact = F(12.5) * um.factor(name, to)
    require(got[1] == to, 'custom default units')
    require_close(got[0], exact, 'custom default', tol=1e-12, scale=float(exact))
    require(table == before, 'the caller\'s table was changed')
    ctx.step()
    ctx.state('custom', name, target)


@FAMILIES.family(lambda tier: product(um.NAMES + [None], [None, 0, 1, 2, 3],
                                      [0, 1, -1, 182.13992, 0.37, -12.345, 71.7, 999.96, 1e5 + 0.3, 3]))
def pretty(ctx, name, precision, v):
    u = api()
    got = u.prettify(v, name) if precision is None else u.prettify(v, name, precision=precision)
    require(len(got) == 4, 'prettify returns value, units, value, units')
    for (x, nearest, to), value, units in zip(um.pretty(v, name, precision), got[0::2], got[1::2]):
        require(units == to, 'pretty units %s', units)
        require(um.is_rounding(value, x, nearest), 'prettify(%r, %s, %r): %r is not %s rounded to %s',
                v, name, precision, value, float(x), float(nearest))
        ctx.step()
    ctx.state('pretty', name, precision, v)


@FAMILIES.family(lambda tier: product([0], histories(range(7), 4 if tier == 'thorough' else 3)))
def default_histories(ctx, _, ops):
    """Overriding a default, or editing a returned table, never leaks into a later call."""
    u = api()
    over = [{}, {'length': 'mm'}, {'weight': 'g', 'time': 'sec'}]
    for op in ops:
        system = 'metric' if op % 2 == 0 else 'united_states'
        exceptions = over[op % 3]
        given = dict(exceptions)
        got = u.default_units(system, given) if op < 5 else u.default_units(system)
        want = dict(um.DEFAULTS[system])
        if op < 5:
            want.update(exceptions)
        require(dict(got) == want, 'default_units history %s: %s', ops, dict(got))
        require(given == exceptions, 'the overrides were changed')
        got['length'] = 'cubits'
        got['bogus'] = 'x'
        to = u.convert_to_system_default(1, 'm', system)
        require(to[1] == um.DEFAULTS[system]['length'], 'system default after a history of overrides')
        ctx.step(2)
    ctx.state('history', tuple(ops))
