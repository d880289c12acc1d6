from fractions import Fraction as F

from mc import unitmodel as um
from mc.engine import Families, product, require
from mc.lib import require_close, require_refused

PROPERTY = 'C03'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every history of 3 operations (then 5 reads) over 23 (assign value, assign units, read, failed assignment), 3 starting quantities',
    'thorough': 'every history of 4 operations (then 5 reads) over the same menu, 3 starting quantities',
}
ASSUMPTIONS = ['units assigned are recognised units or None']
FAMILIES = Families()

OPS = [
    ('value', 2), ('value', -3.5), ('value', 0),
    ('units', 'in'), ('units', 'cm'), ('units', 'kg'), ('units', None),
    ('bad', 'none'), ('bad', 'text'),
    ('read', 'pretty'), ('read', 'convert m'), ('read', 'attr mm'), ('read', 'attr lb'),
    ('read', 'bool'), ('read', 'json'), ('read', 'text'), ('read', 'system'),
    ('read', 'compare'), ('read', 'index'), ('read', 'arith'), ('read', 'round'),
    ('derive', 'in'), ('derive', 'json'),
]
STARTS = [(1, 'cm'), (72.25, 'lb'), (5, None)]


def gen(tier):
    k = 1 if tier == 'quick' else 2
    for start in range(len(STARTS)):
        for prefix in product(*[range(len(OPS))] * k):
            yield (start, prefix)


@FAMILIES.family(gen)
def history(ctx, start, prefix):
    """Replays the prefix on a fresh quantity, then explores two more operations."""
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            replay(ctx, STARTS[start], [OPS[i] for i in list(prefix) + [a, b]])


def replay(ctx, start, ops):
    from blmath.value import Value
    v = Value(*start)
    m, u = F(start[0]), start[1]
    derived = []
    for i, (op, arg) in enumerate(ops):
        where = ops[:i + 1]
        if op == 'value':
            v.value = arg
            m = F(arg)
        elif op == 'units':
            v.units = arg
            u = arg
        elif op == 'bad':
            require_refused('history %s' % where, lambda: setattr(v, 'value', None if arg == 'none' else 'abc'),
                            ValueError, TypeError)
        elif op == 'derive':
            if arg == 'json':
                w = Value.from_json(v.for_json())
                derived.append((w, float(m), u))
            elif u is not None and um.KIND[u] == 'length' and u != arg:
                derived.append((v.convert(arg), float(m * um.factor(u, arg)), arg))
        else:
            read(v, m, u, arg, where)
        require(v.value == float(m) and v.units == u, 'history %s: holds %r %r, expected %r %r',
                where, v.value, v.units, float(m), u)
        ctx.step()
        ctx.state(float(m), u)
    for what in ('pretty', 'convert m', 'bool', 'json', 'compare'):
        read(v, m, u, what, ops + [('read', what)])
    for w, x, units in derived:
        require(w.units == units, 'history %s: a derived quantity changed', ops)
        require_close(w.value, x, 'history %s: a derived quantity changed', ops)


def read(v, m, u, what, where):
    from blmath.value import Value
    if what == 'pretty':
        got = v.prettified
        for (x, nearest, to), value, units in zip(um.pretty(m, u), got[0::2], got[1::2]):
            require(units == to and um.is_rounding(value, x, nearest),
                    'history %s: prettified %s, expected %s %s', where, got, float(x), to)
    elif what == 'convert m':
        if u is not None and um.KIND[u] == 'length':
            w = v.convert('m')
            require(w.units == 'm', 'history %s: units %s', where, w.units)
            require_close(w.value, m * um.SIZE[u], 'history %s', where, tol=1e-12)
        else:
            require_refused('history %s' % where, lambda: v.convert('m'), ValueError)
    elif what.startswith('attr'):
        to = what[5:]
        if u is not None and um.KIND[u] == um.KIND[to]:
            w = getattr(v, to)
            require(w.units == to, 'history %s: units %s', where, w.units)
            require_close(w.value, m * um.factor(u, to), 'history %s', where, tol=1e-12, scale=max(1., abs(float(m * um.factor(u, to)))))
        else:
            require_refused('history %s' % where, lambda: getattr(v, to), ValueError)
    elif what == 'bool':
        require(bool(v) == (m != 0), 'history %s: truth', where)
        require(float(v) == float(m) and int(v) == int(m), 'history %s: float/int', where)
    elif what == 'json':
        require(v.for_json() == {'__value__': {'value': float(m), 'units': u}}, 'history %s: %s', where, v.for_json())
    elif what == 'text':
        for text in (str(v), repr(v)):
            require('%f' % float(m) in text and str(u) in text, 'history %s: %s', where, text)
    elif what == 'system':
        if u is not None:
            for system in ('metric', 'united_states'):
                to = um.DEFAULTS[system][um.KIND[u]]
                w = v.convert_to_system_default(system)
                require(w.units == to, 'history %s: units %s', where, w.units)
                require_close(w.value, m * um.factor(u, to), 'history %s', where, tol=1e-12)
    elif what == 'compare':
        require(v == Value(float(m), u) and not v != Value(float(m), u), 'history %s: equality', where)
        require(v < Value(float(m) + 1, u) and v > Value(float(m) - 1, u), 'history %s: order', where)
    elif what == 'index':
        require(v[0] == float(m) and v[1] == u, 'history %s: indexing', where)
    elif what == 'arith':
        w = (v * 2 - v) + 1
        require(w.units == u, 'history %s: units', where)
        require_close(w.value, m + 1, 'history %s', where)
    elif what == 'round':
        w = v.round(0.5)
        require(w.units == u and um.is_rounding(w.value, m, F(1, 2)), 'history %s: round %r', where, w)
