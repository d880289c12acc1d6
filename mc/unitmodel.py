"""The unit system as published, in exact arithmetic, independent of the code."""
import math
from fractions import Fraction as F

PI = F(math.pi)

# kind -> base unit, and every name with its size in base units
TABLE = {
    'length': [
        (('m', 'meter', 'meters'), F(1)),
        (('mm', 'millimeter', 'millimeters'), F(1, 1000)),
        (('cm', 'centimeter', 'centimeters'), F(1, 100)),
        (('in', 'inch', 'inches'), F(254, 10000)),
        (('ft', 'foot', 'feet'), 12 * F(254, 10000)),
        (('fathoms',), 72 * F(254, 10000)),
        (('cubits',), 18 * F(254, 10000)),
    ],
    'weight': [
        (('kg', 'kilograms'), F(1)),
        (('g', 'grams'), F(1, 1000)),
        (('lbs', 'pounds', 'lb'), 1 / F(220462, 100000)),
        (('stone',), 1 / F(157473, 1000000)),
    ],
    'angle': [
        (('deg', 'degrees'), F(1)),
        (('rad', 'radians'), 180 / PI),
    ],
    'time': [
        (('sec', 'second', 'seconds'), F(1)),
        (('min', 'minute', 'minutes'), F(60)),
        (('hr', 'hour', 'hours'), F(3600)),
        (('day', 'days'), F(86400)),
        (('yr', 'year', 'years'), F(86400) * F(365242, 1000)),
    ],
    'time_rate': [(('hours_per_week',), F(1))],
}

KIND, SIZE, GROUP = {}, {}, {}
for _kind, _rows in TABLE.items():
    for _names, _size in _rows:
        for _n in _names:
            KIND[_n], SIZE[_n], GROUP[_n] = _kind, _size, _names[0]
NAMES = list(KIND)
CANONICAL = [names[0] for rows in TABLE.values() for names, _ in rows]

DEFAULTS = {
    'metric': {'length': 'cm', 'weight': 'kg', 'angle': 'deg', 'time': 'yr',
               'time_rate': 'hours_per_week'},
    'united_states': {'length': 'in', 'weight': 'lb', 'angle': 'deg', 'time': 'yr',
                      'time_rate': 'hours_per_week'},
}

NEAREST = {'cm': F(1, 2), 'in': F(1, 4), 'kg': F(1, 2), 'lb': F(1), 'yr': F(1)}


def factor(a, b):
    return SIZE[a] / SIZE[b]


def pretty(value, units, precision=None):
    """[(exact value before rounding, increment, units), ...] for both systems."""
    out = []
    for system in ('metric', 'united_states'):
        if units in KIND:
            to = DEFAULTS[system][KIND[units]]
            x = F(value) * factor(units, to)
        else:
            to, x = units, F(value)
        nearest = NEAREST.get(to, F(1, 10)) if precision is None else F(1, 10 ** precision)
        out.append((x, nearest, to))
    return out


def is_rounding(result, x, nearest):
    """Is the float `result` the multiple of `nearest` closest to exact `x`?
    Where x is within floating-point noise of a tie both neighbours are right.
    Where the increment is 1/n the answer must be the float closest to k/n."""
    q = x / nearest
    noise = F(1, 10 ** 9) * max(1, abs(q))
    lo = q.numerator // q.denominator
    ks = [k for k in (lo, lo + 1) if abs(q - k) <= F(1, 2) + noise]
    for k in ks:
        want = k * nearest
        if (1 / nearest).denominator == 1:
            if result == float(want):
                return True
        elif abs(result - float(want)) <= 1e-12 * max(1.0, abs(float(want))):
            return True
    return False
