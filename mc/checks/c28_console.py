import io
import itertools
import sys

from mc.engine import Families, product, require
from mc.lib import require_close

PROPERTY = 'C28'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every session of up to 4 lines out of 12 (valid, padded, exponent, zero, negative, empty, blank, three kinds of nonsense, thousands '
             'separator, hexadecimal), with and without an end of input, for floats and for values in 3 units, empty input allowed or not; 5-39 wrong answers before the right one',
    'thorough': 'sessions of up to 5 lines out of 14, 6 units',
}
ASSUMPTIONS = ['the session goes through standard input and output']
FAMILIES = Families()

LINES = ['1', ' 2.5\t', '-1e3', '0', '', '   ', 'abc', '1 2', '1,5', '0x10', '3kg', '-', '1e-3', '.5']


def number(line):
    try:
        return float(line.strip())
    except ValueError:
        return None


def sessions(tier):
    lines = LINES[:12] if tier == 'quick' else LINES
    for n in range(0, 5 if tier == 'quick' else 6):
        # an answer only matters once, as the last line: what comes before is refused
        for s in itertools.product(lines, repeat=n):
            if not any(number(x) is not None for x in s[:-1]):
                yield list(s)


def converse(lines, call):
    """(result or exception, lines consumed, what was shown)"""
    stdin, stdout = sys.stdin, sys.stdout
    sys.stdin, sys.stdout = io.StringIO(''.join(x + '\n' for x in lines)), io.StringIO()
    try:
        try:
            got = call()
        except EOFError:
            got = EOFError
        rest = sys.stdin.read()
        return got, len(lines) - rest.count('\n'), sys.stdout.getvalue()
    finally:
        sys.stdin, sys.stdout = stdin, stdout


def expected(lines, allow_empty):
    for i, line in enumerate(lines):
        if not line.strip():
            if allow_empty:
                return None, i + 1
            continue
        if number(line) is not None:
            return number(line), i + 1
    return (None if allow_empty else EOFError), len(lines)


UNITS = ['cm', 'kg', 'deg', 'm', 'in', 'min']


def patient(tier):
    for n in range(5, 40 if tier == 'quick' else 200):
        for bad in ('abc', '1,5', '0x10', ' ', '--', ''):
            for last in ('7.5', '', None):
                yield ([bad] * n + ([] if last is None else [last]), 1)
        yield ([LINES[6 + i % 4] for i in range(n)] + ['-2', '3'], 2)


@FAMILIES.family(patient)
def many_wrong_answers(ctx, lines, units):
    session(ctx, lines, units)


@FAMILIES.family(lambda tier: product(sessions(tier), [3 if tier == 'quick' else 6]))
def session(ctx, lines, units):
    from blmath import console
    from blmath.value import Value
    for allow_empty in (False, True):
        want, used = expected(lines, allow_empty)
        calls = [lambda: console.input_float('Height: ', allow_empty=allow_empty), lambda: console.input_float('Height', allow_empty)]
        if not allow_empty:
            calls.append(lambda: console.input_float('Height'))
        for call in calls:
            got, consumed, shown = converse(lines, call)
            what = 'answers %s (%s)' % (lines, 'may be empty' if allow_empty else 'not empty')
            require(consumed == used, '%s: %d lines were read, expected %d', what, consumed, used)
            require('Height' in shown, '%s: the prompt was not shown', what)
            if want is EOFError or want is None:
                require(got is want, '%s: got %r', what, got)
            else:
                require(isinstance(got, float) and got == want, '%s: got %r', what, got)
            ctx.step()
        for unit in UNITS[:units]:
            calls = [lambda: console.input_value('Height', unit, allow_empty=allow_empty), lambda: console.input_value('Height', unit, allow_empty)]
            if not allow_empty:
                calls.append(lambda: console.input_value('Height', unit))
            for call in calls:
                got, consumed, shown = converse(lines, call)
                require(consumed == used, '%s: %d lines were read, expected %d', what, consumed, used)
                require('Height' in shown and unit in shown, '%s: the prompt does not show label and units: %r', what, shown)
                if want is EOFError or want is None:
                    require(got is want, '%s: got %r', what, got)
                else:
                    require(isinstance(got, Value), '%s: got %r', what, got)
                    require_close(got.value, want, '%s: number', what)
                    require(got.units == unit, '%s: units %r', what, got.units)
                ctx.step()
        ctx.state(tuple(lines), allow_empty)
        ctx.outcome('eof' if want is EOFError else 'none' if want is None else 'number', allow_empty, min(used, 2))
