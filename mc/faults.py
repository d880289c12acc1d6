"""
A controlled fault injector.

Every line the code under test executes is a point at which a call may be
interrupted (sys.settrace): `points` counts them, `interrupted` runs the call
again and raises Interrupted at the chosen one.  The same point is always the
same state of the call.

Not points: the headers of `with` and `try` statements (the interpreter itself
runs the end of a `with` block under its first line, and the line before a
`try` belongs with it), and what runs to clean up (handlers, `finally`).
"""
import ast
import sys

from mc import env


class Interrupted(KeyboardInterrupt):
    pass


NOT_POINTS = {}


def not_points(path):
    if path not in NOT_POINTS:
        lines = set()
        with open(path) as f:
            tree = ast.parse(f.read())
        for node in ast.walk(tree):
            if isinstance(node, ast.With):
                lines.update(range(node.lineno, node.body[0].lineno))
            elif isinstance(node, ast.Try):
                lines.update(range(node.lineno, node.body[0].lineno))
                for part in node.handlers + node.finalbody:
                    lines.update(range(part.lineno, part.end_lineno + 1))
        NOT_POINTS[path] = lines
    return NOT_POINTS[path]


def run(fn, at):
    """(the lines of the points passed, answer or exception) of fn, interrupted at point `at` (from 0; None: never)."""
    prefix = env.REPO + '/blmath/'
    passed = []

    def enter(frame, event, arg):
        path = frame.f_code.co_filename
        if not path.startswith(prefix) or frame.f_code.co_name == '<module>':
            return None
        skip = not_points(path)

        def local(frame, event, arg):
            if event == 'line' and frame.f_lineno not in skip:
                passed.append((path[len(prefix):], frame.f_lineno))
                if at is not None and len(passed) > at:
                    raise Interrupted('at line %d of %s' % (frame.f_lineno, path[len(prefix):]))
            return local
        return local

    sys.settrace(enter)
    try:
        answer = fn()
    except (Exception, Interrupted) as e:
        answer = e
    finally:
        sys.settrace(None)
    return passed, answer
