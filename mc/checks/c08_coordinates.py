import itertools

import numpy as np

from mc import env
from mc.engine import Families, require
from mc.lib import require_close, require_refused
from mc.checks import c06_composite as c06

PROPERTY = 'C08'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every history of 4 operations out of 15 (name the state a/b/c, 6 transformations, 2 kinds of refused ones, hand over points at a/b, '
             'a mesh at a/b), every tag and every pair of tags read after the last or after each operation; '
             'every history of 5 more operations out of 5 in which names are given again',
    'thorough': 'every history of 5 operations out of the same 15',
}
ASSUMPTIONS = ['a mesh is any object with a v attribute; stand-ins with and without copy() are used',
               'a name given again means the newer state, also for points handed over earlier']
FAMILIES = Families()


def prepare(scratch):
    env.with_chumpy()


class Mesh(object):
    def __init__(self, v, f=None):
        self.v = v
        self.f = f


class CopyingMesh(Mesh):
    def copy(self):
        new = CopyingMesh(None if self.v is None else self.v.copy(), self.f)
        new.copied = True
        return new


NAMES = {s[0]: i for i, s in enumerate(c06.STEPS)}
TRANSFORMS = [NAMES[n] for n in ('scale 2', 'translate', 'rotate vector', 'matrix3 pair', 'matrix4', 'units', 'bad factors', 'bad matrices')]
V = np.array([[1., 2., 3.], [0., 0., 0.], [-4., .5, 8.]])
W = np.array([[2., -2., 1.]])
OPS = ([('tag', x) for x in 'abc'] + [('step', s) for s in TRANSFORMS]
       + [('set', 'a'), ('set', 'b'), ('mesh', 'a'), ('mesh', 'b')])


def gen(tier):
    depth = 4 if tier == 'quick' else 5
    return ((mode,) + ops for mode in (0, 1) for ops in itertools.product(range(len(OPS)), repeat=depth))


@FAMILIES.family(gen)
def history(ctx, mode, *ops):
    from blmath.geometry.transform.coordinate_manager import CoordinateManager
    cm = CoordinateManager()
    model = {'stack': [], 'tags': {}, 'at': None, 'value': None}
    for i, op in enumerate(ops):
        what = [OPS[o] for o in ops[:i + 1]]
        kind, arg = OPS[op]
        ctx.step()
        if kind == 'tag':
            cm.tag_as(arg)
            model['tags'][arg] = len(model['stack'])
        elif kind == 'step':
            name, call, forward, _, _ = c06.STEPS[arg]
            if forward is None:
                for each in call:
                    require_refused('%s' % what, lambda: each(cm))
            else:
                call(cm)
                model['stack'].append(arg)
        else:
            value = hand_over(kind, arg, i)
            if arg not in model['tags']:
                require_refused('%s' % what, lambda: setattr(cm, arg, value), AttributeError)
                ctx.outcome('set refused')
            else:
                setattr(cm, arg, value)
                model['at'], model['value'] = arg, value
        if mode or i + 1 == len(ops):
            read_all(ctx, cm, model, what)
    read_all(ctx, cm, model, ops, pairs=True)
    ctx.state(tuple(model['stack']), tuple(sorted(model['tags'].items())), model['at'], type(model['value']).__name__)


def hand_over(kind, arg, i):
    if kind == 'set':
        return V.copy() if arg == 'a' else W.copy()
    if arg == 'a':
        return Mesh(V.copy(), 'faces') if i % 2 else CopyingMesh(W.copy(), 'faces')
    return Mesh(W.copy(), 'faces') if i % 2 else CopyingMesh(V.copy(), 'faces')


def expected(model, points, frm, to):
    i, j = model['tags'][frm], model['tags'][to]
    if i <= j:
        m = c06.product_of(model['stack'], i, j, False)
    else:
        m = c06.product_of(model['stack'], j, i, True)
    return c06.image(m, points)


def judge_value(got, given, want, what):
    if hasattr(given, 'v'):
        require(got is not given, '%s: the mesh handed over itself came back', what)
        require(type(got) is type(given) and got.f == given.f, '%s: not a copy of the mesh: %r', what, got)
        require(hasattr(got, 'copied') == isinstance(given, CopyingMesh), '%s: a mesh with copy() is copied with it', what)
        got = got.v
    require_close(got, want, '%s', what)


def read_all(ctx, cm, model, ops, pairs=False):
    for name in ('a', 'b', 'c', 'nowhere'):
        what = 'read %s after %s' % (name, ops)
        ctx.step()
        if model['at'] is None:
            require_refused(what, lambda: getattr(cm, name), ValueError)
            ctx.outcome('nothing handed over')
        elif name not in model['tags']:
            require_refused(what, lambda: getattr(cm, name), KeyError)
            ctx.outcome('unknown tag')
        else:
            given = model['value']
            points = given.v if hasattr(given, 'v') else given
            before = points.copy()
            got = getattr(cm, name)
            judge_value(got, given, expected(model, points, model['at'], name), what)
            require(np.array_equal(points, before), '%s: the points handed over were changed', what)
            ctx.outcome('read', hasattr(given, 'v'))
    if not pairs:
        return
    for frm, to in itertools.product('abc', repeat=2):
        ctx.step()
        what = 'from %s to %s after %s' % (frm, to, ops)
        if frm in model['tags'] and to in model['tags']:
            for points in (V, W):
                before = points.copy()
                require_close(cm.do_transform(points, frm, to), expected(model, points, frm, to), '%s', what)
                require(np.array_equal(points, before), '%s: the points given were changed', what)
            for mesh in (Mesh(V.copy(), 'x'), CopyingMesh(V.copy(), 'x')):
                judge_value(cm.do_transform(mesh, from_tag=frm, to_tag=to), mesh, expected(model, V, frm, to), what)
                require(np.array_equal(mesh.v, V), '%s: the mesh given was changed', what)
            empty = cm.do_transform(Mesh(None, 'x'), frm, to)
            require(empty.v is None and empty.f == 'x', '%s: a mesh without vertices', what)
        else:
            require_refused(what, lambda: cm.do_transform(V, frm, to), KeyError)


RETAG = [('tag', 'a'), ('tag', 'b'), ('step', NAMES['translate']), ('step', NAMES['scale 2']), ('set', 'b')]


@FAMILIES.family(lambda tier: itertools.product((0, 1), *([range(len(RETAG))] * (5 if tier == 'quick' else 7))))
def named_again(ctx, mode, *ops):
    """Names given again and again, the frames read (or not) in between."""
    from blmath.geometry.transform.coordinate_manager import CoordinateManager
    cm = CoordinateManager()
    model = {'stack': [], 'tags': {}, 'at': None, 'value': None}
    done = []
    for op in [0, 2, 1, 4] + list(ops):
        kind, arg = RETAG[op]
        done.append(RETAG[op])
        if kind == 'tag':
            cm.tag_as(arg)
            model['tags'][arg] = len(model['stack'])
        elif kind == 'step':
            c06.STEPS[arg][1](cm)
            model['stack'].append(arg)
        else:
            cm.b = W.copy()
            model['at'], model['value'] = 'b', W.copy()
        if mode and len(done) >= 4:
            for name in 'ab':
                require_close(getattr(cm, name), expected(model, model['value'], model['at'], name), 'read %s after %s', name, done)
                ctx.step()
    read_all(ctx, cm, model, done, pairs=True)
    ctx.state('again', tuple(done))


def long_gen(tier):
    n = 12 if tier == 'quick' else 30
    return [(length, first) for length in range(1, n + 1) for first in range(4)]


@FAMILIES.family(long_gen)
def many_tags(ctx, length, first):
    """A tag before every step of a long stack; points go from every tag to every tag."""
    from blmath.geometry.transform.coordinate_manager import CoordinateManager
    cm = CoordinateManager()
    other = CoordinateManager()
    names = ['t%d' % i for i in range(length + 1)]
    steps = [NAMES[n] for n in ('translate', 'rotate vector', 'scale 2', 'rotate matrix', 'scale .25', 'units none')]
    model = {'stack': [], 'tags': {}}
    for i, name in enumerate(names):
        cm.tag_as(name)
        model['tags'][name] = len(model['stack'])
        if i < length:
            s = steps[(first + i) % len(steps)]
            c06.STEPS[s][1](cm)
            c06.STEPS[steps[(first + 2 * i) % len(steps)]][1](other)
            model['stack'].append(s)
    for frm in names:
        setattr(cm, frm, V)
        for to in names:
            got = getattr(cm, to)
            require_close(got, expected(model, V, frm, to), 'from %s to %s', frm, to)
            back = cm.do_transform(got, to, frm)
            require_close(back, V.tolist(), 'from %s to %s and back', frm, to)
            ctx.step(2)
    ctx.state('many', length, first)
