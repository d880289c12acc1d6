"""A call which is interrupted leaves nothing half done."""
import itertools

import numpy as np

from mc import faults
from mc.checks import c30_independence as calls
from mc.checks import c33_copies as objects
from mc.engine import Families, product, require

PROPERTY = 'C35'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'for each of about 240 calls covering all modules, an interruption at every line of blmath it executes, each from a cold process, then the '
             'same call and three others again; for 13 objects of 9 classes, every history of 2 changes of which the last is interrupted at every '
             'line, everything the object tells judged, then any further change; every question to each of the objects interrupted likewise',
    'thorough': 'the same with every call of the catalogue which has state in common asked afterwards; histories of 3 changes, and a second interruption',
}
ASSUMPTIONS = ['a call is interrupted (by an exception out of nowhere, such as that for a key press or for want of memory) before a line of blmath, not within '
               'numpy, scipy or chumpy, and not while it cleans up',
               'an answer is compared with the answer of the same call alone in a fresh process, numbers to 1e-9']
CHUNK = 1
FAMILIES = Families()
prepare = calls.prepare
PROBES = ['convert', 'value in', 'json value', 'composite', 'polyline closed', 'plane flipped']
PARTS = 6


@FAMILIES.family(lambda tier: product(calls.names(), range(PARTS), [tier != 'quick']))
def one_call(ctx, name, part, thorough):
    """From a cold process for the first time a line is executed, one after the other for the other times."""
    others = calls.GLOBAL if thorough else [p for p in PROBES if p != name][:2]
    for p in [name] + others:
        calls.alone(p)
    points = calls.in_child(lambda: interrupted(name, None, others))
    if part == 0:
        ctx.state(name)
        ctx.outcome('points', min(len(points), 20))
    seen, cold, warm = set(), [], []
    for at, line in enumerate(points):
        (warm if line in seen and not thorough else cold).append(at)
        seen.add(line)
    for at in cold[part::PARTS]:
        calls.in_child(lambda: interrupted(name, at, others) and None)
        ctx.step()

    def rest():
        for at in warm[part::PARTS]:
            interrupted(name, at, others[:1])
    calls.in_child(rest)
    ctx.step(len(warm[part::PARTS]))


def interrupted(name, at, others):
    fn, args, kwargs = calls.CATALOGUE[name]
    mine = [calls.fresh(a) for a in args]
    theirs = {k: calls.fresh(v) for k, v in kwargs.items()}
    np.seterr(all=calls.ERRORS[0])
    before, around = calls.look_all(mine, theirs), calls.world()
    points, answer = faults.run(lambda: fn(*mine, **theirs), at)
    if at is None:
        return points
    what = '%s interrupted %s' % (name, answer if isinstance(answer, faults.Interrupted) else 'at point %d' % at)
    require(calls.look_all(mine, theirs) == before, '%s: an argument was changed', what)
    require(calls.world() == around, '%s: the state of numpy or of the process was changed', what)
    for again in [name] + others:
        picture, want = calls.perform(again)[1], calls.alone(again)
        require(calls.alike(picture, want), '%s: then %s answers %s instead of %s', what, again, calls.brief(picture), calls.brief(want))
    return points


def gen(tier):
    depth = 2 if tier == 'quick' else 3
    for kind in objects.kinds():
        alphabet = range(len(objects.object_of(kind)[2]))
        for n in range(depth):
            for ops in itertools.product(alphabet, repeat=n + 1):
                yield (kind, ops, tier != 'quick')


@FAMILIES.family(gen)
def one_object(ctx, kind, ops, thorough):
    make, reads, alphabet = objects.object_of(kind)
    ops = tuple(ops)
    names = [alphabet[o][0] for o in ops]
    at = 0
    while True:
        x = make()
        for o in ops[:-1]:
            objects.change(x, alphabet[o])
        points, answer = faults.run(lambda: alphabet[ops[-1]][1](x), at)
        if not isinstance(answer, faults.Interrupted):
            break
        got = objects.ask(x, reads)
        ctx.step(len(reads))
        sides = [done for done in (ops[:-1], ops) if told(got, objects.reference(kind, done)[0])]
        require(sides, '%s: %s, the last one interrupted %s: neither as before nor as after: %s', kind, names, answer, difference(got, kind, ops))
        for o in range(len(alphabet)):
            y = make()
            for p in ops[:-1]:
                objects.change(y, alphabet[p])
            for _ in range(1 + thorough):
                faults.run(lambda: alphabet[ops[-1]][1](y), at)
            objects.change(y, alphabet[o])
            got = objects.ask(y, reads)
            # an interrupted change which shows only after the next one
            possible = sides + [ops + ops[-1:]] * thorough
            require(any(told(got, objects.reference(kind, done + (o,))[0]) for done in possible),
                    '%s: %s, the last one interrupted %s, then %s: %s', kind, names, answer, alphabet[o][0], difference(got, kind, sides[-1] + (o,)))
            ctx.step(len(reads))
        at += 1
    ctx.step()
    ctx.state(kind, ops)
    ctx.outcome(kind, min(at, 6))


@FAMILIES.family(lambda tier: ((kind, read, tier != 'quick') for kind in objects.kinds() for read in sorted(objects.object_of(kind)[1])))
def one_question(ctx, kind, read, thorough):
    """An object which is asked something and interrupted is as it was."""
    make, reads, alphabet = objects.object_of(kind)
    at = 0
    while True:
        x = make()
        _, answer = faults.run(lambda: reads[read](x), at)
        if not isinstance(answer, faults.Interrupted):
            break
        for o in [None] + list(range(len(alphabet))) * thorough:
            if o is not None:
                x = make()
                faults.run(lambda: reads[read](x), at)
                objects.change(x, alphabet[o])
            done = () if o is None else (o,)
            got = objects.ask(x, reads)
            require(told(got, objects.reference(kind, done)[0]), '%s: asked for %s and interrupted %s: %s', kind, read, answer,
                    difference(got, kind, done))
            ctx.step(len(reads))
        at += 1
    ctx.step()
    ctx.state(kind, 'asked', read)
    ctx.outcome(kind, min(at, 6))


def told(got, want):
    return all(calls.alike(g, w) for (_, g), (_, w) in zip(got, want))


def difference(got, kind, ops):
    for (name, g), (_, w), (_, v) in zip(got, objects.reference(kind, ops)[0], objects.reference(kind, ops[:-1])[0]):
        if not calls.alike(g, w):
            return '%s is %s; before %s, after %s' % (name, calls.brief(g), calls.brief(v), calls.brief(w))
