"""Calls made at the same time from two threads answer as they do alone, whatever the
interleaving; objects which are only read may be shared; and no answer depends on the
error settings numpy has for the process or the thread."""
import numpy as np

from mc import env, threads
from mc.checks import c30_independence as calls
from mc.engine import Families, product, require

PROPERTY = 'C32'
LEVEL = 'model_checking'
QUICK_PAIRS, THOROUGH_PAIRS, PARTS = 600, 20000, 16
BOUNDS = {
    'quick': 'two real threads under a controlled scheduler, a scheduling point before every line of blmath: for each of about 240 calls against the '
             'same call with other arguments every schedule of one preemption, each from a cold process, and every schedule of two preemptions '
             'where the two have at most %d pairs of points; each call against the three next ones of the catalogue and, for 8 kinds of objects, '
             'every pair of readers of one object, one preemption; every call under two other error settings' % QUICK_PAIRS,
    'thorough': 'the same with two preemptions up to %d pairs of points, two preemptions for readers of one object, and scheduling points before '
                'every byte code for one preemption' % THOROUGH_PAIRS,
}
ASSUMPTIONS = ['a thread is only preempted in code of blmath; numpy, scipy and chumpy are taken to work between two points',
               'objects are shared for reading only; chumpy objects are not shared at all',
               'an answer is compared with the answer of the same call alone, numbers to 1e-9']
CHUNK = 4
FAMILIES = Families()


def prepare(scratch):
    calls.prepare(scratch)


def names():
    return calls.names()


def vary(x):
    """Another argument of the same kind."""
    import scipy.sparse as sp
    if isinstance(x, float) or sp.issparse(x):
        return 2 * x
    if isinstance(x, np.ndarray) and x.dtype.kind == 'f':
        return x * np.resize([2.0, 1.5, 3.0, 1.25], x.shape) + np.resize([0.125, 0.0, -0.25, 0.5, 0.375], x.shape)
    if type(x).__name__ == 'Polyline':
        return type(x)(x.v * [2.0, 1.5, 3.0], closed=x.closed)
    return x


def job(name, varied=False):
    fn, args, kwargs = calls.CATALOGUE[name]

    def run():
        mine = [calls.fresh(vary(a) if varied else a) for a in args]
        try:
            return calls.image(fn(*mine, **{k: calls.fresh(v) for k, v in kwargs.items()}))
        except Exception as e:
            return calls.image(e)
    return run


ALONE = {}


def alone(name, varied):
    if (name, varied) not in ALONE:
        ALONE[name, varied] = calls.in_child(job(name, varied))
    return ALONE[name, varied]


def lengths(jobs, opcodes=False):
    """The points of each job, run alone in a process where it has run before."""
    def count():
        for j in jobs:
            j()
        return [threads.points(j, opcodes) for j in jobs]
    return calls.in_child(count)


def judge(jobs, wanted, schedule, what, opcodes=False):
    around = calls.world()
    run = threads.Run(jobs, schedule, opcodes)
    answers = run.go()
    for k in (0, 1):
        require(calls.alike(answers[k], wanted[k]), '%s, switching after %s points: thread %d answers %s instead of %s',
                what, list(schedule), k, calls.brief(answers[k]), calls.brief(wanted[k]))
    require(calls.world() == around, '%s, switching after %s points: the state of numpy or of the process was changed', what, list(schedule))


def explore(ctx, jobs, wanted, schedules, what, opcodes=False):
    """All these schedules, one after another in one process."""
    def run():
        k = 0
        for s in schedules:
            judge(jobs, wanted, s, what, opcodes)
            k += 1
        return k
    ctx.step(calls.in_child(run))


# Every switch of two calls, each in a process which has run neither before.
@FAMILIES.family(lambda tier: product(names()))
def one_preemption(ctx, name):
    jobs = [job(name), job(name, True)]
    wanted = [alone(name, False), alone(name, True)]
    n, m = lengths(jobs)
    # a first call may take more lines than a later one (imports, tables)
    for s in [()] + [(i,) for i in range(n + 25)]:
        calls.in_child(lambda s=s: judge(jobs, wanted, s, name))
        ctx.step()
        ctx.state(name, s)
    ctx.outcome('points', n // 50)


@FAMILIES.family(lambda tier: product(names(), [1, 2, 3]))
def neighbours(ctx, name, distance):
    order = names()
    other = order[(order.index(name) + distance) % len(order)]
    jobs = [job(name), job(other)]
    n, m = lengths(jobs)
    explore(ctx, jobs, [alone(name, False), alone(other, False)], threads.schedules(n, m, 1), '%s and %s' % (name, other))
    ctx.state(name, other)


@FAMILIES.family(lambda tier: product(names(), range(PARTS if tier == 'thorough' else 1), [PARTS if tier == 'thorough' else 1]))
def two_preemptions(ctx, name, part, parts):
    jobs = [job(name), job(name, True)]
    n, m = lengths(jobs)
    limit = QUICK_PAIRS if parts == 1 else THOROUGH_PAIRS
    picked = [s for k, s in enumerate(threads.schedules(n, m, 2, limit)) if k % parts == part]
    explore(ctx, jobs, [alone(name, False), alone(name, True)], picked, name)
    ctx.state(name, part)
    ctx.outcome('two preemptions', n * m <= limit)


# -- one object, read by both --------------------------------------------------------

A = lambda *x: np.array(x, dtype=float)
P = A((0, 0, 0), (1, 0, 0), (1, 2, 0), (0, 2, 1), (-1, 1, 3))


def readers():
    import scipy.sparse as sp
    from blmath.geometry import Box, Plane, Polyline
    from blmath.geometry.transform import CompositeTransform, CoordinateManager
    from blmath.numerics.linalg.static_block_sparse_matrix import StaticBlockSparseMatrix
    from blmath.units import Units
    from blmath.value import Value
    spd = A((4, 1, 0), (1, 5, 2), (0, 2, 6))
    tet = calls.Mesh(A((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]]))

    def chain(cls):
        def make():
            t = cls()
            for tag, step in (('a', lambda: t.translate(A(1, 2, 3))), ('b', lambda: t.scale(2)), ('c', lambda: t.rotate(A(0.1, 0.2, 0.3))), ('d', None)):
                if cls is CoordinateManager:
                    t.tag_as(tag)
                if step:
                    step()
            return t
        return make

    def assigned():
        t = chain(CoordinateManager)()
        t.b = P
        return t
    polyline = {
        'length': lambda x: x.total_length, 'e': lambda x: x.e, 'segments': lambda x: x.segments, 'lengths': lambda x: x.segment_lengths,
        'vectors': lambda x: x.segment_vectors, 'dict': lambda x: x.to_dict(), 'apex': lambda x: x.apex(A(0, 0, 1)),
        'other apex': lambda x: x.apex(A(1, 0, 0)), 'copy': lambda x: x.copy(), 'repr': repr,
        'plane': lambda x: x.intersect_plane(Plane(A(0, 0, 0.5), A(0, 0, 1))),
        'other plane': lambda x: x.intersect_plane(Plane(A(0, 0.3, 0), A(0, 1, 0)), ret_edge_indices=True),
        'cut': lambda x: x.cut_by_plane(Plane(A(0, 0, 0.5), A(0, 0, 1))), 'cut back': lambda x: x.cut_by_plane(Plane(A(0, 0, 0.5), A(0, 0, -1)))}
    return {
        'plane': (lambda: Plane(A(0, 0, 0.25), A(0, 0, 2)), {
            'equation': lambda x: x.equation, 'canonical': lambda x: x.canonical_point, 'normal': lambda x: [x.normal, x.reference_point],
            'sign': lambda x: x.sign(P), 'other sign': lambda x: x.sign(2 - P), 'distance': lambda x: x.signed_distance(P),
            'other distance': lambda x: x.signed_distance(2 * P[0] + 1), 'front': lambda x: x.points_in_front(P), 'behind': lambda x: x.points_in_front(P, inverted=True),
            'project': lambda x: x.project_point(A(3, 4, 5)), 'other project': lambda x: x.project_point(A(5, 4, 3)), 'flipped': lambda x: x.flipped(),
            'line': lambda x: x.line_xsection(A(0, 0, 0), A(1, 1, 1)), 'segments': lambda x: x.line_segment_xsections(P[:-1], P[1:]),
            'mesh': lambda x: x.mesh_xsections(tet)}),
        'box': (lambda: Box(A(0, 1, 2), A(1, 2, 3)), {
            'ranges': lambda x: x.ranges, 'center': lambda x: x.center_point, 'floor': lambda x: x.floor_point, 'mid': lambda x: [x.min_x, x.max_z, x.mid_y],
            'area': lambda x: x.surface_area, 'volume': lambda x: x.volume, 'size': lambda x: [x.width, x.height, x.depth]}),
        'open polyline': (lambda: Polyline(P.copy()), polyline),
        'closed polyline': (lambda: Polyline(P.copy(), closed=True), dict(polyline, reindexed=lambda x: x.reindexed(2))),
        'composite': (chain(CompositeTransform), {
            'points': lambda x: x(P), 'other points': lambda x: x(3 - P[:2]), 'back': lambda x: x(P, reverse=True), 'range': lambda x: x(P, from_range=(1, 2)),
            'other range': lambda x: x(P, from_range=(0, 2)), 'matrix': lambda x: x.matrix_for(), 'matrix back': lambda x: x.matrix_for(reverse=True),
            'matrix range': lambda x: x.matrix_for(from_range=(1, 3))}),
        'manager': (chain(CoordinateManager), {
            'whole': lambda x: x.do_transform(P, 'a', 'd'), 'other': lambda x: x.do_transform(3 - P, 'a', 'd'), 'part': lambda x: x.do_transform(P, 'b', 'c'),
            'back': lambda x: x.do_transform(P, 'd', 'b'), 'same': lambda x: x.do_transform(P, 'c', 'c')}),
        'manager with points': (assigned, {tag: lambda x, tag=tag: getattr(x, tag) for tag in 'abcd'}),
        'value': (lambda: Value(3.25, 'cm'), {
            'in': lambda x: x.convert('in'), 'm': lambda x: x.m, 'ft': lambda x: x.ft, 'sum': lambda x: x + Value(1, 'm'), 'less': lambda x: x < Value(1, 'in'),
            'text': lambda x: [str(x), x.prettified], 'default': lambda x: x.convert_to_system_default('united_states'), 'double': lambda x: x * 2}),
        'units': (Units, {
            'cm': lambda x: x.convert(3.0, 'cm', 'in'), 'lb': lambda x: x.convert(3.0, 'lb', 'kg'), 'list': lambda x: x.convert_list([1.0, 2.0], 'ft', 'm'),
            'class': lambda x: x.units_class('deg'), 'unknown': lambda x: x.factor('cm', 'blah'), 'mismatch': lambda x: x.factor('cm', 'kg'),
            'defaults': lambda x: x.default_units('metric', {'length': 'm'}), 'other defaults': lambda x: x.default_units('united_states'),
            'pretty': lambda x: x.prettify(70.6, 'in'), 'all': lambda x: sorted(x.all_units)}),
        'block matrix': (lambda: StaticBlockSparseMatrix(sp.csc_matrix(spd)), {
            'times': lambda x: x.matvec(A(1, 2, 3)), 'times other': lambda x: x.matvec(A(0, 2, -3)), 'matrix': lambda x: x.matmat(A((1, 2), (0, 1), (3, 4))),
            'mtm': lambda x: x.MTM().toarray(), 'mmt': lambda x: x.MMT().toarray(), 'linop': lambda x: x.linOp.matvec(A(4, 2, 3)),
            'sparsity': lambda x: [x.row_sparsity, x.num_sparse_rows]}),
    }


def reader(cell, read):
    def run():
        try:
            return calls.image(read(cell[0]))
        except Exception as e:
            return calls.image(e)
    return run


def reading_cases(tier):
    for kind, (_, reads) in readers().items():
        for a in reads:
            for b in reads:
                yield (kind, a, b, 2 if tier == 'thorough' else 1)


@FAMILIES.family(reading_cases)
def shared_reading(ctx, kind, a, b, preemptions):
    make, reads = readers()[kind]
    cell = [None]
    jobs = [reader(cell, reads[a]), reader(cell, reads[b])]

    def run():
        wanted = []
        for j in jobs:
            cell[0] = make()
            wanted.append(j())
        counts = []
        for j in jobs:
            cell[0] = make()
            counts.append(threads.points(j))
        done = 0
        for s in threads.schedules(counts[0], counts[1], preemptions, THOROUGH_PAIRS // 8):
            cell[0] = make()
            judge(jobs, wanted, s, '%s and %s of one %s' % (a, b, kind))
            for j, w, what in zip(jobs, wanted, (a, b)):
                require(calls.alike(j(), w), '%s and %s of one %s, switching after %s points: afterwards %s answers otherwise', a, b, kind, list(s), what)
            done += 1
        return done
    ctx.step(calls.in_child(run))
    ctx.state(kind, a, b)
    ctx.outcome(kind)


# -- error settings -------------------------------------------------------------------

@FAMILIES.family(lambda tier: product(names(), ['raise', 'ignore']))
def error_settings(ctx, name, setting):
    wanted = alone(name, False)

    def run():
        np.seterr(all=setting)
        answer = job(name)()
        require(calls.alike(answer, wanted), '%s with numpy set to %s floating-point errors answers %s instead of %s',
                name, setting, calls.brief(answer), calls.brief(wanted))
        require(set(np.geterr().values()) == {setting}, '%s changed the error settings', name)
    calls.in_child(run)
    ctx.step()
    ctx.state(name, setting)


# -- every byte code --------------------------------------------------------------------

@FAMILIES.family(lambda tier: product(names(), range(PARTS)) if tier == 'thorough' else [])
def every_byte_code(ctx, name, part):
    jobs = [job(name), job(name, True)]
    n, m = lengths(jobs, True)
    picked = [s for k, s in enumerate(threads.schedules(n, m, 1)) if k % PARTS == part]
    explore(ctx, jobs, [alone(name, False), alone(name, True)], picked, name, True)
    ctx.state(name, part)
