import itertools

import numpy as np

from mc.engine import Families, require
from mc.lib import require_close, require_refused

PROPERTY = 'C15'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every polyline of 1-4 vertices on a 5-point lattice and chains of 5-12, every index, every pair of successive reindexings, '
             'flips before and after; '
             'likewise: polylines of 30, 1000 and 20000 vertices in 5 kinds of arrays',
    'thorough': 'polylines of 1-5 vertices on the lattice, chains of up to 24',
}
RULE = 'every small closed polyline and index, judged vertex by vertex and edge by edge; a state is a polyline and a pair of indices'
ASSUMPTIONS = ['indices are between 0 and the number of vertices']
FAMILIES = Families()

LATTICE = [(0, 0, 0), (1, 2, 3), (-2.5, 1, 0), (4, -1, -1), (0, 1e-3, 500)]


def gen(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for v in itertools.product(LATTICE, repeat=n):
            yield (v,)
    for n in range(5, 13 if tier == 'quick' else 25):
        yield ([(i, i * i % 7, -i) for i in range(n)],)


@FAMILIES.family(gen)
def reindex(ctx, v):
    from blmath.geometry import Polyline
    n = len(v)
    given = np.array(v, dtype=float)
    line = Polyline(given.copy(), closed=True)
    for i in range(n + 1):
        what = '%s reindexed at %d' % (v, i)
        new = line.reindexed(i)
        twin, mapping = line.reindexed(i, ret_edge_mapping=True)
        for got in (new, twin):
            require(got is not line and got.closed, '%s: a new closed polyline', what)
            require(np.array_equal(got.v, np.array(v[i:] + v[:i], dtype=float)), '%s: vertices %s', what, got.v.tolist())
            require(not np.shares_memory(got.v, line.v), '%s: vertices shared with the original', what)
        mapping = np.asarray(mapping)
        require(mapping.shape == (n,) and sorted(mapping.tolist()) == list(range(n)), '%s: edge mapping %s', what, mapping)
        require(np.array_equal(line.segments[mapping], new.segments), '%s: edge mapping %s', what, mapping)
        require(mapping.tolist() == [(i + k) % n for k in range(n)], '%s: edge mapping %s', what, mapping)
        require_close(new.total_length, float(line.total_length), '%s: total length', what)
        require(np.array_equal(line.v, given) and line.closed, '%s: the original was changed', what)
        for j in range(n + 1):
            k = (i + j) % n
            require(np.array_equal(new.reindexed(j).v, line.reindexed(k).v), '%s: then at %d', what, j)
            ctx.state(tuple(map(tuple, v)), i, j)
            ctx.step(2)
        # flipping the reindexed polyline leaves the original alone, and flipping twice does nothing
        new.flip()
        require(np.array_equal(new.v, twin.v[::-1]), '%s, then flipped', what)
        require(np.array_equal(line.v, given), '%s: the original was changed by flipping the new one', what)
        new.flip()
        require(np.array_equal(new.v, twin.v) and new.closed, '%s, then flipped twice', what)
        ctx.step(6)
    ctx.outcome(n)


@FAMILIES.family(lambda tier: ((n, i, kind) for n in (30, 1000, 20000) for i in (0, 1, n // 3, n - 1, n) for kind in ('float', 'int', 'float32', 'fortran', 'view')))
def long_polylines(ctx, n, index, kind):
    """Long polylines, held in arrays of several types and layouts, by indices of several types."""
    from blmath.geometry import Polyline
    k = np.arange(n)
    v = np.stack([k * 1000, k * k % 7, -k], axis=1).astype(float)
    given = {'float': v.copy, 'int': lambda: v.astype(int), 'float32': lambda: v.astype(np.float32), 'fortran': lambda: np.asfortranarray(v),
             'view': lambda: np.repeat(v, 2, axis=0)[::2]}[kind]()
    for at in (index, np.int64(index), np.uint16(index)):
        line = Polyline(given, closed=True)
        new, mapping = line.reindexed(at, ret_edge_mapping=True)
        require(np.array_equal(new.v, np.roll(v, -index, axis=0)) and new.closed, '%s vertices reindexed at %s', n, index)
        require(np.array_equal(mapping, (k + index) % n), '%s vertices reindexed at %s: edge mapping', n, index)
        require(np.array_equal(line.segments[mapping], new.segments), '%s vertices reindexed at %s: segments', n, index)
        require(np.array_equal(line.reindexed(at).v, new.v), '%s vertices reindexed at %s, without the mapping', n, index)
        require(np.array_equal(line.v, v) and not np.shares_memory(line.v, new.v), '%s vertices reindexed at %s: the original', n, index)
        new.flip()
        require(np.array_equal(new.v, np.roll(v, -index, axis=0)[::-1]) and np.array_equal(line.v, v), '%s vertices reindexed and flipped', n)
        w = new.v.astype(float)
        require_close(new.segment_lengths, np.linalg.norm(np.roll(w, -1, axis=0) - w, axis=1).tolist(), '%s vertices reindexed and flipped: lengths', n)
        ctx.step(7)
    ctx.state('long', n, index, kind)


@FAMILIES.family(gen)
def open_polylines(ctx, v):
    from blmath.geometry import Polyline
    line = Polyline(np.array(v, dtype=float))
    for i in range(len(v)):
        require_refused('an open polyline reindexed', lambda: line.reindexed(i), ValueError)
        require_refused('an open polyline reindexed', lambda: line.reindexed(i, ret_edge_mapping=True), ValueError)
        ctx.step(2)
    line.flip()
    require(np.array_equal(line.v, np.array(v[::-1], dtype=float)) and not line.closed, '%s flipped', v)
    require(line.e.tolist() == [[i, i + 1] for i in range(len(v) - 1)], '%s flipped: edges', v)
    ctx.step()
    ctx.state('open', tuple(map(tuple, v)))
