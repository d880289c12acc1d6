"""Every call is a function of its arguments: no call changes its arguments, the
answer of another call, or the global state of numpy, and no answer is affected by
what a caller does with an earlier answer."""
import decimal
import gc
import itertools
import re
import json
import os
import pickle
import random
import signal
import sys
import warnings

import numpy as np

from mc import env
from mc.engine import Families, product, require
from mc.lib import freeze

PROPERTY = 'C30'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every pair of calls out of a catalogue of about 240 covering all modules, each pair in a process of its own: the first call, its '
             'answer overwritten in place, the second call, then the first again and the second again; every triple out of 11 calls; every call, and 28 questions to one object, then the same with '
             'one argument a little different (in up to 11 ways, for each argument), then both again, and with an argument overwritten in place between calls',
    'thorough': 'every ordered pair likewise, and every triple out of the 45 calls of the modules with global or class-level data',
}
ASSUMPTIONS = ['an answer of a call is compared with the answer of the same call alone in a fresh process, numbers to 1e-9',
               'each call gets arguments of its own; readers of one stateful object are judged by the properties of that object']
CHUNK = 16
FAMILIES = Families()
CATALOGUE = {}


def prepare(scratch):
    env.with_chumpy()
    env.with_lace()
    env.with_cholmod(scratch)
    imports()
    if not CATALOGUE:
        fill()
    assert len(CATALOGUE) > 100
    gc.collect()
    gc.freeze()


def imports():
    # what the code imports while it runs: once here rather than once per process
    import cv2  # noqa
    import plumbum.cli.terminal  # noqa
    import scipy.linalg  # noqa
    import scipy.sparse.linalg  # noqa
    import simplejson  # noqa
    import sklearn.decomposition  # noqa


def call(name, *args, **kwargs):
    """An entry: `fn` gets fresh copies of the arguments."""
    args = list(args)
    fn = args.pop(0)
    assert name not in CATALOGUE
    CATALOGUE[name] = (fn, args, kwargs)


class Mesh(object):
    def __init__(self, v, f):
        self.v, self.f = v, f


def fill():
    import scipy.sparse as sp
    import chumpy as ch
    from blmath import geometry, numerics, units
    from blmath.geometry import Box, Plane, Polyline
    from blmath.geometry import apex, barycentric, convexify, segment, shapes, surface_normals
    from blmath.geometry import transform
    from blmath.geometry.transform import composite, rigid_transform, rodrigues, rotation, translation
    from blmath.numerics import vx, matlab, predicates, rounding
    from blmath.numerics.linalg import gram_schmidt, isomorphism, lchol, sparse_cg, static_block_sparse_matrix
    from blmath.optimization.objectives import normals
    from blmath.units import Units
    from blmath.util import json as bljson
    from blmath.value import Value
    A = lambda *x: np.array(x, dtype=float)
    P = A((0, 0, 0), (1, 0, 0), (1, 2, 0), (0, 2, 1), (-1, 1, 3))
    curve = A((0, 0, 0), (2, 0, 0), (2, 2, 0), (1, 1, 0), (0, 2, 0))
    u = Units()
    call('module factor', units.factor, 'm', 'ft')
    call('module convert', units.convert, 2.0, 'm', 'ft')
    call('module prettify', units.prettify, 12.34, 'cm')

    # units and values
    call('factor', u.factor, 'cm', 'in')
    call('factor same', u.factor, 'kg', 'kg', 'weight')
    call('factor wrong', u.factor, 'cm', 'kg')
    call('convert', u.convert, 3.0, 'ft', 'cm')
    call('convert array', u.convert, P, 'lb', 'kg')
    call('convert_list', u.convert_list, [1, 2.5, None], 'm', 'cm')
    call('convert_list numbers', u.convert_list, [1, 2.5], 'm', 'cm')
    call('defaults', u.default_units)
    call('defaults us', u.default_units, 'united_states')
    call('defaults exceptions', u.default_units, 'metric', {'length': 'm'})
    call('to default', u.convert_to_default, 3.0, 'in', {'length': 'mm', 'weight': 'g'})
    call('to system', u.convert_to_system_default, 3.0, 'lb')
    call('to system us', u.convert_to_system_default, 3.0, 'cm', 'united_states')
    call('prettify', u.prettify, 12.3456, 'cm')
    call('prettify in', u.prettify, 70.6, 'in')
    call('prettify 2', u.prettify, 12.3456, 'cm', 2)
    call('units class', u.units_class, 'stone')
    call('units class unknown', u.units_class, 'blah')
    call('units in class', lambda c: sorted(u.units_in_class(c)), 'length')
    call('all units', lambda: sorted(u.all_units))
    call('all classes', lambda: sorted(u.all_units_classes))
    for n in ('lengths', 'weights', 'angles', 'times', 'time_rates'):
        call(n, lambda n: sorted(getattr(u, n)), n)
    call('value', lambda x: Value(x, 'cm'), 3.0)
    call('value bad', lambda x: Value(x, 'blah'), 3.0)
    call('value in', lambda x: Value(x, 'cm').convert('in'), 3.0)
    call('value attr', lambda x: Value(x, 'cm').m, 3.0)
    call('value sum', lambda x: Value(x, 'cm') + Value(1, 'm'), 3.0)
    call('value mismatch', lambda x: Value(x, 'cm') + Value(1, 'kg'), 3.0)
    call('value ops', lambda x: [Value(x, 'cm') * 2, Value(x, 'cm') / 3, Value(x, 'cm') // Value(2, 'cm'), 4 - Value(x), abs(Value(-x, 'kg')), 2 * Value(x, 'cm'), Value(x, 'cm') - Value(1, 'in'), -Value(x, 'cm'), +Value(x, 'cm')], 3.0)
    call('value round', lambda x: [Value(x, 'cm').round(0.25), round(Value(x, 'cm'), 1), float(Value(x, 'in')), int(Value(x, 'in'))], 3.14)
    call('value system', lambda x: Value(x, 'in').convert_to_system_default('united_states'), 3.14)
    call('raw', u.raw, 'ft')
    call('value less', lambda x: Value(x, 'cm') < Value(1, 'm'), 3.0)
    call('value prettified', lambda x: Value(x, 'cm').prettified, 3.21)
    call('value json', lambda x: bljson.dumps({'a': Value(x, 'cm')}), 3.25)
    call('json value', bljson.loads, '{"a": {"__value__": {"value": 2.5, "units": "kg"}}, "b": {"__ndarray__": [1, 2]}}')
    call('json plain', bljson.loads, '{"a": [1, 2, {"b": null}]}')
    # vectors and numerics
    call('normalize', vx.normalize, P + 1)
    call('normalize one', vx.normalize, A(3, 4, 0))
    call('magnitude', vx.magnitude, P)
    call('sproj', vx.sproj, P, A(1, 2, 3))
    call('proj', vx.proj, P, A(1, 2, 3))
    call('reject', vx.reject, P, A(1, 2, 3))
    call('reject axis', vx.reject_axis, P, 1)
    call('squash', vx.reject_axis, P, 2, True)
    call('angle', vx.angle, A(1, 2, 3), A(0, 1, 0), A(0, 0, 1))
    call('signed angle', vx.signed_angle, A(1, 2, 0), A(0, 1, 0), A(0, 0, 1))
    call('almost zero', vx.almost_zero, A(0, 0, 1e-9))
    call('almost collinear', vx.almost_collinear, A(1, 2, 3), A(2, 4, 6))
    call('pad', vx.pad_with_ones, P)
    call('unpad', vx.unpad, np.hstack([P, np.ones((5, 1))]))
    call('homogeneous', vx.apply_homogeneous, P, A((1, 0, 0, 5), (0, 2, 0, 0), (0, 0, 1, 1), (0, 0, 0, 1)))
    call('as numeric', numerics.as_numeric_array, [[1, 2, 3]], shape=(-1, 3))
    call('as numeric bad', numerics.as_numeric_array, ['x'])
    call('as numeric turned', numerics.as_numeric_array, P.T, shape=(-1, 3))
    call('is numeric', predicates.isnumeric, [1, 2.5])
    call('is empty', predicates.is_empty_arraylike, [])
    call('round to', rounding.round_to, 3.21, 0.25)
    call('rounded list', rounding.rounded_list, [1.25, 2.777], 1)
    call('scale', numerics.scale_to_range, A(1, 2, 5), -1, 1)
    call('divide', numerics.zero_safe_divide, A(1, 2, 0), A(0, 4, 0))
    call('divide fill', numerics.zero_safe_divide, A(1, 2, 0), A(0, 4, 0), 9.0)
    call('bsxfun', matlab.bsxfun, np.add, P[:, :1], P[:1])
    call('sparse', matlab.sparse, np.array([0, 1, 1]), np.array([2, 0, 0]), A(1, 2, 3), 3, 4)
    call('orthogonalize', gram_schmidt.orthogonalize, A((1, 2, 0), (0, 1, 1), (3, 0, 1)))
    call('orthonormalize', gram_schmidt.orthonormalize, A((1, 2, 0), (0, 1, 1), (3, 0, 1)))
    call('orthonormalize some', gram_schmidt.orthonormalize, A((1, 2, 0), (0, 1, 1), (3, 0, 1)), [0, 2])
    call('isomorphism', isomorphism.isomorphism, A((1, 0, 0), (0, 2, 0), (0, 0, 1)), A((1, 1, 0), (0, 2, 0), (1, 0, 1)))
    call('isomorphism bad', isomorphism.isomorphism, A((1, 0, 0), (2, 0, 0), (0, 0, 1)), A((1, 1, 0), (0, 2, 0), (1, 0, 1)))
    spd = sp.csc_matrix(A((4, 1, 0), (1, 5, 2), (0, 2, 6)))
    call('lchol', lchol.lchol, spd)
    call('lchol bad', lchol.lchol, sp.csc_matrix(A((1, 2), (2, 1))))
    call('cg', sparse_cg.block_sparse_cg_solve, spd, A(1, 2, 3))
    Sb = static_block_sparse_matrix.StaticBlockSparseMatrix
    call('block sparsity', lambda m: [Sb(m).row_sparsity, Sb(m).column_density, Sb(m).num_sparse_rows, Sb(m).dense_column_indices], spd)
    call('block linop', lambda m, x: Sb(m).linOp.matvec(x), spd, A(1, 2, 3))
    call('block matmat', lambda m, x: Sb(m).matmat(x), spd, A((1, 2), (0, 1), (3, 4)))
    call('block mmt', lambda m: Sb(m).MMT().toarray(), spd)
    call('mask rows', static_block_sparse_matrix.mask_sparse_matrix_by_rows, spd, np.array([True, False, True]))
    call('mask columns', static_block_sparse_matrix.mask_sparse_matrix_by_columns, spd, np.array([True, False, True]))
    call('mask', static_block_sparse_matrix.mask_sparse_matrix, spd, np.array([True, True, False]), np.array([True, False, True]))
    call('gs proj', gram_schmidt.proj, A(1, 2, 3), A(0, 1, 1))
    call('numeric scalar', lambda xs: [predicates.isnumericscalar(x) for x in xs], [1, 2.5, 'x', None])
    call('numeric array', lambda x: [predicates.isnumericarray(x), predicates.isnumeric(x)], P)
    call('reshape', numerics.np_reshape_safe, P, (15,))
    call('reshape copy', lambda x: numerics.np_reshape_safe(x.T, (15,), just_warn=True), P)
    call('row col', lambda x: [matlab.row(x), matlab.col(x)], P[1:4])
    call('block matvec', lambda m, x: Sb(m).matvec(x), spd, A(1, 2, 3))
    call('block mtm', lambda m: Sb(m).MTM().toarray(), spd)
    call('block solve', lambda m, x: Sb(m).conjGradSolve(x), spd, A(1, 2, 3))
    for n in ('x', 'y', 'z', 'neg_x', 'neg_y', 'neg_z'):
        call('basis ' + n, lambda n: getattr(vx.basis, n), n)
    # geometry
    call('box', lambda o, s: [Box(o, s).ranges, Box(o, s).center_point, Box(o, s).surface_area], A(0, 1, 2), A(1, 2, 3))
    call('box bad', Box, A(0, 1, 2), A(1, -2, 3))
    call('plane', lambda p, n: [Plane(p, n).equation, Plane(p, n).canonical_point], A(1, 2, 3), A(0, 3, 4))
    call('plane zero', Plane, A(1, 2, 3), A(0, 0, 0))
    call('plane 3', Plane.from_points, A(1, 0, 0), A(0, 1, 0), A(0, 0, 1))
    call('plane 2v', Plane.from_points_and_vector, A(1, 0, 0), A(0, 1, 0), A(0, 0, 1))
    call('plane fit', lambda p: np.abs(Plane.fit_from_points(p).equation), A((0, 0, 0), (3, 0, 0), (0, 1, 0), (5, 2, 0)))
    call('plane flipped', lambda p, n: Plane(p, n).flipped(), A(1, 2, 3), A(0, 3, 4))
    call('plane sign', lambda p, n, q: Plane(p, n).sign(q), A(1, 2, 3), A(0, 3, 4), P)
    call('plane front', lambda p, n, q: Plane(p, n).points_in_front(q), A(0, 0, 0.5), A(0, 0, 1), P)
    call('plane distance', lambda p, n, q: Plane(p, n).signed_distance(q), A(1, 2, 3), A(0, 3, 4), P)
    call('plane project', lambda p, n, q: Plane(p, n).project_point(q), A(1, 2, 3), A(0, 3, 4), A(5, 5, 5))
    call('plane line', lambda p, n, a, b: Plane(p, n).line_xsection(a, b), A(0, 0, 1), A(0, 0, 1), A(0, 0, 0), A(1, 1, 1))
    call('plane segment', lambda p, n, a, b: Plane(p, n).line_segment_xsection(a, b), A(0, 0, 0.5), A(0, 0, 1), A(1, 2, 0), A(0, 1, 1))
    call('plane lines', lambda p, n, a, b: Plane(p, n).line_xsections(a, b), A(0, 0, 0.5), A(0, 0, 1), P, P + 1)
    call('plane fit repr', lambda p, n: repr(Plane(p, n)), A(0, 0, 0.5), A(0, 0, 1))
    call('plane segments', lambda p, n, a, b: Plane(p, n).line_segment_xsections(a, b), A(0, 0, 0.5), A(0, 0, 1), P[:-1], P[1:])
    tet = (A((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]]))
    call('mesh', lambda v, f: Plane(A(0, 0, 0.25), A(0, 0, 1)).mesh_xsections(Mesh(v, f)), *tet)
    call('mesh single', lambda v, f: Plane(A(0, 0, 0.25), A(0, 0, 1)).mesh_xsection(Mesh(v, f)), *tet)
    call('mesh near', lambda v, f: Plane(A(0, 0, 0.25), A(0, 0, 1)).mesh_xsections(Mesh(v, f), neighborhood=A((1, 0, 0))), *tet)
    call('mesh faces', lambda v, f: Plane(A(0, 0, 0.25), A(0, 0, 1)).mesh_intersecting_faces(Mesh(v, f)), *tet)
    call('polyline', lambda v: [Polyline(v).total_length, Polyline(v).e, Polyline(v).segments], P)
    call('polyline closed', lambda v: [Polyline(v, closed=True).segment_lengths, Polyline(v, closed=True).e], P)
    call('polyline none', lambda: [Polyline(None).total_length, len(Polyline(None))])
    call('polyline dict', lambda v: Polyline(v, closed=True).to_dict(decimals=2), P)
    call('polyline copy', lambda v: Polyline(v).copy(), P)
    call('polyline flip', lambda v: Polyline(v).flip(), P)
    call('polyline apex', lambda v: Polyline(v).apex(A(0, 0, 1)), P)
    call('polyline repr', lambda v: [repr(Polyline(v)), repr(Polyline(v, closed=True)), len(Polyline(v))], P)
    call('polyline vectors', lambda v: [Polyline(v).segment_vectors, Polyline(v, closed=True).segment_lengths], P)
    call('polyline reindex', lambda v: Polyline(v, closed=True).reindexed(2, ret_edge_mapping=True), P)
    call('polyline partition', lambda v: Polyline(v).partition_by_length(0.5, ret_indices=True), P)
    call('polyline partition v', lambda v: Polyline(v, closed=True).partition_by_length(0.5), P)
    call('polyline plane', lambda v: Polyline(v).intersect_plane(Plane(A(0, 0, 0.5), A(0, 0, 1)), ret_edge_indices=True), P)
    call('polyline cut', lambda v: Polyline(v).cut_by_plane(Plane(A(0, 0, 0.5), A(0, 0, 1))), P)
    call('polyline cut closed', lambda v: Polyline(v, closed=True).cut_by_plane(Plane(A(0, 0, 0.5), A(0, 0, 1))), P)
    call('polyline not cut', lambda v: Polyline(v).cut_by_plane(Plane(A(0, 0, 50), A(0, 0, 1))), P)
    call('apex', apex.apex, P, A(1, 2, 3))
    call('farthest', apex.farthest, A(1, 2, 3), P)
    call('inflections', apex.inflection_points, A((0, 0, 0), (1, 2, 0), (2, 3, 0), (3, 3, 0), (4, 4, 0), (5, 9, 0)), A(0, 1, 0), A(1, 0, 0))
    call('barycentric', barycentric.barycentric_coordinates_of_projection, P[:2], P[1:3], A((0, 0, 0), (1, 0, 0)), A((0, 1, 0), (0, 1, 1)))
    call('barycentric degenerate', barycentric.barycentric_coordinates_of_projection, A(1, 1, 1), A(0, 0, 0), A(1, 0, 0), A(2, 0, 0))
    call('surface normal', surface_normals.surface_normal, A((0, 0, 0), (1, 0, 0), (0, 2, 1)))
    call('rectangular prism', shapes.create_rectangular_prism, A(0, 1, 2), A(1, 2, 3), True)
    call('cube', shapes.create_cube, A(0, 1, 2), 2.0)
    call('triangular prism', shapes.create_triangular_prism, A(0, 0, 0), A(1, 0, 0), A(0, 1, 0), 2.0, True)
    call('horizontal', shapes.create_horizontal_plane, True)
    call('horizontal flat', shapes.create_horizontal_plane)
    call('partition', segment.partition, P, 3)
    call('partition default', segment.partition, P * 10)
    call('partition segment', segment.partition_segment, A(0, 0, 0), A(1, 2, 3), 4)
    call('partition segment old', segment.partition_segment_old, A(0, 0, 0), A(1, 2, 3), 4)
    call('line intersect', segment.line_intersect, A(0, 0), A(1, 1), A(0, 1), A(1, 0))
    call('line intersect 3', segment.line_intersect3, A(0, 0, 0), A(1, 1, 1), A(0, 1, 0), A(1, 0, 1))
    call('convexify', convexify.convexify_planar_curve, Polyline(curve, closed=True))
    call('convexify flat', convexify.convexify_planar_curve, Polyline(curve, closed=True), flatten=True)
    call('convexify vertices', convexify.convexify_planar_curve, Polyline(curve, closed=True), want_vertices=True)
    # transforms
    call('translation', translation.translation, P)
    call('translation by', translation.translation, P, A(1, 2, 3))
    call('euler', rotation.euler, [10, 20, 30])
    call('estimate normal', lambda p: np.abs(rotation.estimate_normal(p)), A((0, 0, 0), (3, 0, 0), (0, 1, 0), (5, 2, 0)))
    call('euler zyx', rotation.euler, [0.1, 0.2, 0.3], 'zyx', 'rad')
    call('up and look', rotation.rotation_from_up_and_look, A(0, 1, 0), A(1, 0, 1))
    call('up is look', rotation.rotation_from_up_and_look, A(0, 1, 0), A(0, 2, 0))
    call('rotate to xz', rotation.rotate_to_xz_plane, A((0, 0, 0), (3, 0, 1), (0, 0, 2), (5, 0, 2)), A(0, 1, 1))
    call('rodrigues', rodrigues.rodrigues, A(0.1, 0.2, 0.3))
    call('rodrigues jacobian', rodrigues.rodrigues, A(0.1, 0.2, 0.3), True)
    call('rodrigues zero', rodrigues.rodrigues, A(0, 0, 0), True)
    call('rodrigues back', rodrigues.rodrigues, A((0, -1, 0), (1, 0, 0), (0, 0, 1)))
    call('rodrigues back jacobian', rodrigues.rodrigues, A((0, -1, 0), (1, 0, 0), (0, 0, 1)), True)
    call('as rotation', rodrigues.as_rotation_matrix, A(0.1, 0.2, 0.3))
    Q = P.dot(A((0, 1, 0), (-1, 0, 0), (0, 0, 1))) + A(1, 2, 3)
    call('rigid transform', rigid_transform.find_rigid_transform, P, Q)
    call('rigid rotation', rigid_transform.find_rigid_rotation, P.T, (Q - A(1, 2, 3)).T)
    call('rigid rotation scale', rigid_transform.find_rigid_rotation, P.T, 2 * (Q - A(1, 2, 3)).T, True)
    call('44', composite.convert_33_to_44, A((0, 1, 0), (1, 0, 0), (0, 0, 1)))
    call('33', composite.convert_44_to_33, np.diag(A(1, 2, 3, 4)))

    def chain(cls, tags):
        def run(points):
            t = cls()
            if tags:
                t.tag_as('start')
            t.translate(np.array([1.0, 2.0, 3.0]))
            t.scale(2)
            if tags:
                t.tag_as('middle')
            t.rotate(np.array([0.1, 0.2, 0.3]))
            t.convert_units('cm', 'm')
            if tags:
                t.tag_as('end')
                return [t.do_transform(points, 'start', 'end'), t.do_transform(points, 'end', 'middle')]
            return [t(points), t(points, reverse=True), t(points, from_range=(1, 3))]
        return run
    call('composite', chain(composite.CompositeTransform, False), P)
    call('composite empty', lambda p: composite.CompositeTransform().matrix_for(), P)
    call('manager', chain(transform.CoordinateManager, True), P)
    call('manager unknown', lambda p: transform.CoordinateManager().do_transform(p, 'a', 'b'), P)
    call('manager assigned', manager_assigned, P)
    G = A((0.6, -0.8, 0), (0.8, 0.6, 0), (0, 0, 1))
    call('composite by matrices', composed, np.diag(A(1, 2, 4, 1)) + np.eye(4, k=1), G, P)
    call('composite oriented', oriented, A(0, 2, 0), A(1, 0, 1), A(0.1, 0.2, 0.3), A(1, 2, 3), P)
    call('composite refused', lambda m: composite.CompositeTransform().append_transform4(m), np.eye(3))
    call('composite scale refused', lambda x: composite.CompositeTransform().scale(x), 0)
    call('as rotation column', rodrigues.as_rotation_matrix, A((0.1,), (0.2,), (0.3,)))
    call('as rotation row', rodrigues.as_rotation_matrix, A((0.1, 0.2, 0.3)))
    call('as rotation matrix', rodrigues.as_rotation_matrix, G)
    call('rodrigues half turn', rodrigues.rodrigues, np.diag(A(-1, 1, -1)))
    call('rodrigues refused', rodrigues.rodrigues, A(1, 2))
    call('rigid transform rows', rigid_transform.find_rigid_transform, P[:4], Q[:4].T)
    call('rigid rotation point', rigid_transform.find_rigid_rotation, A((1,), (0,), (0,)), A((0,), (2,), (0,)), True)
    # more of numerics, in stacks and one at a time
    call('magnitude one', vx.magnitude, A(3, 4, 12))
    call('proj one', vx.proj, A(3, 4, 12), A(1, 2, 3))
    call('reject axis one', vx.reject_axis, A(3, 4, 12), 0)
    call('squash one', vx.reject_axis, A(3, 4, 12), 0, True)
    call('unpad refused', vx.unpad, A((1, 2, 3, 4), (1, 2, 3, 1)))
    call('signed angle flat', vx.signed_angle, A(1, 2, 0), A(-1, -2, 0), A(0, 0, 1))
    call('almost collinear not', vx.almost_collinear, A(1, 2, 3), A(2, 4, 6.5))
    call('scale grid', numerics.scale_to_range, P, 0, 10)
    call('divide grid', numerics.zero_safe_divide, P, P[::-1].copy() + 1)
    call('bsxfun rows', matlab.bsxfun, np.subtract, P, P[:1])
    call('bsxfun same', matlab.bsxfun, np.multiply, P, P + 1)
    call('sparse grid', matlab.sparse, np.array([[0, 1], [1, 2]]), np.array([[2, 0], [3, 0]]), A(1, 2, 3, 4), 3, 4)
    call('sparse repeat', matlab.sparse, np.array([0, 1, 1]), np.array([2, 0, 0]), A(1, 2, 3))
    call('read-only', lambda a, b: [numerics.np_make_readonly([a, b]), a.flags.writeable, b.flags.writeable], P.copy(), A(1, 2))
    call('as numeric integers', numerics.as_numeric_array, [[1, 2], [3, 4]], dtype=np.uint64)
    call('as numeric none', numerics.as_numeric_array, None, shape=(3,), allow_none=True)
    call('as numeric shape', numerics.as_numeric_array, P, shape=(3, 3))
    mixed = sp.csc_matrix(np.eye(6) * 3 + np.outer(A(1, 0, 0, 0, 0, 0), np.ones(6)) + np.outer(np.ones(6), A(1, 0, 0, 0, 0, 0)))
    some = np.array([False, True, True, True, True, True])
    call('block mixed', lambda m, a, b, x: [Sb(m, a, b).matvec(x), Sb(m, a, b).MMT().toarray(), Sb(m, a, b).MTM().toarray()], mixed, some, some, np.arange(6.0))
    call('block mixed rows', lambda m, a, x: [Sb(m, a, []).matvec(x), Sb(m, a, []).MMT().toarray()], mixed, some, np.arange(6.0))
    call('block solve from', lambda m, x, y: Sb(m).conjGradSolve(x, x0=y, maxiter=2), spd, A(1, 2, 3), A(0.5, 0.5, 0))
    call('lchol larger', lchol.lchol, mixed + 9 * sp.identity(6, format='csc'))
    call('json arrays', bljson.loads, '{"b": {"__ndarray__": [[1, 2], [3, 4]], "dtype": "int32"}, "s": {"__scipy.sparse.sparsematrix__": true, "dtype": '
                                      '"float64", "shape": [2, 3], "data": [1.5, 2], "row": [0, 1], "col": [2, 0], "format": "csr"}}')
    # more of geometry
    call('plane front of none', lambda p, n, q: Plane(p, n).points_in_front(q, inverted=True, ret_indices=True), A(0, 0, 0.5), A(0, 0, 1), P)
    call('plane sign one', lambda p, n, q: [Plane(p, n).sign(q), Plane(p, n).distance(q)], A(0, 0, 0.5), A(0, 1, 1), A(1, 2, 3))
    call('surface normals', surface_normals.surface_normal, P[[[0, 1, 2], [1, 2, 3], [2, 3, 4]]])
    call('surface normals sized', surface_normals.surface_normal, P[[[0, 1, 2], [1, 2, 3], [2, 3, 4]]], False)
    call('triangular prism flat', shapes.create_triangular_prism, A(0, 0, 0), A(1, 0, 0), A(0, 1, 0), 2.0)
    call('convexify about', convexify.convexify_planar_curve, Polyline(curve, closed=True), True, True, A(0, 0, 1))
    call('polyline across', lambda v, p, n: Polyline(v, closed=True).intersect_plane(Plane(p, n)), P, A(0, 0, 0.5), A(0, 0, 1))
    call('polyline again', repeated_polyline, P)
    call('partition segment open', segment.partition_segment, A(0, 0, 0), A(1, 2, 3), 4, False)
    call('partition segment refused', segment.partition_segment, A(0, 0, 0), A(1, 2, 3), 1)
    call('lines parallel', segment.line_intersect, A(0, 0), A(1, 1), A(0, 1), A(1, 2))
    call('lines parallel 3', segment.line_intersect3, A(0, 0, 0), A(1, 1, 1), A(0, 1, 0), A(1, 2, 1))
    # objectives
    f = np.array([[0, 1, 2], [0, 2, 3]])
    for n, make in (('tri normals', normals.TriNormals), ('tri scaled', normals.TriNormalsScaled), ('vert normals', normals.VertNormals)):
        call(n, lambda v, f, make=make: with_jacobian(make, v, f), P[:4], f)
    call('vert sized', lambda v, f: with_jacobian(lambda v, f: normals.VertNormals(v=v, f=f, normalized=False), v, f), P[:4], f)
    call('vert larger', lambda v, f: with_jacobian(normals.VertNormals, v, f), P, np.array([[0, 1, 2], [0, 2, 3], [2, 3, 4]]))
    call('tri edges', lambda v, f: with_jacobian(lambda x, f: normals.TriEdges(f, 1, 0, x), v, f), P[:4], f)
    call('normalized rows', lambda v: with_jacobian(lambda x, _: normals.NormalizedNx3(x), v, None), P + 2)
    call('rodrigues object', lambda r: with_jacobian(lambda x, _: rodrigues.Rodrigues(x), r, None), A(0.1, 0.2, 0.3))
    call('cross product', lambda a, b: normals.CrossProduct(ch.array(a), ch.array(b)).r, P, P[::-1].copy())


def composed(matrix4, matrix3, points):
    from blmath.geometry.transform import CompositeTransform
    t = CompositeTransform()
    t.append_transform4(matrix4)
    t.append_transform3(matrix3, matrix3.T)
    t.rotate(matrix3)
    return [t(points), t(points, reverse=True), t.matrix_for(from_range=(0, 2))]


def oriented(up, look, vector, by, points):
    from blmath.geometry.transform import CompositeTransform
    t = CompositeTransform()
    t.reorient(up, look)
    t.translate(by)
    t.rotate(vector)
    return [t(points), t(points, reverse=True), t.matrix_for(reverse=True)]


def repeated_polyline(v):
    from blmath.geometry import Polyline
    p = Polyline(v)
    out = [p.total_length]
    p.closed = True
    out += [p.total_length, p.e]
    p.partition_by_length(1.0)
    out += [p.v, p.e]
    p.flip()
    return out + [p.v, p.segments]


def manager_assigned(points):
    from blmath.geometry.transform import CoordinateManager
    t = CoordinateManager()
    t.tag_as('a')
    t.translate(np.array([0.0, 0.0, 5.0]))
    t.tag_as('b')
    t.a = points
    return t.b


def with_jacobian(make, v, f):
    import chumpy as ch
    x = ch.array(v)
    obj = make(x, f)
    jacobian = obj.dr_wrt(x)
    return [np.array(obj.r), jacobian.toarray() if hasattr(jacobian, 'toarray') else np.array(jacobian)]


# -- running -----------------------------------------------------------------------

def image(x):
    """A picklable, comparable picture of an answer: structure and numbers apart."""
    import scipy.sparse as sp
    if x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return ('bool', bool(x))
    if isinstance(x, (int, float, np.number)):
        return ('number', float(x))
    if isinstance(x, complex):
        return ('number', x.real, x.imag)
    if sp.issparse(x):
        return ('matrix', image(x.toarray()))
    if isinstance(x, np.ndarray):
        return ('array', x.shape, tuple(image(y) for y in x.ravel().tolist()))
    if isinstance(x, dict):
        return ('dict', tuple(sorted((str(k), image(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple, set, frozenset)):
        return ('list', tuple(image(y) for y in x))
    for fields in (('value', 'units'), ('v', 'closed', 'e'), ('normal', 'reference_point')):
        if all(hasattr(x, k) for k in fields):
            return (type(x).__name__,) + tuple(image(getattr(x, k)) for k in fields)
    if isinstance(x, BaseException):
        # What other libraries say may tell the time or a run number.
        own = type(x).__module__.split('.')[0] in ('builtins', 'blmath')
        return ('refused', type(x).__name__, re.sub(r'0x[0-9a-f]+|\d+', '#', str(x)) if own else '')
    return type(x).__name__


def alike(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return a == b


def spoil(x, seen=None):
    """Overwrite an answer in place, as its owner may."""
    import scipy.sparse as sp
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = x.dtype.type(7) if x.dtype != object else None
    elif sp.issparse(x):
        x.data[:] = 7
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x['spoilt'] = 'spoilt'
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append('spoilt')
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)
    elif type(x).__name__ == 'Value':
        x.value = -99.0
    elif type(x).__name__ == 'Polyline':
        if x.v is not None:
            spoil(np.asarray(x.v))
        x.closed = not x.closed


def fresh(x):
    import scipy.sparse as sp
    if isinstance(x, np.ndarray) or sp.issparse(x):
        return x.copy()
    if isinstance(x, list):
        return [fresh(y) for y in x]
    if isinstance(x, dict):
        return {k: fresh(v) for k, v in x.items()}
    if type(x).__name__ == 'Polyline':
        return type(x)(fresh(x.v), closed=x.closed)
    return x


def look(x):
    if type(x).__name__ == 'Polyline':
        return freeze([np.asarray(x.v), x.closed])
    return freeze(x) if not callable(x) else 'function'


def world():
    state = np.random.get_state()
    return (tuple(sorted(np.geterr().items())), state[1].tobytes(), state[2], repr(sorted(np.get_printoptions().items(), key=str)), os.getcwd(),
            str(warnings.filters), random.getstate(), tuple(sys.path), tuple(sorted(os.environ.items())), sys.getrecursionlimit(), str(decimal.getcontext()),
            np.geterrcall(), np.getbufsize())


# every floating-point error is announced (to a filter which ignores it), so that a
# call which silences one for good is seen
ERRORS = ['warn']


def perform(name):
    """(answer, its image), having judged that arguments and surroundings are left alone."""
    fn, args, kwargs = CATALOGUE[name]
    args, kwargs = [fresh(a) for a in args], {k: fresh(v) for k, v in kwargs.items()}
    np.seterr(all=ERRORS[0])
    before, around = look_all(args, kwargs), world()
    try:
        answer = fn(*args, **kwargs)
    except Exception as e:
        answer = e
    picture = image(answer)
    require(look_all(args, kwargs) == before, '%s: an argument was changed', name)
    require(world() == around, '%s: the state of numpy or of the process was changed', name)
    return answer, picture


def look_all(args, kwargs):
    return [look(a) for a in args], sorted((k, look(v)) for k, v in kwargs.items())


def in_child(fn):
    """Run in a forked process; its answer, or its violation."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = (True, fn())
        except BaseException as e:
            out = (False, '%s' % (e if isinstance(e, AssertionError) else repr(e)))
        with os.fdopen(w, 'wb') as f:
            pickle.dump(out, f)
        os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    require(data, 'the process died')
    ok, out = pickle.loads(data)
    require(ok, '%s', out)
    return out


ALONE = {}


def alone(name):
    if name not in ALONE:
        ALONE[name] = in_child(lambda: perform(name)[1])
    return ALONE[name]


def play(names):
    """A history of calls in one fresh process; each answer is overwritten once seen."""
    wanted = {n: alone(n) for n in names}

    def run():
        done = []
        for n in names:
            answer, picture = perform(n)
            require(alike(picture, wanted[n]), 'after %s: %s answers %s instead of %s', done, n, brief(picture), brief(wanted[n]))
            spoil(answer)
            done.append(n)
        return True
    in_child(run)


def brief(x):
    s = json.dumps(x, default=str)
    return s if len(s) < 300 else s[:300] + '...'


GLOBAL = ['factor', 'factor same', 'factor wrong', 'convert', 'convert_list', 'defaults', 'defaults us', 'defaults exceptions', 'to default', 'to system',
          'to system us', 'prettify', 'prettify in', 'units class', 'units in class', 'all units', 'all classes', 'lengths', 'value', 'value bad',
          'value in', 'value attr', 'value sum', 'value prettified', 'value json', 'json value', 'plane flipped', 'plane 3', 'polyline none',
          'polyline closed', 'mesh', 'composite', 'composite empty', 'manager', 'manager unknown', 'manager assigned', 'rodrigues', 'rodrigues zero',
          'vert normals', 'tri normals', 'vert larger', 'lchol', 'lchol bad', 'divide']


def names():
    if not CATALOGUE:
        prepare_names()
    return list(CATALOGUE)


def prepare_names():
    env.with_chumpy()
    env.with_lace()
    fill()


@FAMILIES.family(lambda tier: product(names()))
def one_call(ctx, a):
    play([a, a, a])
    ctx.step(3)
    ctx.state(a)
    ctx.outcome(CATALOGUE[a][0].__module__ or '', alone(a)[0] if isinstance(alone(a), tuple) else 'plain')


@FAMILIES.family(lambda tier: (itertools.combinations if tier == 'quick' else itertools.permutations)(names(), 2))
def two_calls(ctx, a, b):
    play([a, b, a, b])
    ctx.step(4)
    ctx.state(a, b)


# -- calls which are almost the same -------------------------------------------------

UNITS = {'cm': 'mm', 'm': 'cm', 'in': 'ft', 'ft': 'in', 'kg': 'g', 'lb': 'stone', 'metric': 'united_states', 'united_states': 'metric', 'length': 'weight',
         'xyz': 'xzy', 'zyx': 'xyz', 'rad': 'deg', 'deg': 'rad', 'x': 'y'}
NUDGE = 2.0 ** -20


def nudged(x, where):
    x = x.copy()
    x[where] += NUDGE * (abs(x[where]) or 1)
    return x


def others(x):
    """(what differs, another argument) for everything an answer may be wrongly remembered by."""
    import scipy.sparse as sp
    if isinstance(x, (bool, np.bool_)):
        yield 'negated', not x
    elif isinstance(x, int):
        yield 'one more', x + 1
        yield 'as a float', float(x)
    elif isinstance(x, float):
        yield 'a little more', x + NUDGE * (abs(x) or 1)
        yield 'negative', -x
        yield 'half', x / 2
    elif isinstance(x, str):
        if x in UNITS:
            yield 'other', UNITS[x]
    elif isinstance(x, np.ndarray) and x.size:
        first, last = (0,) * x.ndim, (-1,) * x.ndim
        if x.dtype.kind == 'f':
            yield 'first nudged', nudged(x, first)
            yield 'last nudged', nudged(x, last)
            if x.size > 2:
                yield 'middle nudged', nudged(x, tuple(n // 2 for n in x.shape))
            yield 'doubled', 2 * x
            yield 'negative', -x
            if np.all(x == x.astype(int)):
                yield 'whole numbers', x.astype(int)
        if x.dtype.kind == 'b':
            yield 'negated', ~x
        yield 'reversed', x[::-1].copy()
        if x.ndim > 1:
            yield 'transposed', x.T.copy()
            yield 'columns reversed', x[:, ::-1].copy()
            yield 'reshaped', x.reshape(x.shape[::-1]).copy()
            yield 'fewer', x[:-1].copy()
    elif sp.issparse(x):
        yield 'doubled', 2 * x
        y = x.copy()
        y.data = nudged(y.data, (-1,))
        yield 'nudged', y
        yield 'squared', (x.dot(x.T)).asformat(x.format)
    elif type(x).__name__ == 'Polyline':
        yield 'closed or not', type(x)(x.v.copy(), closed=not x.closed)
        for what, v in others(np.asarray(x.v)):
            if v.ndim == 2 and v.shape[1] == 3:
                yield what, type(x)(v, closed=x.closed)
    elif isinstance(x, (list, tuple)) and len(x):
        for i in sorted({0, len(x) - 1}):
            for what, y in others(x[i]):
                yield '%s at %d' % (what, i), type(x)(y if j == i else z for j, z in enumerate(x))
        yield 'reversed', type(x)(x[::-1])


def questions():
    """Questions to one object, which is kept: how it is made, the question, its arguments."""
    from blmath.geometry import Plane, Polyline
    from blmath.geometry.transform import CompositeTransform, CoordinateManager
    from blmath.numerics.linalg.static_block_sparse_matrix import StaticBlockSparseMatrix
    from blmath.units import Units
    from blmath.value import Value
    import scipy.sparse as sp
    A = lambda *x: np.array(x, dtype=float)
    P = A((0, 0, 0), (1, 0, 0), (1, 2, 0), (0, 2, 1), (-1, 1, 3))
    T = A((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1))
    f = np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])

    def chain(cls):
        t = cls()
        for tag, step in (('a', lambda: t.translate(A(1, 2, 3))), ('b', lambda: t.scale(2)), ('c', lambda: t.rotate(A(0.1, 0.2, 0.3))), ('d', None)):
            if cls is CoordinateManager:
                t.tag_as(tag)
            if step:
                step()
        return t

    def assigned(t, points):
        t.b = points
        return [t.a, t.b, t.d]
    plane = lambda: Plane(A(0, 0, 0.25), A(0, 1, 2))
    line = lambda: Polyline(P.copy())
    ring = lambda: Polyline(P.copy(), closed=True)
    m = sp.csc_matrix(np.eye(6) * 3 + np.outer(A(1, 0, 0, 0, 0, 0), np.ones(6)) + np.outer(np.ones(6), A(1, 0, 0, 0, 0, 0)))
    some = np.array([False, True, True, True, True, True])
    block = lambda: StaticBlockSparseMatrix(m.copy(), some.copy(), some.copy())
    six = np.arange(6.0) - 2
    return {
        'plane sides': (plane, lambda x, q: [x.sign(q), x.signed_distance(q), x.distance(q)], [P]),
        'plane front': (plane, lambda x, q, back, which: x.points_in_front(q, inverted=back, ret_indices=which), [P, False, True]),
        'plane project': (plane, lambda x, q: x.project_point(q), [A(1, 2, 3)]),
        'plane line': (plane, lambda x, a, b: [x.line_xsection(a, b), x.line_segment_xsection(a, b)], [A(0, 0, -3), A(1, 1, 4)]),
        'plane lines': (plane, lambda x, a, b: [x.line_xsections(a, b), x.line_segment_xsections(a, b)], [P, P[::-1] + 0.125]),
        'plane mesh': (plane, lambda x, v, f: [x.mesh_xsections(Mesh(v, f)), x.mesh_intersecting_faces(Mesh(v, f))], [T, f]),
        'plane mesh near': (plane, lambda x, v, near: x.mesh_xsections(Mesh(np.vstack([v, v + [3, 0, 0]]), np.vstack([f, f + 4])), neighborhood=near), [T, A((1, 0, 0), (0, 1, 0))]),
        'plane polyline': (plane, lambda x, p: x.polyline_xsection(p), [ring()]),
        'polyline apex': (line, lambda x, axis: x.apex(axis), [A(0, 0.5, 1)]),
        'polyline plane': (ring, lambda x, p, n, which: x.intersect_plane(Plane(p, n), ret_edge_indices=which), [A(0, 0, 0.5), A(0, 1, 3), True]),
        'polyline cut': (ring, lambda x, p, n: x.cut_by_plane(Plane(p, n)), [A(0, 0, 0.5), A(0, 1, 3)]),
        'polyline cut open': (line, lambda x, p, n: x.cut_by_plane(Plane(p, n)), [A(0, 0, 0.5), A(0, 0, 1)]),
        'polyline reindexed': (ring, lambda x, i, which: x.reindexed(i, ret_edge_mapping=which), [2, True]),
        'polyline dict': (ring, lambda x, decimals: x.to_dict(decimals=decimals), [2]),
        'polyline vertices': (ring, lambda x, v: [setattr(x, 'v', v), x.v, x.e, x.segments, x.total_length], [P]),
        'polyline parts': (ring, lambda x, v, by: [setattr(x, 'v', v), x.partition_by_length(by), x.v, x.e], [P, 1.0]),
        'composite': (lambda: chain(CompositeTransform), lambda x, q, back: [x(q, reverse=back), x(q, from_range=(1, 3), reverse=back)], [P, False]),
        'composite range': (lambda: chain(CompositeTransform), lambda x, a, b, back: [x.matrix_for((a, b), back), x(P, (a, b), back)], [0, 2, False]),
        'manager': (lambda: chain(CoordinateManager), lambda x, q: [x.do_transform(q, 'a', 'd'), x.do_transform(q, 'd', 'b')], [P]),
        'manager points': (lambda: chain(CoordinateManager), assigned, [P]),
        'block vector': (block, lambda x, v: [x.matvec(v), x.linOp.matvec(v)], [six]),
        'block matrix': (block, lambda x, v: x.matmat(v), [np.vstack([six, six ** 2]).T.copy()]),
        'block solve': (block, lambda x, b, start: x.conjGradSolve(b, x0=start), [six, six + 1]),
        'units': (Units, lambda x, n, a, b: [x.convert(n, a, b), x.convert_list([n, 1.0], a, b), x.factor(a, b)], [3.0, 'cm', 'in']),
        'units default': (Units, lambda x, n, a, system: [x.convert_to_system_default(n, a, system), x.prettify(n, a), x.default_units(system)], [3.0, 'cm', 'metric']),
        'units table': (Units, lambda x, n, a, table: x.convert_to_default(n, a, table), [3.0, 'cm', {'length': 'm'}]),
        'units pretty': (Units, lambda x, n, a, places: x.prettify(n, a, places), [3.21, 'cm', 1]),
        'value': (lambda: Value(3.25, 'cm'), lambda x, to, n: [x.convert(to), x + Value(n, to), x < Value(n, to), x.round(n)], ['in', 1.5]),
    }


def looked_up(name):
    """(what makes the object, the question, its arguments) of a call of the catalogue or a question."""
    if name.startswith('one '):
        make, fn, args = questions()[name[4:]]
        return make, fn, args, {}
    return (lambda: None,) + (lambda fn, args, kwargs: (lambda _, *a, **k: fn(*a, **k), args, kwargs))(*CATALOGUE[name])


def places():
    for name in names() + ['one ' + n for n in questions()]:
        _, _, args, kwargs = looked_up(name)
        for k in list(range(len(args))) + sorted(kwargs):
            yield name, k


@FAMILIES.family(lambda tier: places())
def almost_the_same(ctx, name, place):
    """The call, the same with one argument a little different, and both again; then with one array overwritten
    between two calls.  Questions to an object are put to one and the same."""
    make, fn, args, kwargs = looked_up(name)
    where = args if isinstance(place, int) else kwargs

    def given(other):
        a, k = [fresh(x) for x in args], {n: fresh(v) for n, v in kwargs.items()}
        if other is not None:
            (a if isinstance(place, int) else k)[place] = fresh(other)
        return a, k

    def ask(obj, a, k):
        before, around = look_all(a, k), world()
        try:
            answer = fn(obj, *a, **k)
        except Exception as e:
            answer = e
        picture = image(answer)
        require(look_all(a, k) == before, '%s: an argument was changed', name)
        require(world() == around, '%s: the state of numpy or of the process was changed', name)
        return answer, picture

    def expect(obj, given_, wanted, how):
        answer, picture = ask(obj, *given_)
        require(alike(picture, wanted), '%s, argument %s %s: answers %s instead of %s', name, place, how, brief(picture), brief(wanted))
        return answer

    plain = in_child(lambda: ask(make(), *given(None))[1])
    for what, other in others(where[place]):
        changed = in_child(lambda: ask(make(), *given(other))[1])

        def history():
            obj = make()
            for x, w, how in ((None, plain, 'as it is'), (other, changed, what), (None, plain, 'as it is after ' + what), (other, changed, what + ' again')):
                answer = expect(obj, given(x), w, how)
                if obj is None:
                    spoil(answer)
            return True

        def in_place():
            obj = make()
            a, k = given(None)
            mine = (a if isinstance(place, int) else k)[place]
            for x, w, how in ((where[place], plain, 'as it is'), (other, changed, 'overwritten: ' + what), (where[place], plain, 'overwritten again: ' + what)):
                if isinstance(mine, np.ndarray):
                    mine[...] = x
                elif isinstance(mine, list):
                    mine[:] = fresh(x)
                else:
                    mine.v, mine.closed = fresh(np.asarray(x.v)), x.closed
                expect(obj, (a, k), w, how)
            return True
        in_child(history)
        ctx.step(4)
        x = where[place]
        if name == 'read-only':
            continue  # its arguments cannot be overwritten afterwards
        if type(x).__name__ == 'Polyline' or isinstance(x, list) or isinstance(x, np.ndarray) and x.shape == other.shape and x.dtype == other.dtype:
            in_child(in_place)
            ctx.step(3)
    ctx.state(name, place)


@FAMILIES.family(lambda tier: itertools.permutations(GLOBAL, 3) if tier == 'thorough' else itertools.permutations(GLOBAL[::4], 3))
def three_calls(ctx, a, b, c):
    play([a, b, c, a, b, c])
    ctx.step(6)
    ctx.state(a, b, c)
