"""Writes properties.jsonl and the checks of MANIFEST.json (python3 tools/write_properties.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, level, note, observe=None, state=None):
    anchors = {'files': ['blmath/' + f for f in files],
               'mechanism': [{'name': n, 'where': 'blmath/' + w} for n, w in mechanism]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': 'blmath/' + w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=anchors),
              technique, level, note))


EX = 'exploration'
MC = 'model_checking'
ENUM = 'bounded exhaustive exploration of the real code against '

prop('C01', 'Unit conversion is exact, transitive and stays within its kind',
     'Converting between any two units of the same kind (length, weight, angle, time, time rate) agrees with the published definitions of the units, '
     'so conversions invert and chain; a conversion between kinds, from or to an unknown unit, between some unit and none, or against a required kind other than that of the units is '
     'refused with an error; a number without units stays as it is. Converting to the defaults of a unit system, or of a table supplied by the caller, yields that table\'s unit and the '
     'matching number, and the rounded pair for display is that number rounded to the increment of its unit or to the precision asked for. '
     'Asking for defaults with exceptions never affects a later answer.',
     ['inputs', 'histories'], 'all pairs and triples of recognised unit names, all unit systems, precisions and sequences of default-table queries',
     'The tests convert a handful of pairs; there are about 40 names and the guarantee is about every pair, every chain and every refused pair.',
     ['units.py'], [('table of units', 'units.py:Units.__init__'), ('factor', 'units.py:Units.factor'), ('prettify', 'units.py:Units.prettify')],
     ENUM + 'an exact rational unit table', EX,
     'Every name, pair and triple of names; magnitudes are sampled from a fixed set since conversion is linear.')
prop('C02', 'Quantities with units obey dimensional arithmetic and ordering',
     'Adding, subtracting and comparing two quantities of the same kind works on what they measure whatever their units are, with the result in the '
     'units of the left operand; between kinds it is refused, and quantities of different kinds are unequal rather than ordered. Multiplying or '
     'dividing by a number scales the quantity and keeps its units, dividing two quantities of one kind gives their plain ratio, and every conversion '
     '(by call, by attribute name, to a system default) measures the same. Truth, absolute value, sign and conversion to int and float follow the number.',
     ['inputs', 'programs'], 'all pairs of quantities over representative units and magnitudes, all operators, all chains of operations up to a depth',
     'The tests check single operators on one or two unit pairs; chains of mixed units and all operator and kind combinations are not reached.',
     ['value.py', 'units.py'], [('operators', 'value.py:Value'), ('comparison in common units', 'value.py:Value._comparable')],
     'explicit enumeration of operation chains on the real objects against an exact reference model', MC,
     'All chains of 3 (thorough 4 and more) operations out of 22 operator and operand pairs.')
prop('C03', 'A quantity always answers for its current number and units',
     'After any sequence of assigning the number, assigning the units, failed assignments and reads, every reading of a quantity (number, text, '
     'conversion, display form, JSON, comparison) is the one a freshly made quantity with the current number and units gives. Reads never change it, '
     'and a refused assignment leaves it as it was.',
     ['histories'], 'all histories of assignments and reads up to a depth, for recognised units or none',
     'Stale derived answers only appear after particular orders of reading and assigning; no test reads, assigns and reads again.',
     ['value.py'], [('number and units', 'value.py:Value.value'), ('display form', 'value.py:Value.prettified')],
     'explicit enumeration of assignment and read histories against a reference model', MC, 'All histories of 3 (thorough 4) operations out of 23.',
     state=[('_value, _units', 'the only state a quantity has', 'value.py:Value')])
prop('C04', 'Quantities, arrays and sparse matrices survive JSON',
     'A document of plain JSON data with quantities anywhere in it is read back equal after being written, as text or through a file, with nothing '
     'else about it changed. Annotated arrays and sparse matrices are read with the shape, element type, format and content they describe, an '
     'incomplete annotation is left as plain data, and plain documents are read exactly as plain JSON.',
     ['inputs'], 'all document shapes and leaves, array types and shapes, sparse formats and patterns within the bounds',
     'There is one round-trip test of a single quantity; nested documents, formats and incomplete annotations are untested.',
     ['util/json.py', 'value.py'], [('decoding hook', 'util/json.py:decode_json'), ('annotation', 'value.py:Value.for_json')],
     ENUM + 'the document itself', EX, 'Every assignment of 25 leaves to 9 document shapes; every sparse format and 3x3 pattern.')
prop('C05', 'Rounding goes to the nearest multiple of the increment',
     'Rounding to an increment gives the multiple of that increment nearest to the number, exact as printed (no stray digits beyond floating-point '
     'noise), and rounding again changes nothing. Rounding a sequence to some decimals does this to every element in order, and rounding a quantity '
     'rounds its number and keeps its units.',
     ['inputs'], 'all numbers on a fine grid around every increment, ties included up to either neighbour',
     'The tests round about a dozen numbers; whether a number near a tie or of large magnitude goes the right way needs the whole grid.',
     ['numerics/rounding.py', 'value.py'], [('round_to', 'numerics/rounding.py:round_to'), ('rounded_list', 'numerics/rounding.py:rounded_list')],
     ENUM + 'exact decimal rounding', EX, 'A full grid of 1/80 increments; exactly at a tie either neighbour is accepted.')
prop('C06', 'A composite transform applies its steps in order, each way and in part',
     'For any sequence of scalings, translations, unit conversions, reorientations, rotations and caller-supplied 3x3 or 4x4 matrices, transforming '
     'points is applying the steps one after the other in the order added; the reverse undoes it, also when the caller supplied both directions, and '
     'any sub-range of steps acts like just those steps, with the matrix for it agreeing. A refused step (bad shape, zero or negative factor, '
     'incompatible units) raises and leaves the transform unchanged; the points given are never modified.',
     ['programs', 'histories'], 'all sequences of steps up to a length, every sub-range in both directions, vectors and stacks of points',
     'The tests run two or three fixed stacks; order, range and direction mistakes show only for particular combinations of steps.',
     ['geometry/transform/composite.py'], [('stack of matrices', 'geometry/transform/composite.py:CompositeTransform.transforms'),
                                           ('composition', 'geometry/transform/composite.py:CompositeTransform.matrix_for')],
     'explicit enumeration of transform programs on the real object against exact rational matrices', MC,
     'All sequences of 3 (thorough 4) steps out of 20, all sub-ranges, both directions.')
prop('C07', 'Rotation matrices, vectors and Euler angles describe proper rotations',
     'A rotation vector, an Euler triple in any axis order (degrees or radians) or an up and look pair becomes an orthonormal right-handed matrix that '
     'turns by the stated angle about the stated axis, applies the Euler turns in the stated order, or takes up to +y and look into the +z half of the '
     'yz plane; up and look along one line, and wrong shapes, are refused. A rotation matrix (also scaled) becomes the vector of that rotation with at most half a turn, '
     'and the Jacobians given are the true derivatives.',
     ['inputs'], 'all axes, angles, up and look pairs and Euler orders on exhaustive grids, half turns and identity included',
     'The tests cover a few quarter turns; signs, handedness, half turns and derivatives depend on the whole space of axes and angles.',
     ['geometry/transform/rodrigues.py', 'geometry/transform/rotation.py'],
     [('rodrigues', 'geometry/transform/rodrigues.py:rodrigues'), ('up and look', 'geometry/transform/rotation.py:rotation_from_up_and_look'),
      ('euler', 'geometry/transform/rotation.py:euler')],
     ENUM + 'quaternions, exact algebra and OpenCV', EX, 'Grids of axes, angles (down to 1e-14 from none and from half a turn), direction pairs and Euler orders.')
prop('C08', 'Tagged coordinate frames convert points consistently',
     'After any sequence of naming frames, adding transformations and handing over points or a mesh in a named frame, reading them in any named frame '
     'gives the points carried through exactly the transformations between the two frames, forwards or backwards. A name used again stands for the '
     'newer frame, a refused transformation changes nothing, unknown names are refused, and what was handed over is never modified.',
     ['histories'], 'all histories of naming, transforming and assigning up to a depth, all pairs of names read',
     'The tests follow one or two fixed histories; renaming, assigning before or after transformations and reading backwards interact.',
     ['geometry/transform/coordinate_manager.py', 'geometry/transform/composite.py'],
     [('tags to positions', 'geometry/transform/coordinate_manager.py:CoordinateManager.tag_as'),
      ('conversion', 'geometry/transform/coordinate_manager.py:CoordinateManager.do_transform')],
     'explicit enumeration of histories on the real object against an exact reference model', MC, 'All histories of 4 (thorough 5) operations out of 14.',
     state=[('tags and points', 'which step each name stands for, and what was handed over where', 'geometry/transform/coordinate_manager.py')])
prop('C09', 'A plane tells sides, distances and projections correctly, however it was made',
     'A plane given by a point and a (not necessarily unit) normal, by three points, by two points and a vector, or flipped contains its defining '
     'points, has a unit normal with the documented orientation, and for every point gives the true signed and unsigned distance, side and orthogonal projection; filtering the '
     'points in front (or behind, or as indices) keeps exactly the right ones in order. A plane fitted to points minimises the sum of squared distances to '
     'them. A zero normal, colinear defining points and wrong shapes are refused.',
     ['inputs'], 'all normals, reference points, triples of lattice points and small point clouds within the bounds',
     'The tests use a few planes along axes; orientation and sides depend on every sign combination of normal and position.',
     ['geometry/primitives/plane.py'], [('Plane', 'geometry/primitives/plane.py:Plane.__init__'), ('sides', 'geometry/primitives/plane.py:Plane.sign'),
                                        ('fit', 'geometry/primitives/plane.py:Plane.fit_from_points')],
     ENUM + 'exact rational geometry', EX, 'Lattice grids; points within rounding of an oblique plane are not judged for side.')
prop('C10', 'Intersections of lines and segments with a plane are exact and complete',
     'The intersection of a plane with a line given by a point and a direction lies on both, and there is none exactly when they are parallel; with a '
     'segment it is reported exactly when the segment reaches the plane, both ends included. The vectorised forms give for every row what the single '
     'form gives, with a mask telling which rows have an answer, for any number of rows.',
     ['inputs'], 'all lines and segments between lattice points against all planes within the bounds, alone and in stacks',
     'The tests try a few crossing, parallel and touching segments; the boundary of the segment and mixed stacks need all combinations.',
     ['geometry/primitives/plane.py'], [('line_xsection', 'geometry/primitives/plane.py:Plane.line_xsection'),
                                        ('vectorised', 'geometry/primitives/plane.py:Plane.line_segment_xsections')],
     ENUM + 'exact rational geometry', EX, 'Segments which end on a plane are judged for axis-aligned planes, whose arithmetic is exact.')
prop('C11', 'The cross section of a mesh by a plane is complete and its parts are whole',
     'For a mesh without vertices on the plane, and at most two faces per edge, the faces reported to intersect are exactly those with vertices on both sides, and the cross section '
     'consists of one curve per connected part, visiting each crossed edge once in order along adjacent faces at the exact point, closed exactly when '
     'the part is a loop. Given a neighborhood of points, exactly the part nearest to it is returned. No intersection gives no curves.',
     ['configurations', 'inputs'], 'all face subsets and side patterns of small meshes, whole patterns of larger ones, any face and vertex order',
     'The tests cut a cube and a few pieces; loops, open parts, several components and vertex orders multiply beyond them.',
     ['geometry/primitives/plane.py'], [('mesh_xsections', 'geometry/primitives/plane.py:Plane.mesh_xsections'),
                                        ('path extraction', 'geometry/primitives/plane.py:Graph.pop_euler_path')],
     ENUM + 'the section graph computed independently', EX, 'Every subset of faces and side pattern of 9 small meshes; larger ones whole.')
prop('C12', 'A polyline stays consistent with its vertices through every change',
     'After any sequence of setting vertices, opening and closing, flipping, reindexing, partitioning and copying, the edges, segments, lengths, total '
     'length, size, text, dictionary and lines of a polyline are those of its current vertices and openness, and its edges cannot be written to. Malformed vertices are refused '
     'without effect, and copies are independent of their original.',
     ['histories'], 'all histories of changes up to a depth, for 0 to 12 vertices, open and closed',
     'The tests check each operation on its own; consistency after combinations, on empty and one-vertex polylines, is not reached.',
     ['geometry/primitives/polyline.py'], [('edge update', 'geometry/primitives/polyline.py:Polyline._update_edges')],
     'explicit enumeration of change histories on the real object against a reference model', MC, 'All histories of 3 (thorough 4) operations out of 21.',
     state=[('v, closed, e', 'vertices, openness and derived edges', 'geometry/primitives/polyline.py:Polyline')])
prop('C13', 'Partitioning a polyline by length bounds segments and keeps its shape',
     'Partitioning by a maximal length leaves no segment longer than it, splits each original segment into the least number of equal parts, keeps every '
     'original vertex in place and order, and reports where each ended up. Openness is kept, and partitioning again by the same or a greater length changes nothing.',
     ['inputs'], 'all small lattice polylines, open and closed, with repeated points, and all maximal lengths of a set with exact multiples',
     'The tests partition three polylines; counts at exact multiples, zero-length and closing segments and indices need all combinations.',
     ['geometry/primitives/polyline.py', 'geometry/segment.py'], [('partition_by_length', 'geometry/primitives/polyline.py:Polyline.partition_by_length')],
     ENUM + 'exact subdivision', EX, 'Polylines of up to 4-5 vertices on lattices; chains of 12.')
prop('C14', 'Cutting a polyline by a plane keeps exactly the part in front',
     'For a polyline without vertices on the plane (other than the ends of an open one), the crossed edges and exact crossing points are reported in edge order; cutting returns a new open '
     'polyline of exactly the part in front, in the original order, starting or ending at the crossing points. Cutting is refused unless an open polyline '
     'is crossed exactly once and a closed one exactly twice, and the original is not changed.',
     ['inputs'], 'all side patterns of up to 8 (12) vertices and all small lattice polylines, open and closed',
     'The tests cut a few squares and paths; where the run in front starts relative to the first vertex decides the outcome.',
     ['geometry/primitives/polyline.py', 'geometry/primitives/plane.py'], [('cut_by_plane', 'geometry/primitives/polyline.py:Polyline.cut_by_plane'),
                                                                          ('intersect_plane', 'geometry/primitives/polyline.py:Polyline.intersect_plane')],
     ENUM + 'exact intersections and runs', EX, 'Every side pattern up to the bound against 6 planes.')
prop('C15', 'Reindexing a closed polyline rotates it and reports where edges went',
     'Reindexing a closed polyline gives a new closed polyline with the same cyclic sequence of vertices starting at the chosen one, and the edge mapping '
     'names for every new edge the original edge it is. Any chain of reindexings is one reindexing, and an open polyline refuses without being changed.',
     ['inputs', 'histories'], 'all small polylines, all indices, all pairs of successive reindexings',
     'One test reindexes one polyline; wrap-around at every index and repeated reindexing are not covered.',
     ['geometry/primitives/polyline.py'], [('reindexed', 'geometry/primitives/polyline.py:Polyline.reindexed')],
     ENUM + 'list rotation', EX, 'Indices from 0 to the number of vertices.')
prop('C16', 'Rigid fits are proper rotations with the least possible error',
     'For any two corresponding point sets, in either layout, the rigid transform found is a proper rotation and a translation with the least squared '
     'error possible, recovering an exact motion, also of planar, colinear or single points; where only a reflection would fit it is refused. The rotation about the '
     'origin is likewise the best proper rotation, scaled by the ratio of sizes if scaling is allowed, a single point being turned the shortest way; translating by default centres points on the origin, '
     'or moves them by the given vector, and reports the vector used. A fit shown in a viewer is the same fit, shown with both sets and the image.',
     ['inputs'], 'all signed permutations and other rotations of solid, flat, colinear and single point sets, and all small displacements of them',
     'No test fits points at all; degenerate sets and near-reflections decide the branches.',
     ['geometry/transform/rigid_transform.py', 'geometry/transform/translation.py'],
     [('find_rigid_transform', 'geometry/transform/rigid_transform.py:find_rigid_transform'), ('find_rigid_rotation', 'geometry/transform/rigid_transform.py:find_rigid_rotation'),
      ('translation', 'geometry/transform/translation.py:translation')],
     ENUM + "Horn's quaternion optimum", EX, 'Three points in a 3x3 array are taken as columns, as documented.')
prop('C17', 'Vector shortcuts agree with exact vector algebra, singly and in stacks',
     'Normalising, measuring, projecting onto, rejecting from, dropping an axis, angles and signed angles, zero and collinearity tests, and homogeneous '
     'padding, unpadding and transformation give the exact answer for any vector, and for a stack of vectors the answer of every row. The signed angle is '
     'positive when turning counter-clockwise seen against the look direction, wrong shapes are refused, and arguments are not modified.',
     ['inputs'], 'all pairs of lattice vectors, all look directions, stacks of several sizes, other dimensions',
     'The tests try one or two vectors per function; signs of angles and stacked behaviour depend on every combination.',
     ['numerics/vector_shortcuts.py'], [('vx', 'numerics/vector_shortcuts.py')],
     ENUM + 'exact vector algebra', EX, 'Directions projected onto are not zero.')
prop('C18', 'Only finite numbers of the expected shape are accepted as numeric arrays',
     'Coercion accepts exactly sequences and arrays of finite real numbers that have the expected shape or, transposed, would have it, and returns them '
     'unchanged (or transposed) as an array of the type asked for; anything holding booleans, text, None, complex, infinite or not-a-number elements is '
     'refused wherever it stands, and absent input is accepted only if allowed. The predicates for numbers, numeric arrays and emptiness agree with that.',
     ['inputs'], 'all shapes, expected shapes, contents and positions of a bad element within the bounds',
     'The tests try a dozen inputs; combinations of shape, wildcard, transposition and one bad element are many more.',
     ['numerics/coercion.py', 'numerics/predicates.py'], [('as_numeric_array', 'numerics/coercion.py:as_numeric_array'), ('isnumeric', 'numerics/predicates.py:isnumeric')],
     ENUM + 'the rules of coercion', EX, 'Shapes of up to 3 axes; 15 kinds of bad element at every position.')
prop('C19', 'Sampled segments are evenly spaced with exact ends',
     'Sampling a segment gives the requested number of evenly spaced points starting exactly at the first end, with the other end included exactly when '
     'asked; sampling a chain does this to each of its segments in order, meeting every vertex, in any dimension and for zero-length segments. Sample counts '
     'that are not whole numbers of at least two are refused.',
     ['inputs'], 'all pairs of lattice points, all counts up to a bound, chains of all lattice points up to three',
     'The tests sample three segments; repeated points, counts and dimensions are not covered together.',
     ['geometry/segment.py'], [('partition_segment', 'geometry/segment.py:partition_segment'), ('partition', 'geometry/segment.py:partition')],
     ENUM + 'exact subdivision', EX, 'Lattice points; up to 33 samples.')
prop('C20', 'Line intersections are found exactly when they exist',
     'Two lines in the plane given by two points each meet at the exact point, or are reported parallel by not-a-number; two lines in space that meet '
     'yield the exact point wherever and in whatever order the given points lie on them, and parallel or identical lines yield none. The arguments are not modified.',
     ['inputs'], 'all pairs of lines through lattice points in the plane; all pairs of directions and point positions in space',
     'The tests intersect five pairs; the order and position of the given points on the lines matters and is not varied.',
     ['geometry/segment.py'], [('line_intersect', 'geometry/segment.py:line_intersect'), ('line_intersect3', 'geometry/segment.py:line_intersect3')],
     ENUM + 'exact rational intersections', EX, 'Skew lines are outside the property.')
prop('C21', 'Orthogonalised bases and changes of frame are exact',
     'Orthogonalising independent vectors gives mutually orthogonal vectors with the same successive spans, and orthonormalising gives unit ones (or '
     'unit only at the chosen indices); projections agree, whichever kind of real numbers holds them. The isomorphism between two frames maps every vector\'s coordinates in one to its coordinates in the other, and '
     'dependent frames or frames of different dimensions are refused with the specific error.',
     ['inputs'], 'all small sets of independent lattice vectors, all index subsets, all pairs of small frames',
     'The tests use three bases; near-dependence, index subsets and refusals need all combinations.',
     ['numerics/linalg/gram_schmidt.py', 'numerics/linalg/isomorphism.py'], [('orthogonalize', 'numerics/linalg/gram_schmidt.py:orthogonalize'),
                                                                            ('isomorphism', 'numerics/linalg/isomorphism.py:isomorphism')],
     ENUM + 'exact Gram-Schmidt and inverses', EX, 'Dimensions 2-6; frames over small integers.')
prop('C22', 'The sparse Cholesky factor reproduces its matrix, or failure is reported',
     'For every sparse symmetric positive definite matrix, of whatever kind of real numbers and however its entries are stored, the factor is lower triangular with positive diagonal, and its product with its transpose is the '
     'matrix reordered by the permutation returned beside it. A matrix that is not positive definite is reported with the column where it stops '
     'being so and the factor of the part before. The matrix given is not modified.',
     ['inputs'], 'all small symmetric matrices over a few values, all sparsity patterns of size 5, larger structured matrices',
     'The tests factor one matrix; the patterns decide ordering and fill-in, and failure needs indefinite inputs.',
     ['numerics/linalg/lchol.py', 'numerics/linalg/cholmod.c'], [('lchol', 'numerics/linalg/lchol.py:lchol'), ('extension', 'numerics/linalg/cholmod.c')],
     ENUM + 'exact definiteness and dense products', EX, 'Extension compiled from the current source on every run; size up to 5 exhaustive, up to 60 structured.')
prop('C23', 'Block sparse matrices and their solvers agree with the plain matrix',
     'However the rows and columns are split into sparse and dense, also if some are empty, whatever kinds of real numbers are given and however the entries are stored, products with vectors and matrices, products with the own transpose and the linear '
     'operator are those of the matrix itself, and the density figures, counts and index lists describe the actual split, in which, unless it is given, '
     'the rows and columns with fewer entries than the given share of the larger dimension are the sparse ones. Conjugate gradients solve every '
     'symmetric positive definite system from any start or none, and the preconditioned block solver solves them to its tolerance, also with empty rows '
     'and columns where the right-hand side is zero, and with dense ones. Arguments are not modified.',
     ['configurations', 'inputs'], 'all splits into dense and sparse rows and columns of small matrices, thresholds of larger ones, unit right-hand sides',
     'No test touches these; the four blocks and the empty ones only show mistakes for particular splits.',
     ['numerics/linalg/static_block_sparse_matrix.py', 'numerics/linalg/sparse_cg.py'],
     [('block split', 'numerics/linalg/static_block_sparse_matrix.py:StaticBlockSparseMatrix'), ('block_sparse_cg_solve', 'numerics/linalg/sparse_cg.py:block_sparse_cg_solve')],
     ENUM + 'dense linear algebra', EX, 'Every split of 14 matrices of up to 5x5; 12 larger ones.')
prop('C24', 'The convex hull of a planar curve is the hull, in the plane of the curve',
     'Convexifying a curve whose points span a plane gives a closed polyline of exactly the convex hull of its points (points in the interior of a hull edge optional), in order around it, '
     'or the hull vertices as points if asked, in the original plane, or if flattened congruently in a plane of constant height; a normal may be given or is '
     'estimated. Turning points to the horizontal plane is a proper rotation about their centre which takes the normal to +y, however little it is tilted. The curve given is not modified.',
     ['inputs'], 'all 3-5 points out of a grid that span a plane in 12 orientations, several positions, and larger curves with repeats',
     'One test convexifies one curve; orientation of the plane and position decide the rotation used.',
     ['geometry/convexify.py', 'geometry/transform/rotation.py'], [('convexify_planar_curve', 'geometry/convexify.py:convexify_planar_curve'),
                                                                  ('rotate_to_xz_plane', 'geometry/transform/rotation.py:rotate_to_xz_plane')],
     ENUM + 'an exact planar hull', EX, 'All 3-5 point subsets (thorough 6) of a 3x3 grid.')
prop('C25', 'Triangles: projections, normals and generated solids are exact',
     'Barycentric coordinates of a point projected onto a triangle sum to one and reproduce the orthogonal projection, and are finite even for a degenerate triangle, '
     'for each row of a stack independently; surface normals follow the right-hand rule, unit or scaled, for single triangles and stacks. Generated boxes, cubes, '
     'and triangular prisms (of whatever kinds of real numbers, with positive sizes, extending behind the base triangle) are closed surfaces with outward faces, the right corners and the right volume; the horizontal plane faces up; and the flattened form '
     'lists the corners of the faces.',
     ['inputs'], 'all pairs of lattice edge vectors and points, all placements of degenerate triangles in stacks, all sizes of a set',
     'The tests check two normals; no test projects a point or looks at the orientation of a solid.',
     ['geometry/barycentric.py', 'geometry/surface_normals.py', 'geometry/shapes.py'],
     [('barycentric', 'geometry/barycentric.py:barycentric_coordinates_of_projection'), ('surface_normal', 'geometry/surface_normals.py:surface_normal'),
      ('prisms', 'geometry/shapes.py:create_rectangular_prism')],
     ENUM + 'exact rational geometry', EX, 'quads_to_tris of the absent lace package is supplied by the harness.')
prop('C26', 'A box reports the extent of its current origin and shape',
     'Ranges, minima, middles, maxima, sides, centre and floor points, volume and surface area of an axis-aligned box are those of its origin and shape, '
     'for integers and floats, flat boxes included, and stay so through any assignment or in-place change of either. A negative side, or an origin or shape that is not '
     'three finite numbers, is refused.',
     ['inputs', 'histories'], 'all boxes over small sets of coordinates and sides; all histories of changes up to a depth',
     'No test exercises boxes at all.',
     ['geometry/primitives/box.py'], [('Box', 'geometry/primitives/box.py:Box')],
     'explicit enumeration of boxes and change histories against exact arithmetic', MC, 'All histories of 4 (thorough 6) changes out of 8.')
prop('C27', 'Differentiable normals have the right values and derivatives after any change',
     'Face normals (unit and scaled), edges, vertex normals (unit and sized), cross products and row normalisation of a mesh have the values and the full '
     'Jacobians given by their definitions wherever the normals are not zero. This stays true through any sequence of changing vertices in place, replacing them, feeding them '
     'through an expression, and changing faces or the size of the mesh, with or without reads in between.',
     ['inputs', 'histories'], 'all lists of one or two faces over four vertices, all change histories up to a depth',
     'No test touches these; cached pieces go stale only after particular changes.',
     ['optimization/objectives/normals.py'], [('VertNormals', 'optimization/objectives/normals.py:VertNormals.on_changed'),
                                              ('CrossProduct', 'optimization/objectives/normals.py:CrossProduct.compute_dr_wrt')],
     'explicit enumeration of meshes and change histories against complex-step derivatives', MC, 'All histories of 4 (thorough 5) changes.')
prop('C28', 'Console input asks until it has a number',
     'Reading a number or a quantity from the console shows the prompt (with label and units for a quantity), asks again after every answer that is not a number, consumes exactly '
     'the answers up to the first valid one and returns it, with the given units for a quantity. An empty answer (or the end of input) means nothing was entered where that is allowed; otherwise an '
     'empty answer is asked again and the end of input is an error.',
     ['histories'], 'all sessions of answers up to a length',
     'No test exercises the console.',
     ['console.py'], [('input_float', 'console.py:input_float'), ('input_value', 'console.py:input_value')],
     'explicit enumeration of input sessions against a reference dialogue', MC, 'All sessions of up to 4 (thorough 5) answers out of 12 (14).')
prop('C29', 'Extreme points and inflections of a point sequence are the true ones',
     'The apex along any direction is a point of the sequence (or polyline) with the greatest extent, and the farthest point from a given one is a point at the greatest '
     'distance together with its index. The inflection points of a curve that is monotonic along the span are, in order, exactly the vertices preceding a '
     'sign change (or zero) of the second finite difference of its height along the axis over its position along the span, whatever the orientation and the spacing of the vertices.',
     ['inputs'], 'all short sequences of lattice points and directions; all curves of small heights, several spacings and orientations',
     'The tests find one apex and one set of inflections with unit spacing.',
     ['geometry/apex.py', 'geometry/primitives/polyline.py'], [('apex', 'geometry/apex.py:apex'), ('inflection_points', 'geometry/apex.py:inflection_points')],
     ENUM + 'exact arithmetic', EX, 'Products within rounding of zero are judged on even spacing only.')
prop('C30', 'Calls are independent: no call changes its arguments or a later answer',
     'Throughout the library the answer of a call depends only on its arguments, whatever calls (refused ones included) came before it and whatever a caller did to '
     'the answers of earlier calls. No call changes its arguments, numpy\'s error settings, print options or random state.',
     ['histories', 'programs'], 'all pairs (and selected triples) of calls out of a catalogue covering every module, and all pairs of almost the same call or question to one object',
     'Each test makes its calls once in its own order; hidden shared state shows only for particular pairs.',
     ['units.py', 'geometry/primitives/polyline.py', 'geometry/transform/composite.py', 'numerics/operations.py', 'numerics/vector_shortcuts.py'],
     [('no shared mutable state', 'units.py:Units.default_units'), ('no in-place work on arguments', 'numerics/operations.py')],
     'explicit enumeration of call histories, each in a process of its own', MC, 'About 240 calls, all pairs; each call after almost the same call, each argument changed in turn or overwritten; all triples of 45 in the thorough tier.')
prop('C31', 'Array helpers compute exactly and never copy or write silently',
     'Safe division gives the exact quotient and the fill value where it is not finite; scaling maps the least to one end and the greatest to the other, linearly; '
     'two-operand expansion, row, column and sparse assembly (repeated cells add up) equal their dense definitions. Safe reshaping returns a view or refuses (or copies, if told to only warn), and '
     'arrays made read-only cannot be written. Arguments are otherwise not modified.',
     ['inputs'], 'all small arrays, shapes, memory layouts and cells within the bounds',
     'The tests cover two of these on single inputs.',
     ['numerics/operations.py', 'numerics/matlab.py', 'numerics/numpy_ext.py'], [('zero_safe_divide', 'numerics/operations.py:zero_safe_divide'),
                                                                               ('np_reshape_safe', 'numerics/numpy_ext.py:np_reshape_safe')],
     ENUM + 'exact arithmetic', EX, 'Arrays of up to a few elements including zeros, infinities and not-a-number.')

prop('C32', 'Calls made at the same time from several threads do not disturb each other',
     'Calls made from two threads at the same time answer as each does alone, whatever the interleaving, including the first calls of a process; an object which is only '
     'read may be shared by threads. Afterwards the settings of the process (numpy errors, warning filters, print options, random state) are as before. '
     'No answer depends on how numpy is set to treat floating-point errors.',
     ['schedules', 'inputs'], 'all interleavings of two calls with one preemption (and with two, for short calls) at the granularity of lines, thorough: of byte codes',
     'Tests run in one thread with one setting; a shared buffer shows only if the switch falls into a few lines.',
     ['units.py', 'numerics/predicates.py', 'geometry/transform/composite.py', 'geometry/transform/rodrigues.py', 'geometry/primitives/plane.py', 'geometry/primitives/polyline.py'],
     [('isnumeric', 'numerics/predicates.py:isnumeric'), ('Units', 'units.py:Units'), ('matrix_for', 'geometry/transform/composite.py:CompositeTransform.matrix_for')],
     'systematic exploration of thread schedules of the real code under a controlled scheduler', MC,
     'About 240 calls; one preemption everywhere, two where the product of the lengths is at most 600 (thorough 20000).')
prop('C33', 'Copies of objects answer as the original and are independent of it',
     'Quantities, planes, boxes, polylines, transforms, coordinate managers, unit tables and block sparse matrices can be copied, deep-copied and pickled. The copy answers every '
     'question as the original does at that moment; later changes to either (for a shallow copy: replacing an attribute) never show in the other.',
     ['histories'], 'all histories of a few changes before and after the copy, on either side, for every way of copying',
     'No test copies anything but a polyline through its own method.',
     ['value.py', 'geometry/primitives', 'geometry/transform/composite.py', 'geometry/transform/coordinate_manager.py', 'numerics/linalg/static_block_sparse_matrix.py'],
     [('CoordinateManager attributes', 'geometry/transform/coordinate_manager.py:CoordinateManager.__getattr__'), ('Value attributes', 'value.py:Value.__getattr__')],
     'explicit enumeration of change and copy histories against objects made anew', MC, 'Histories of 3 (thorough 5) changes, 13 objects.')

prop('C34', 'Answers depend on the numbers given, not on how they are stored, shared or typed',
     'Every function and method which takes arrays answers the same for arrays stored row by row, column by column, read backwards, spaced out, as part of a wider '
     'array, read-only, misaligned or of a subclass, with index arrays of any integer type, and for one array given for two arguments, as it does for separate '
     'plain arrays of the same numbers; and for whole numbers given as whole-number arrays or scalars of 32 or 64 bits, in any mixture, as for the same numbers with fractions (for single '
     'precision, to that precision). It changes none of them. (Safe reshaping alone refuses arrays which it would have to copy.)',
     ['inputs'], 'all assignments of 8 ways of storing to the array arguments of about 240 calls, all pairs of arguments given as one array, and all mixtures of kinds of number',
     'The tests only give freshly made arrays, stored row by row.',
     ['geometry', 'numerics', 'optimization/objectives/normals.py'],
     [('reshaping of stacks', 'numerics/vector_shortcuts.py:apply_homogeneous'), ('coercion', 'numerics/coercion.py:as_numeric_array')],
     ENUM + 'the answers for plain separate arrays', EX, 'One set of numbers for each call, all ways of storing it.')

prop('C35', 'Interrupted calls leave nothing half done',
     'A call which is interrupted at any point (by the exception for a key press, or for want of memory) leaves its arguments, the other objects and the settings '
     'of the process (numpy errors, warning filters, print options, random state) as they were, and later calls answer as ever, also where it was the first call of the '
     'process. An object which was being changed is as before or as after the change (a polyline has edges which match its vertices, a coordinate manager has the points '
     'of the tag it names, a transform has its inverse); one which was being asked something is as it was.',
     ['crash points', 'histories'], 'an interruption at every line which every call of the catalogue, every change and every question to every kind of object executes',
     'Tests run every call to its end.',
     ['geometry/primitives/polyline.py', 'geometry/transform/coordinate_manager.py', 'geometry/transform/composite.py', 'units.py', 'value.py', 'numerics/operations.py'],
     [('Polyline setters', 'geometry/primitives/polyline.py:Polyline._update'), ('CoordinateManager setter', 'geometry/transform/coordinate_manager.py:CoordinateManager.__setattr__'),
      ('append_transform4', 'geometry/transform/composite.py:CompositeTransform.append_transform4'), ('zero_safe_divide', 'numerics/operations.py:zero_safe_divide')],
     'systematic fault injection at every line of the real code', MC, 'About 240 calls, 13 objects; a point is a line of blmath.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _, _, _ in P:
            f.write(json.dumps(p) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': [{'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                    'technique': technique, 'level': level, 'level_note': note} for p, technique, level, note in P],
        'not_applicable': [],
        'notes': 'Every check runs the real code from the working tree of /repo in forked worker processes; see DESIGN.md.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
