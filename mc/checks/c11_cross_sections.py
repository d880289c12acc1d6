import itertools
from fractions import Fraction as F

import numpy as np
from scipy.spatial import cKDTree

from mc.engine import Families, require
from mc.lib import add, dot, fv, mul, require_close, sub

PROPERTY = 'C11'
LEVEL = 'exploration'
BOUNDS = {
    'quick': 'every subset of the faces x every side of every vertex for the tetrahedron, the square pyramid, the triangle, a pair of triangles, '
             'a five-triangle strip, two tetrahedra (one whole) and the octahedron (first vertex in front); every '
             'side pattern of the whole cube, 3x3 grid, annulus and Moebius band; 5x5 and 8x8 terrains at every threshold; '
             '4 planes, 4 face layouts, 3 index types in rotation; every neighborhood which singles a component out; '
             'likewise: meshes in units of 2^-58, 2^-20, 2^16 and 2^57 and 2^20 away, five index types',
    'thorough': 'as quick, plus every subset x every pattern of the octahedron, of two tetrahedra and of the 3x3 grid, and every plane, layout and index type '
                'for the small meshes',
}
RULE = ('every face subset and every vertex side pattern of small edge-manifold meshes against the components of the exact section graph; '
        'a state is a mesh and a pattern; non-trivial when the plane cuts it')
ASSUMPTIONS = ['no vertex lies on the plane', 'every edge has at most two faces',
               'a neighborhood is judged when all of one component is nearer to it than anything of the other components']
FAMILIES = Families()


class Mesh(object):
    def __init__(self, v, f):
        self.v = v
        self.f = f


def grid_mesh(n, m):
    def at(i, j):
        return i * m + j
    faces = []
    for i in range(n - 1):
        for j in range(m - 1):
            a, b, c, d = at(i, j), at(i, j + 1), at(i + 1, j + 1), at(i + 1, j)
            faces += [(a, b, c), (a, c, d)] if (i + j) % 2 == 0 else [(a, b, d), (b, c, d)]
    return faces


def band(n, twist):
    """A closed strip of 2n triangles over n rungs; twisted once or not."""
    faces = []
    for i in range(n):
        a, b = 2 * i, 2 * i + 1
        c, d = (2 * i + 2, 2 * i + 3) if i + 1 < n else ((1, 0) if twist else (0, 1))
        faces += [(a, b, c), (b, d, c)]
    return faces


TETRA = [(0, 1, 2), (0, 2, 3), (0, 3, 1), (1, 3, 2)]
MESHES = {
    'triangle': [(0, 1, 2)],
    'two triangles': [(0, 1, 2), (1, 3, 2)],
    'separate triangles': [(0, 1, 2), (3, 4, 5)],
    'tetrahedron': TETRA,
    'pyramid': [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4), (0, 2, 1), (0, 3, 2)],
    'strip': [(0, 1, 2), (1, 3, 2), (2, 3, 4), (3, 5, 4), (4, 5, 6)],
    'octahedron': [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1), (5, 2, 1), (5, 3, 2), (5, 4, 3), (5, 1, 4)],
    'tetrahedra': TETRA + [tuple(x + 4 for x in f) for f in TETRA],
    'cube': [(0, 1, 2), (0, 2, 3), (4, 6, 5), (4, 7, 6), (0, 5, 1), (0, 4, 5), (1, 6, 2), (1, 5, 6), (2, 7, 3), (2, 6, 7), (3, 4, 0), (3, 7, 4)],
    'grid': grid_mesh(3, 3),
    'annulus': band(5, False),
    'moebius': band(5, True),
}
SPOTS = [(0, 0), (4, 0), (4, 5), (-1, 4), (-6, 1), (-3, -5), (2, -7), (7, -3), (9, 3), (1, 9), (-8, 8), (-9, -3), (5, -9)]


def spot(i):
    """Distinct places in the plane, no three in a line that matters."""
    if i < len(SPOTS):
        return SPOTS[i]
    return (i * i % 31 - 15, i * 7 % 29 - 14)


# normal, two directions in the plane, a point of the plane
PLANES = [
    ((0, 0, 1), (1, 0, 0), (0, 1, 0), (0, 0, 0)),
    ((-1, 0, 0), (0, 1, 0), (0, 0, 1), (2.5, -1, 3)),
    ((1, 2, 2), (2, 1, -2), (2, -2, 1), (1, -4, 0.5)),
    ((2, -3, 6), (3, 2, 0), (6, 3, -0.5), (100, 20, -30)),
    # far from the origin, and very small (reached by the terrains, the rings and the whole meshes)
    ((1, 2, 2), (2, 1, -2), (2, -2, 1), (2.**20, -2.**19, 300000)),
    ((2.**-20, 0, 0), (0, 2.**-20, 0), (0, 0, 2.**-20), (0, 2.**-18, 0)),
    ((0, -2.**16, 0), (2.**16, 0, 0), (0, 0, 2.**16), (-1, 2.**17, 0.5)),
    ((2.**-58, 0, 0), (0, 2.**-58, 0), (0, 0, 2.**-59), (0, 2.**-57, 0)),
    ((0, 2.**57, 2.**57), (2.**57, 0, 0), (0, -2.**56, 2.**56), (0, 2.**57, -2.**58)),
]
KINDS = [np.int64, np.uint32, np.uint64, np.int32, np.uint16]


def count(name):
    return 1 + max(max(f) for f in MESHES[name])


def subsets(faces):
    for mask in range(1, 1 << len(faces)):
        yield mask


def small(tier):
    i = 0
    for name in ('triangle', 'two triangles', 'separate triangles', 'tetrahedron', 'pyramid', 'strip', 'octahedron'):
        faces = MESHES[name]
        for mask in subsets(faces):
            for pattern in itertools.product((1, 0), repeat=count(name)):
                if name == 'octahedron' and tier == 'quick' and not pattern[0]:
                    continue
                side = int(''.join(map(str, pattern)), 2)
                i += 1
                if tier == 'thorough' and name != 'octahedron':
                    for plane in range(4):
                        for layout in range(4):
                            for kind in range(3):
                                yield (name, mask, side, plane, layout, kind)
                else:
                    yield (name, mask, side, i % 4, i // 4 % 4, i // 16 % 3)


@FAMILIES.family(small)
def face_subset(ctx, name, mask, side, plane, layout, kind):
    faces = [f for k, f in enumerate(MESHES[name]) if mask >> k & 1]
    n = count(name)
    sides = [side >> k & 1 for k in range(n)]
    run(ctx, (name, mask, side), faces, [spot(i) for i in range(n)], heights(sides), plane, layout, kind)


def heights(sides):
    return [F(4 + i % 5, 4) if s else F(-(3 + (2 * i) % 7), 4) for i, s in enumerate(sides)]


def whole(tier):
    i = 0
    for name in ('cube', 'grid', 'annulus', 'moebius', 'tetrahedra'):
        for side in range(1 << count(name)):
            i += 1
            yield (name, side, i % 9, i // 9 % 4, i // 36 % 5)


@FAMILIES.family(whole)
def whole_mesh(ctx, name, side, plane, layout, kind):
    n = count(name)
    sides = [side >> k & 1 for k in range(n)]
    run(ctx, (name, side), MESHES[name], [spot(i) for i in range(n)], heights(sides), plane, layout, kind)


def pairs(tier):
    i = 0
    for mask in range(1, 256):
        if tier == 'quick' and mask >> 4 != 15:
            continue
        for side in range(1, 255):
            i += 1
            yield (mask, side, i % 4, i // 4 % 4, i // 16 % 3)


@FAMILIES.family(pairs)
def separate_pieces(ctx, mask, side, plane, layout, kind):
    face_subset(ctx, 'tetrahedra', mask, side, plane, layout, kind)


def open_grids(tier):
    if tier != 'thorough':
        return
    i = 0
    for mask in range(1, 256):
        for side in range(512):
            i += 1
            yield (mask, side, i % 4, i // 4 % 4, i // 16 % 3)


@FAMILIES.family(open_grids)
def grid_subset(ctx, mask, side, plane, layout, kind):
    face_subset(ctx, 'grid', mask, side, plane, layout, kind)


TERRAINS = {
    'bumps': lambda x, y: 3 * ((x * 5 + y * 3) % 7) - 9,
    'saddle': lambda x, y: (x - 3) * (y - 2),
    'cone': lambda x, y: 12 - (x - 3) ** 2 - (y - 3) ** 2,
    'checks': lambda x, y: 5 if (x + y) % 2 else -5,
    'spots': lambda x, y: 9 if x % 2 and y % 2 else -2,
    'ramp': lambda x, y: 2 * x - y,
}


def terrain_cases(tier):
    for name in sorted(TERRAINS):
        for size in (5, 8) if tier == 'quick' else (4, 5, 8, 12):
            for level in range(-12, 13, 2 if tier == 'quick' else 1):
                for plane in range(9):
                    yield (name, size, level, plane)


@FAMILIES.family(terrain_cases)
def terrain(ctx, name, size, level, plane):
    fn = TERRAINS[name]
    spots = [(4 * i, 4 * j) for i in range(size) for j in range(size)]
    h = [F(fn(i, j)) - level + F(1, 2) for i in range(size) for j in range(size)]
    run(ctx, (name, size, level), grid_mesh(size, size), spots, h, plane, level % 4, (level + plane) % 5)


def around(n, radius):
    """n places on a square ring, in order."""
    side = -(-n // 4)
    ring = [(radius * (2 * (i % side) - side), -radius * side) for i in range(side)]
    return [p for turn in ((1, 0, 0, 1), (0, -1, 1, 0), (-1, 0, 0, -1), (0, 1, -1, 0))
            for p in [(turn[0] * x + turn[1] * y, turn[2] * x + turn[3] * y) for x, y in ring]][:n]


def rings(tier):
    sizes = (4, 60, 128, 129, 300, 1000) if tier == 'quick' else (4, 60, 127, 128, 129, 130, 300, 1000, 5000)
    for n in sizes:
        for gap in (0, F(1, 1 << 6), F(1, 1 << 14), F(1, 1 << 22), None):
            for plane in range(9):
                if gap != F(1, 1 << 22) or plane not in (4,):
                    yield (n, None if gap is None else float(gap), plane)
    for n in (33000,) if tier == 'quick' else (33000, 40000):
        yield (n, 0, 2)
        yield (n, 2.**-6, 0)


@FAMILIES.family(rings)
def ring(ctx, n, gap, plane):
    """A long strip around a square: closed, open with ends that almost meet, or
    (None) with a quarter of it missing."""
    spots = around(n, 2)
    if gap == 0:
        faces, where = band(n, False), spots
    elif gap is None:
        keep = n - n // 4
        faces, where = band(keep, False)[:-2], spots[:keep]
    else:
        faces = band(n + 1, False)[:-2]
        where = spots + [(spots[0][0], spots[0][1] + F(gap))]
    count = 1 + max(max(f) for f in faces)
    # rung i: vertices 2i in front and 2i + 1 behind, straight through the plane
    at = [where[i // 2] for i in range(count)]
    h = [F(1 + i // 2 % 3, 2) if i % 2 == 0 else F(-1 - i // 2 % 3, 2) for i in range(count)]
    kind = n % len(KINDS) if n < 20000 else n % 4
    run(ctx, (n, gap), faces, at, h, plane, n % 2, kind)


def run(ctx, key, faces, spots, h, plane, layout, kind):
    from blmath.geometry import Plane
    normal, e1, e2, origin = [fv(x) for x in PLANES[plane]]
    v = [add(add(origin, mul(normal, z)), add(mul(e1, F(x)), mul(e2, F(y)))) for (x, y), z in zip(spots, h)]
    order = list(faces)
    if layout & 1:
        order = order[::-1]
    turned = []
    for k, f in enumerate(order):
        f = list(f)
        if layout & 2:
            f = f[k % 3:] + f[:k % 3]
            if k % 2:
                f = f[::-1]
        turned.append(f)
    vf = np.array([[float(x) for x in p] for p in v])
    ff = np.array(turned, dtype=KINDS[kind])
    mesh = Mesh(vf, ff)
    # a normal shorter than 1e-8 counts as no direction
    n = np.array([float(x) for x in normal])
    cut = Plane(np.array([float(x) for x in origin]), n * (2.**58 if np.abs(n).max() < 1e-8 else 1.))
    before = vf.copy(), ff.copy()
    crossing = [f for f in turned if len(set(h[i] > 0 for i in f)) == 2]
    got_faces = cut.mesh_intersecting_faces(mesh)
    require(sorted(map(tuple, got_faces.tolist())) == sorted(map(tuple, crossing)), '%s: faces cut by the plane: %s, expected %s',
            key, got_faces.tolist(), crossing)
    components, points = section(crossing, h, v)
    sections = cut.mesh_xsections(mesh)
    judge(key, sections, components, points)
    single = cut.mesh_xsection(mesh)
    if not components:
        require(len(single.v if single.v is not None else []) == 0, '%s: no section, but vertices', key)
    else:
        require_close(single.v, np.vstack([p.v for p in sections]).tolist(), '%s: one polyline of all components', key)
        require(single.closed, '%s: the single polyline is closed', key)
    ctx.step(3)
    for which, hood in neighborhoods(components, points):
        near = cut.mesh_xsections(mesh, neighborhood=hood)
        require(len(near) == 1, '%s: %d components near a neighborhood', key, len(near))
        judge(key, near, [components[which]], points)
        require_close(cut.mesh_xsection(mesh, neighborhood=hood).v, near[0].v.tolist(), '%s: one polyline near a neighborhood', key)
        ctx.step(2)
    require(np.array_equal(vf, before[0]) and np.array_equal(ff, before[1]), '%s: the mesh was changed', key)
    ctx.outcome(min(len(components), 4), sum(1 for c in components if c[1]) > 0, sum(1 for c in components if not c[1]) > 0)
    if components:
        ctx.state(key)


def section(crossing, h, v):
    """Components of the section graph: nodes are the cut edges, links the cut faces."""
    links = {}
    for f in crossing:
        cut = [frozenset(e) for e in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0])) if (h[e[0]] > 0) != (h[e[1]] > 0)]
        a, b = cut
        links.setdefault(a, set()).add(b)
        links.setdefault(b, set()).add(a)
    points = {}
    for e in links:
        i, j = sorted(e)
        t = h[i] / (h[i] - h[j])
        points[e] = np.array([float(x) for x in add(v[i], mul(sub(v[j], v[i]), t))])
    components = []
    left = set(links)
    while left:
        start = next(iter(sorted(left, key=sorted)))
        todo, nodes = [start], set()
        while todo:
            x = todo.pop()
            if x not in nodes:
                nodes.add(x)
                todo += links[x]
        left -= nodes
        closed = all(len(links[x]) == 2 for x in nodes)
        components.append((nodes, closed, {x: links[x] for x in nodes}))
    return components, points


def judge(key, sections, components, points):
    require(len(sections) == len(components), '%s: %d sections, expected %d', key, len(sections), len(components))
    names = list(points)
    where = np.array([points[e] for e in names]) if names else np.zeros((0, 3))
    scale = np.abs(where).max() if names else 1.0
    tree = cKDTree(where) if len(names) > 200 else None
    left = list(components)
    for line in sections:
        path = []
        for p in line.v:
            if tree is not None:
                d, i = tree.query(p, p=np.inf)
            else:
                d = np.abs(where - p).max(axis=1)
                i = int(np.argmin(d))
                d = d[i]
            require(d <= 1e-9 * scale, '%s: %s is not a point where an edge meets the plane', key, p)
            path.append(names[i])
        match = [c for c in left if path and path[0] in c[0]]
        require(len(match) == 1, '%s: a component twice or a wrong one', key)
        nodes, closed, links = match[0]
        left.remove(match[0])
        require(len(path) == len(nodes) and set(path) == nodes, '%s: a section visits %s, expected each of %s once', key,
                [sorted(x) for x in path], sorted(map(sorted, nodes)))
        require(bool(line.closed) == closed, '%s: closed %s, expected %s', key, line.closed, closed)
        for a, b in zip(path, path[1:]) if not closed else zip(path, path[1:] + path[:1]):
            require(b in links[a], '%s: consecutive points %s and %s share no face', key, sorted(a), sorted(b))


def neighborhoods(components, points):
    """Each component as its own neighborhood, and some single points, where the answer is beyond doubt."""
    if not components or len(components) > 6 or len(points) > 500:
        return
    clouds = [np.array([points[e] for e in sorted(c[0], key=sorted)]) for c in components]
    hoods = [c.mean(axis=0)[np.newaxis] for c in clouds] + [c for c in clouds] + [c[:1] + 0.01 for c in clouds]
    for hood in hoods:
        far, near = [], []
        for c in clouds:
            d = np.sqrt(((c[:, None, :] - hood[None]) ** 2).sum(axis=2)).min(axis=1)
            far.append(d.max())
            near.append(d.min())
        best = int(np.argmin(far))
        if all(far[best] < 0.999 * near[k] for k in range(len(clouds)) if k != best):
            yield best, hood
