"""C21 clip, extrude, volume, area and centre of mass"""
import numpy as np
from vmon import gen, geo
from vmon.checks import c10

PROP = 'C21'
RULE = ('triangulated surfaces in the plane and in space: closed and open, star-shaped and toroidal, convex or not, several components, any position; cut by planes generic, through vertices and missing the '
        'mesh; results are compared with exact polygon clipping, the divergence theorem and signed tetrahedra; a state is one (surface, plane)')
REQUIRED = {'clip-moments': 150, 'clip-side': 100, 'clip-boundary': 40, 'split': 60, 'solid': 60, 'extrude': 40, 'surface': 60, 'gradient': 40}


def sphere(rng):
    m = c10.mesh(rng, closed=True)
    cells, x = m['cells'], c10.unit(m['x'])
    if signed_volume(x, cells) < 0:
        cells = cells[:, ::-1]
    f = 1.
    how = rng.integers(4)
    if how == 1:                                                 # star-shaped, concave
        f = np.exp(rng.normal(size=(len(x), 1)) * rng.choice([.1, .4]))
    elif how == 2:
        f = np.exp(rng.normal(size=3))[None]
    return x * f, np.array(cells)


def torus(rng):
    a, b = rng.integers(3, 9, size=2)
    g = gen.grid_surface('torus', a, b)
    cells = np.array(g[0])
    u, v = np.meshgrid(np.arange(a) / a * 2 * np.pi, np.arange(b) / b * 2 * np.pi, indexing='ij')
    x = np.stack([(2 + .8 * np.cos(v)) * np.cos(u), (2 + .8 * np.cos(v)) * np.sin(u), .8 * np.sin(v)], axis=-1).reshape(-1, 3)
    cells = gen.orient(cells)
    if len(x) != cells.max() + 1:
        return sphere(rng)
    if signed_volume(x, cells) < 0:
        cells = cells[:, ::-1]
    return x, np.array(cells)


def large(rng, more=False):
    """more vertices than fit in a signed, more triangles than fit in an unsigned 16 bit integer; closed, or open, outward"""
    a, b = int(rng.integers(180, 260)) + 180 * more, int(rng.integers(185, 200))
    closed = rng.random() < .6
    i, j = np.meshgrid(np.arange(a if closed else a - 1), np.arange(b), indexing='ij')
    q = [(((i + k) % a) * b + (j + l) % b).ravel() for k, l in ((0, 0), (1, 0), (1, 1), (0, 1))]
    t = np.concatenate([np.stack([q[0], q[1], q[2]], 1), np.stack([q[0], q[2], q[3]], 1)])
    u, v = np.meshgrid(np.arange(a) / a * 2 * np.pi, np.arange(b) / b * 2 * np.pi, indexing='ij')
    r = .8 + .05 * np.cos(5 * u) + .05 * np.sin(3 * v + 2 * u)
    x = np.stack([(2 + r * np.cos(v)) * np.cos(u), (2 + r * np.cos(v)) * np.sin(u), r * np.sin(v)], axis=-1).reshape(-1, 3)
    if signed_volume(x, t) < 0:
        t = t[:, ::-1]
    t = gen.even_permutations(rng, t[rng.permutation(len(t))])
    x = x.dot(geo.rotation(rng, 3).T) * np.exp(rng.normal())
    names = rng.permutation(len(x))
    return np.ascontiguousarray(x[names]), np.ascontiguousarray(np.argsort(names)[t], dtype=np.int32), closed


def cube(rng):
    c = gen.cube_boundary_cells(3).reshape(-1, 4)
    tri = np.concatenate([c[:, [0, 1, 2]], c[:, [2, 1, 3]]])
    x = np.array(np.meshgrid([0, 1], [0, 1], [0, 1], indexing='ij'), float).reshape(3, -1).T
    tri = gen.orient(tri)
    if signed_volume(x, tri) < 0:
        tri = tri[:, ::-1]
    return x * np.exp(rng.normal(size=3)), np.array(tri)


def solid(rng, place=True):
    """closed, outward oriented surface in space"""
    parts = []
    for k in range(rng.choice([1, 1, 1, 2])):
        x, t = [sphere, sphere, torus, cube][rng.integers(4)](rng)
        parts.append((x + 10 * k, t))
    x = np.concatenate([p[0] for p in parts])
    t = gen.disjoint(*[p[1] for p in parts])
    if place:
        x = x.dot(geo.rotation(rng, 3).T) * np.exp(rng.normal() * 2)
        x = x + rng.normal(size=3) * np.ptp(x, axis=0).max() * rng.choice([0, 1, 20])
    t = gen.even_permutations(rng, gen.shuffle_cells(rng, t))
    return np.ascontiguousarray(x), np.ascontiguousarray(t, dtype=np.int32)


def patch(rng, dim):
    """oriented open surface in two or three dimensions"""
    if dim == 2 or rng.random() < .6:
        while True:
            d = geo.euclidean(rng, n=2, weights=False)
            if d['x'].shape[1] in (2, dim):
                break
        x, t = d['x'], d['cells']
        if dim == 3 and x.shape[1] == 2:
            s = np.ptp(x, axis=0).max()
            z = np.zeros(len(x)) if rng.random() < .5 else np.cos(x[:, 0] / s * 3) * s * .3
            x = np.concatenate([x, z[:, None]], axis=1)
        if dim == 2:
            t = gen.positively_oriented(t, x)
        else:
            t = gen.orient(t)
        return np.ascontiguousarray(x), np.ascontiguousarray(t, dtype=np.int32)
    x, t = solid(rng)
    keep = gen.facet_connected_subset(rng, 'simplex', t, int(rng.integers(1, len(t))))
    t, u = gen.compact(t[keep] if np.ndim(keep) == 1 else keep)
    return np.ascontiguousarray(x[u]), np.ascontiguousarray(t, dtype=np.int32)


def signed_volume(x, t):
    o = x.mean(0)
    return np.linalg.det(x[t] - o).sum() / 6


def build(x, t):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian, ComplexTriangularEuclidian2, ComplexTriangularEuclidian3
    cls = ComplexTriangularEuclidian2 if x.shape[1] == 2 else ComplexTriangularEuclidian3
    return cls(vertices=x.copy(), triangles=t.copy())


def vector_area(tri):
    a, b = tri[..., 1, :] - tri[..., 0, :], tri[..., 2, :] - tri[..., 0, :]
    if tri.shape[-1] == 2:
        return (a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0])[..., None] / 2
    return np.cross(a, b) / 2


def moments(tri, o):
    """area, vector area, first and second moment of triangles [m, 3, d] about a point"""
    tri = tri - o
    V = vector_area(tri)
    A = np.linalg.norm(V, axis=-1)
    c = tri.mean(axis=-2)
    mid = np.stack([(tri[:, 0] + tri[:, 1]) / 2, (tri[:, 1] + tri[:, 2]) / 2, (tri[:, 2] + tri[:, 0]) / 2], axis=1) if len(tri) else tri
    second = np.einsum('t,tmi,tmj->ij', A, mid, mid) / 3
    return A.sum(), V.sum(0), A.dot(c), second


def clip_reference(x, t, support, normal):
    """triangles of the part of the mesh below the plane"""
    out = []
    h = (x - support).dot(normal)
    for c in t:
        poly = []
        for i in range(3):
            a, b = c[i], c[(i + 1) % 3]
            if h[a] <= 0:
                poly.append(x[a])
            if (h[a] <= 0) != (h[b] <= 0):
                s = h[a] / (h[a] - h[b])
                poly.append(x[a] + s * (x[b] - x[a]))
        for i in range(1, len(poly) - 1):
            out.append([poly[0], poly[i], poly[i + 1]])
    return np.array(out).reshape(-1, 3, x.shape[1])


def plane(rng, x):
    d = x.shape[1]
    n = rng.normal(size=d) * np.exp(rng.normal())
    how = rng.choice(['generic', 'vertex', 'axis', 'miss', 'edge'], p=[.5, .15, .15, .1, .1])
    if how == 'axis':
        n = np.eye(d)[rng.integers(d)] * rng.choice([-1, 1])
    if how == 'vertex':
        s = x[rng.integers(len(x))]
    elif how == 'edge':
        a, b = x[rng.choice(len(x), 2, replace=False)]
        s = a
        e = (b - a) / np.linalg.norm(b - a)
        n = n - n.dot(e) * e
    elif how == 'miss':
        s = x.mean(0) + n * (np.ptp(x, axis=0).max() * 3 + np.abs((x - x.mean(0)).dot(n)).max()) / n.dot(n) * 1.1
    else:
        s = x[rng.choice(len(x), 3)].mean(0)
    if rng.random() < .15:
        n = n * 10. ** rng.uniform(-12, 12)
    return s, n, how


def case_clip(mon, rng, i, mesh=None, cut=None):
    dim = int(rng.choice([2, 3], p=[.4, .6]))
    closed = dim == 3 and rng.random() < .6
    if mesh is None:
        x, t = solid(rng) if closed else patch(rng, dim)
        if rng.random() < .15:                                   # in other units
            x = x * 10. ** rng.uniform(-9, 9)
    else:
        x, t, closed = mesh
    s, n, how = plane(rng, x) if cut is None else cut
    if not (0 < np.linalg.norm(n) < np.inf):
        return
    mon.state(x, t, s, n)
    mon.note(dim=dim, closed=closed, cells=len(t), plane=how)
    c = build(x, t)
    size, far = np.ptp(x, axis=0).max(), np.abs(x).max()
    eps = 1e-14 * far / size + 1e-14
    o = x.mean(0)
    ref = {+1: clip_reference(x, t, s, n), -1: clip_reference(x, t, s, -n)}
    scale = max(moments(x[t], o)[0], 1e-200)
    arg = [(tuple(s), tuple(n)), (s, n), (list(s), list(n))][rng.integers(3)]

    def compare(oracle, tri, want, what):
        a, b = moments(tri, o), moments(want, o)
        for k, (p, q, u) in enumerate(zip(a, b, (0, 0, 1, 2))):
            mon.close(oracle, np.asarray(p), q, rtol=0, atol=1e3 * eps * scale * size ** u, moment=k, what=what)

    split = c.clip(*arg, clip=False)
    mon.check('split', type(split) is type(c))
    tri = split.vertices[split.topology.elements[-1]]
    compare('split', tri, x[t], 'whole')
    h = (tri - s).dot(n) / np.linalg.norm(n)
    tol = 1e3 * eps * size
    mon.check('split', bool(np.all((h.min(1) >= -tol) | (h.max(1) <= tol))), what='triangles cross the plane', worst=np.minimum(-h.min(1), h.max(1)).max())
    top = split.topology
    mon.eq('split', int(top.n_elements[0]) - int(top.n_elements[1]) + int(top.n_elements[2]), int(c.topology.n_elements[0]) - int(c.topology.n_elements[1]) + int(c.topology.n_elements[2]), what='euler')
    mon.check('split', bool(top.is_oriented) and bool(top.is_closed) == bool(c.topology.is_closed), what='orientation, closedness')

    if len(ref[1]) == 0 or not np.any((x[t] - s).dot(n).max(1) <= 0) and not np.any((x - s).dot(n) < 0):
        mon.skip('nothing left')
        return
    got = c.clip(*arg)
    mon.check('clip-side', type(got) is type(c))
    tri = got.vertices[got.topology.elements[-1]]
    h = (got.vertices - s).dot(n) / np.linalg.norm(n)
    mon.check('clip-side', bool(h.max() <= tol), worst=h.max())
    compare('clip-moments', tri, ref[1], 'below')
    mon.check('clip-side', bool(got.topology.is_oriented), what='orientation')
    if closed:
        b = got.topology.boundary
        if b is not None and not got.topology.is_closed:
            v = b.parent_idx[0]
            mon.check('clip-boundary', bool(np.abs(h[v]).max() <= tol), worst=np.abs(h[v]).max())
            mon.check('clip-boundary', bool(b.is_closed))
        # the clipped surface and its mirror enclose complementary volumes, seen from a point on the plane
        if np.any((x - s).dot(n) > 0):
            other = c.clip(s, -n)
            v0, v1 = got.translate(-s).volume(), other.translate(-s).volume()
            mon.close('solid', v0 + v1, signed_volume(x, t), rtol=0, atol=1e4 * eps * scale * np.abs(x - s).max(), what='complementary')
            mon.check('solid', cut is not None or v0 >= -1e4 * eps * scale * size, volume=v0)   # a rough surface crosses itself


def moment_of_solid(x, t):
    o = x.mean(0)
    y = x[t] - o
    v = np.linalg.det(y) / 6
    return v.sum(), o + (v[:, None] * y.sum(1) / 4).sum(0) / v.sum()


def case_solid(mon, rng, i, mesh=None):
    x, t = mesh or solid(rng)
    mon.state(x, t)
    mon.note(cells=len(t))
    flip = rng.random() < .2
    c = build(x, t[:, ::-1] if flip else t)
    size, far = np.ptp(x, axis=0).max(), np.abs(x).max()
    eps = 1e-12 * far / size + 1e-12
    V, com = moment_of_solid(x, t)
    A = np.linalg.norm(vector_area(x[t]), axis=-1).sum()
    mon.close('solid', c.volume(), -V if flip else V, rtol=0, atol=eps * A * far * 10, what='volume')
    mon.close('solid', c.area(), A, rtol=1e-9 + eps, what='area')
    mon.close('solid', c.center_of_mass(), com, rtol=0, atol=1e2 * eps * far * A * far / V, what='centre')
    if not flip:
        p = c.subdivide_loop()
        mon.close('solid', p.volume(), V, rtol=0, atol=eps * A * far * 40, what='subdivided')
        mon.close('solid', p.center_of_mass(), com, rtol=0, atol=1e2 * eps * far * A * far / V, what='subdivided centre')


def case_surface(mon, rng, i, mesh=None):
    x, t = mesh or (solid(rng) if rng.random() < .5 else patch(rng, 3))
    if geo.flatness(x[t]).min() < 1e-3:
        mon.skip('slivers')
        return
    mon.state(x, t)
    mon.note(cells=len(t))
    c = build(x, t)
    tri = x[t]
    V = vector_area(tri)
    A = np.linalg.norm(V, axis=1)
    size, far = np.sqrt(A.min()), np.abs(x).max()
    tol = 1e-9 * (1 + (far / size) ** 2 * 1e-5)
    mon.close('surface', c.triangle_normals(), 2 * V, rtol=tol, what='normals')
    mon.close('surface', c.triangle_centroids(), tri.mean(1), rtol=tol, what='centroids')
    mon.close('surface', c.compute_triangle_areas, A, rtol=tol, what='areas')
    mon.close('surface', c.area(), A.sum(), rtol=tol, what='area')
    vn = np.zeros_like(x)
    va = np.zeros(len(x))
    for k in range(3):
        np.add.at(vn, t[:, k], 2 * V)
        np.add.at(va, t[:, k], A / 3)
    mon.close('surface', c.vertex_normals(), vn, rtol=tol, what='vertex normals')
    mon.close('surface', c.compute_vertex_areas, va, rtol=tol, what='barycentric areas')
    mon.close('surface', c.vertex_areas(), va, rtol=tol, what='vertex areas')
    e = c.topology.elements[1]
    mon.close('surface', c.edge_lengths(), np.linalg.norm(x[e[:, 0]] - x[e[:, 1]], axis=1), rtol=tol, what='edge lengths')
    ang = np.empty(tri.shape[:2])
    for k in range(3):
        a, b = tri[:, (k + 1) % 3] - tri[:, k], tri[:, (k + 2) % 3] - tri[:, k]
        ang[:, k] = np.arctan2(2 * A, (a * b).sum(1))
    mon.close('surface', c.compute_triangle_angles, ang, rtol=1e-6, what='angles')
    # cotangent formula
    cot = 1 / np.tan(ang)
    key = {tuple(sorted(q)): k for k, q in enumerate(e.tolist())}
    ratio = np.zeros(len(e))
    for k in range(3):
        for q, w in zip(t, cot[:, k]):
            ratio[key[tuple(sorted((q[(k + 1) % 3], q[(k + 2) % 3])))]] += w / 2
    mon.close('surface', c.compute_edge_ratio, ratio, rtol=0, atol=1e-5 * (1 + np.abs(cot).max() ** 2) * 1e-1, what='cotan')
    # volume is linear in the position of each vertex, with the vertex normal as slope
    if c.topology.is_closed:
        for k in rng.integers(len(x), size=3):
            d = rng.normal(size=3) * np.ptp(x, axis=0).max()
            y = x.copy()
            y[k] += d
            mon.close('gradient', (c.copy(vertices=y).volume() - c.volume()) * 6, d.dot(vn[k]), rtol=0, atol=1e-10 * A.sum() * far * 100)


def case_extrude(mon, rng, i):
    x, t = patch(rng, 3)
    c = build(x, t)
    if c.topology.is_closed:
        mon.skip('closed')
        return
    mon.state(x, t)
    size = np.ptp(x, axis=0).max()
    how = int(rng.integers(3))
    d = rng.normal(size=3) * size
    y = x + d
    if how == 1:
        y = (x - x[0]).dot(geo.rotation(rng, 3).T) * np.exp(rng.normal()) + x[0] + d
    elif how == 2:
        y = y + rng.normal(size=x.shape) * size * .1
    mon.note(cells=len(t), how=how)
    s = c.extrude(c.copy(vertices=y))
    n = len(x)
    T = s.topology
    mon.check('extrude', type(s) is type(c))
    mon.check('extrude', bool(T.is_oriented) and bool(T.is_closed), what='closed and oriented')
    mon.close('extrude', s.vertices, np.concatenate([x, y]), what='vertices')
    # bottom as is, top reversed, one strip of two triangles per boundary edge
    tris = np.asarray(T.elements[-1])
    b = {}
    for q in t:
        for k in range(3):
            u, v = int(q[k]), int(q[(k + 1) % 3])
            b[(u, v)] = 1
    edges = {e for e in b if (e[1], e[0]) not in b}
    mon.eq('extrude', len(tris), 2 * len(t) + 2 * len(edges), what='triangles')

    def canon(q):
        k = int(np.argmin(q))
        return tuple(int(v) for v in np.roll(q, -k))
    have = {canon(q) for q in tris}
    mon.check('extrude', {canon(q) for q in t} <= have, what='bottom')
    mon.check('extrude', {canon(q[::-1] + n) for q in t} <= have, what='top')
    side = [q for q in tris if (q < n).any() and (q >= n).any()]
    mon.check('extrude', {tuple(sorted({int(v) % n for v in q})) for q in side} == {tuple(sorted(e)) for e in edges}, what='sides')
    if how == 0:
        V = vector_area(x[t]).sum(0)
        A = np.linalg.norm(vector_area(x[t]), axis=1).sum()
        mon.close('extrude', s.volume(), -V.dot(d), rtol=0, atol=1e-10 * (A + size ** 2 * len(edges)) * (np.abs(x).max() + np.abs(y).max()) * 10, what='volume')


def case_large(mon, rng, i):
    x, t, closed = large(rng, i % 4 == 1)
    if i % 2 == 0:
        case_clip(mon, rng, i, (x, t, closed))
    else:
        case_surface(mon, rng, i, (x, t))
        if closed:
            case_solid(mon, rng, i, (x, t))
    # a plane that cuts more edges than a signed 16 bit integer counts
    z = np.where(rng.random(len(x)) < .5, -1, 1) * rng.uniform(.5, 1, len(x))
    y = np.concatenate([x[:, :2], z[:, None]], axis=1)
    case_clip(mon, rng, i, (y, t, closed), (np.zeros(3), np.array([0, 0, 1.]), 'rough'))


CASES = dict(clip=case_clip, solid=case_solid, surface=case_surface, extrude=case_extrude, large=case_large)
PLAN = dict(quick=dict(clip=1800, solid=720, surface=480, extrude=480, large=4), thorough=dict(clip=9000, solid=3000, surface=2500, extrude=2500, large=40))
