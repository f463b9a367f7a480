"""C10 spherical metrics"""
import itertools
import math

import numpy as np
import scipy.spatial
from vmon import gen, geo, many, ref

PROP = 'C10'
RULE = ('well-centred triangulations of the sphere (perturbed icospheres, octahedra, relaxed random Delaunay, their subdivisions and open subsets) and circles, with random '
        'radius, rotation, weights and vertex numbering; areas and lengths are recomputed with an independent formula; a state is one (cells, positions, radius)')
REQUIRED = {'copies': 10, 'edge-length': 40, 'cell-area': 40, 'dual-area': 40, 'sphere-area': 20, 'spherical-voronoi': 10, 'scaling': 40, 'closed-dual-metric': 8}


def unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def arc(a, b):
    return 2 * np.arctan2(np.linalg.norm(a - b, axis=-1), np.linalg.norm(a + b, axis=-1))


def excess(a, b, c):
    """signed spherical area, Van Oosterom and Strackee"""
    num = np.einsum('...i,...i->...', a, np.cross(b, c))
    den = 1 + (a * b).sum(-1) + (b * c).sum(-1) + (c * a).sum(-1)
    return 2 * np.arctan2(num, den)


def relaxed_sphere(rng, npts, iters=60):
    p = unit(rng.normal(size=(npts, 3)))
    for _ in range(iters):
        d = p[:, None] - p[None]
        r = np.linalg.norm(d, axis=-1) + np.eye(npts)
        p = unit(p + .3 * (d / r[..., None] ** 3).sum(1) / npts)
    return gen.compact(scipy.spatial.ConvexHull(p).simplices)[0], p


def octahedron():
    x = np.vstack([np.eye(3), -np.eye(3)])
    cells = [t for t in itertools.combinations(range(6), 3) if len({v % 3 for v in t}) == 3]
    return np.array(cells, np.int32), x


def mesh(rng, closed=None):
    name = rng.choice(['ico', 'ico', 'relaxed', 'octa', 'loop'])
    if name == 'ico' or name == 'loop':
        cells, x = geo.ICO_CELLS, unit(geo.ICO + rng.normal(size=geo.ICO.shape) * rng.choice([0, .01, .05]))
        if name == 'loop':
            for _ in range(int(rng.integers(1, 3))):
                cells, x = split4(cells, x)
    elif name == 'octa':
        cells, x = octahedron()
        if rng.random() < .5:
            cells, x = split4(cells, x)
    else:
        cells, x = relaxed_sphere(rng, int(rng.integers(12, 60)))
    cells = gen.orient(cells)
    x = x.dot(geo.rotation(rng, 3))
    closed = rng.random() < .6 if closed is None else closed
    full = cells, x
    if not closed:
        keep = gen.facet_connected_subset(rng, 'simplex', cells, int(rng.integers(1, len(cells))))
        cells, u = gen.compact(cells[keep])
        x = x[u]
        cells = gen.orient(cells)
    d = gen.scramble_simplicial(rng, dict(cells=cells, points=x, kind='simplex'))
    return dict(cells=d['cells'], x=np.ascontiguousarray(d['points']), name=name + ('' if closed else '-subset'), closed=closed)


def split4(cells, x):
    mid, out = {}, []
    x = list(x)

    def m(a, b):
        k = (min(a, b), max(a, b))
        if k not in mid:
            mid[k] = len(x)
            x.append(unit(x[a] + x[b]))
        return mid[k]
    for a, b, c in np.asarray(cells).tolist():
        ab, bc, ca = m(a, b), m(b, c), m(c, a)
        out += [(a, ab, ca), (b, bc, ab), (c, ca, bc), (ab, bc, ca)]
    return np.array(out, np.int32), np.array(x)


def build(d, radius, weights=None, typed=True):
    from pycomplex.complex.simplicial.spherical import ComplexSpherical2, ComplexSpherical
    cls = ComplexSpherical2 if typed else ComplexSpherical
    from pycomplex.topology.simplicial import TopologyTriangular, TopologySimplicial
    T = (TopologyTriangular if typed else TopologySimplicial).from_simplices(d['cells'].copy())
    return cls(vertices=d['x'].copy(), topology=T, radius=radius, weights=weights)


def reference(x, cells, E, w=None):
    """primal and dual metrics on the unit sphere, per primal element; smallest barycentric coordinate"""
    tri = x[cells]
    P = [np.ones(len(x)), arc(x[E[1][:, 0]], x[E[1][:, 1]]), np.abs(excess(*np.moveaxis(x[E[2]], 1, 0)))]
    order, index = geo.flags(cells, E)
    c1, b1 = geo.centers(x[order[:, :2]], None if w is None else w[order[:, :2]])
    c2, b2 = geo.centers(x[order], None if w is None else w[order])
    c0, c1, c2 = x[order[:, 0]], unit(c1), unit(c2)
    A = np.abs(excess(c0, c1, c2))
    D = [np.bincount(index[:, 0], A, len(E[0])), np.bincount(index[:, 1], arc(c1, c2) / 2, len(E[1])), np.ones(len(E[2]))]
    return P, D, min(b1.min(), b2.min())


def k_sphere(mon, rng, i):
    d = mesh(rng, closed=bool(i % 3))
    r = 1 if rng.random() < .3 else float(10. ** rng.uniform(-3, 3))
    w = None
    if rng.random() < .25:
        e = d['x'][d['cells']]
        w = rng.uniform(-.03, .03, len(d['x'])) * ((e[:, 0] - e[:, 1]) ** 2).sum(1).min()
    C = build(d, r, w, typed=rng.random() < .7)
    E = C.topology.elements
    P, D, low = reference(C.vertices, d['cells'], E, w)
    if low < 1e-3:
        mon.skip('not well centred')
        mon.eq('well-centered', bool(C.is_well_centered), False) if low < -1e-6 else None
        return
    mon.note(name=d['name'], cells=len(d['cells']), radius=r, weighted=w is not None)
    mon.state(d['cells'], d['x'], r)
    mon.eq('well-centered', bool(C.is_well_centered), True)
    PM, DM = C.primal_metric, C.dual_metric
    mon.close('vertex-metric', PM[0], P[0], 0)
    mon.close('edge-length', PM[1], P[1] * r, 1e-9)
    mon.close('cell-area', PM[2], P[2] * r ** 2, 1e-8, atol=1e-11 * r ** 2)
    mon.close('dual-vertex', DM[0], D[2], 0)
    mon.close('dual-edge', DM[1], D[1] * r, 1e-8)
    mon.close('dual-area', DM[2], D[0] * r ** 2, 1e-8, atol=1e-11 * r ** 2)
    mon.close('tiling', PM[2].sum(), DM[2].sum(), 1e-10)
    if d['closed']:
        mon.close('sphere-area', PM[2].sum(), 4 * np.pi * r ** 2, 1e-10)
        mon.close('sphere-area', DM[2].sum(), 4 * np.pi * r ** 2, 1e-10)
        if w is None:
            try:
                sv = scipy.spatial.SphericalVoronoi(C.vertices)
                area = sv.calculate_areas()
            except Exception:
                area = None
            if area is not None:
                mon.close('spherical-voronoi', DM[2], area * r ** 2, 1e-7)
    for k in range(3):
        mon.close('hodge', C.hodge_DP[k], D[k] / P[k] * r ** (2 - 2 * k), 1e-7)
        mon.close('hodge', C.hodge_PD[k], P[k] / D[k] * r ** (2 * k - 2), 1e-7)
        p = C.primal_position[k]
        mon.close('unit-position', np.linalg.norm(p, axis=1), np.ones(len(p)), 1e-12)
        q = C.vertices[E[k]]
        if w is None:
            ang = arc(p[:, None], q)
            mon.close('equidistant', ang, np.repeat(ang[:, :1], k + 1, 1), 1e-7)
        else:
            # power distances to the position (before projection onto the sphere) are equal along its ray up to scale: compare directions
            c, _ = geo.centers(q, w[E[k]])
            mon.close('weighted-position', p, unit(c), 1e-7)
    # radius scales nothing but the metric
    s = float(10. ** rng.uniform(-2, 2))
    G = C.copy(radius=s)
    for k in range(3):
        mon.close('scaling', G.primal_metric[k] * (r / s) ** k, PM[k], 1e-12)
        mon.close('scaling', G.dual_metric[k] * (r / s) ** k, DM[k], 1e-12)
        mon.eq('scaling-position', G.primal_position[k], C.primal_position[k])
    # boundary and dual positions
    B = C.boundary
    mon.eq('closed', B is None, bool(C.topology.is_closed))
    closed = C.dual_metric_closed
    mon.eq('closed-dual-size', [len(c) for c in closed], C.topology.dual.n_elements)
    DPos = C.dual_position
    mon.eq('dual-position-size', [len(c) for c in DPos], C.topology.dual.n_elements)
    PPos = C.primal_position
    idx = [np.zeros(0, int)] * 3 if B is None else [np.asarray(j) for j in B.topology.parent_idx] + [np.zeros(0, int)]
    for k in range(3):
        # the dual k-cells: those of interior (2-k)-elements, then of boundary (1-k)-elements
        tail = PPos[1 - k][idx[1 - k]] if k < 2 else np.zeros((0, 3))
        mon.close('dual-position', DPos[k], np.concatenate([PPos[2 - k], tail]), 1e-12)
        mon.close('closed-dual-metric', closed[k][:len(DM[k])], DM[k], 1e-12) if B is not None else None
    if B is not None:
        mon.close('closed-dual-metric', closed[0][len(DM[0]):], np.ones(len(idx[1])), 0)
        l = np.zeros(len(idx[0]))
        look = {v: j for j, v in enumerate(idx[0].tolist())}
        for e in idx[1]:
            for v in E[1][e]:
                l[look[int(v)]] += arc(PPos[1][e], C.vertices[v]) * r
        mon.close('closed-dual-metric', closed[1][len(DM[1]):], l, 1e-8, what='boundary dual edges')


def k_subdivide(mon, rng, i):
    d = mesh(rng, closed=bool(i % 3))
    r = 1 if rng.random() < .3 else float(10. ** rng.uniform(-2, 2))
    w = None
    if rng.random() < .4:
        e = d['x'][d['cells']]
        w = rng.uniform(-.03, .03, len(d['x'])) * ((e[:, 0] - e[:, 1]) ** 2).sum(1).min()
    C = build(d, r, w, typed=True)
    if reference(C.vertices, d['cells'], C.topology.elements, w)[2] < .02:
        mon.skip('not well centred')
        return
    mon.note(name=d['name'], cells=len(d['cells']), radius=r)
    mon.state('sub', d['cells'], d['x'], r)
    want = np.abs(excess(*np.moveaxis(C.vertices[C.topology.elements[2]], 1, 0))).sum() * r ** 2
    for how in ('subdivide_loop', 'subdivide_loop_direct', 'subdivide_fundamental', 'subdivide_simplicial'):
        F = getattr(C, how)()
        tri = F.vertices[F.topology.elements[2]]
        want_cells = np.sort(getattr(C.topology, how)().elements[2], axis=1)
        mon.eq('refined-cells', sorted(map(tuple, np.sort(F.topology.elements[2], axis=1))), sorted(map(tuple, want_cells)), how=how)
        mon.eq('refined-cells', np.unique(F.topology.elements[2]), np.arange(len(F.vertices)), how=how)
        mon.close('refined-on-sphere', np.linalg.norm(F.vertices, axis=1), np.ones(len(F.vertices)), 1e-12, how=how)
        mon.close('refined-radius', F.radius, r, 0, how=how)
        mon.check('refined-radius', F.weights is None, 'weights of other vertices', how=how)
        a = excess(*np.moveaxis(tri, 1, 0))
        mon.close('refined-area', np.abs(a).sum() * r ** 2, want, 1e-9, how=how)
        mon.check('refined-orientation', (a > 0).all() or (a < 0).all(), how=how)
        P, D, low = reference(F.vertices, F.topology.elements[2], F.topology.elements)
        if low > 1e-3:
            mon.close('refined-metric', F.primal_metric[2], P[2] * r ** 2, 1e-7)
            mon.close('refined-metric', F.dual_metric[2], D[0] * r ** 2, 1e-7)
            mon.close('refined-metric', F.primal_metric[1], P[1] * r, 1e-7)
            mon.close('refined-metric', F.dual_metric[1], D[1] * r, 1e-7)


def k_circle(mon, rng, i):
    from pycomplex.complex.simplicial.spherical import ComplexCircular, ComplexSpherical
    n = int(rng.integers(3, 20))
    t = np.sort(rng.uniform(0, 2 * np.pi, n)) if i % 2 else np.arange(n) * 2 * np.pi / n
    gap = np.diff(np.concatenate([t, t[:1] + 2 * np.pi]))
    if gap.max() > np.pi * .95 or gap.min() < 1e-3:
        mon.skip('gap')
        return
    k = int(rng.integers(2, 4))
    x = np.zeros((n, k))
    x[:, 0], x[:, 1] = np.cos(t), np.sin(t)
    x = x.dot(geo.rotation(rng, k))
    cells = np.stack([np.arange(n), (np.arange(n) + 1) % n], axis=1)
    m = n if rng.random() < .7 else int(rng.integers(1, n))
    cells = cells[:m]
    cells, u = gen.compact(cells)
    d = gen.scramble_simplicial(rng, dict(cells=cells, points=x[u], kind='simplex'))
    r = 1 if rng.random() < .3 else float(10. ** rng.uniform(-2, 2))
    C = (ComplexCircular if k == 2 else ComplexSpherical)(vertices=d['points'], simplices=d['cells'], radius=r)
    mon.note(name='circle', n=n, m=m, radius=r)
    mon.state(d['cells'], d['points'], r)
    e = C.vertices[C.topology.elements[1]]
    l = arc(e[:, 0], e[:, 1]) * r
    mon.close('circle-edge', C.primal_metric[1], l, 1e-9)
    D = np.bincount(C.topology.elements[1].ravel(), np.repeat(l / 2, 2), len(C.vertices))
    mon.close('circle-dual', C.dual_metric[1], D, 1e-9)
    if m == n:
        mon.close('circle-length', C.dual_metric[1].sum(), 2 * np.pi * r, 1e-10)
    F = C.subdivide_fundamental()
    mon.close('circle-refined', F.primal_metric[1].sum(), l.sum(), 1e-10)


def k_many(mon, rng, i):
    many.metrics(mon, rng, 70000 if i == 0 else 600, 'sphere')

def k_copies(mon, rng, i):
    T = 66000 if i < 1 else int(rng.choice([300, 1500]))
    many.duals(mon, rng, T, 'sphere')


CASES = dict(sphere=k_sphere, subdivide=k_subdivide, circle=k_circle, many=k_many, copies=k_copies)
PLAN = dict(quick=dict(sphere=900, subdivide=270, circle=360, many=8, copies=8), thorough=dict(sphere=3000, subdivide=600, circle=800, many=80, copies=120))
