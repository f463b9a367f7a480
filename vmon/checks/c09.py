"""C09 Euclidean metrics and Hodge stars"""
import math

import numpy as np
import scipy.spatial
from vmon import gen, geo, many, ref

PROP = 'C09'
RULE = ('embedded simplicial complexes of dimension 1-3 in R^1..R^4 (lattices, Delaunay and relaxed Delaunay meshes, curves, spheres, single simplices, with obtuse and right '
        'cells, weighted or not), at random scale, position, rotation and vertex numbering; the oracle measures every element and every signed fundamental domain '
        'independently; a state is one (cells, positions, weights) triple whose metrics were compared')
REQUIRED = {'copies': 10, 'primal-metric': 100, 'dual-metric': 60, 'diamond': 60, 'hodge': 60, 'voronoi-area': 20, 'invariance': 60, 'cotan': 15, 'closed-dual-metric': 20}


def observe(mon, d, C, tag=''):
    T = C.topology
    n = d['n']
    E = T.elements
    x, w = C.vertices, C.weights
    PM, DM = C.primal_metric, C.dual_metric
    mon.eq('metric-length', [len(PM), len(DM)], [n + 1, n + 1], tag=tag)
    for k in range(n + 1):
        mon.close('primal-metric', PM[k], geo.gram_volume(x[np.asarray(E[k])]), 1e-8, tag=tag, k=k)
    want, lower, top = geo.dual_metric(x, w, d['cells'], E)
    total = geo.gram_volume(x[d['cells']]).sum()
    if lower > 1e-6:
        size = np.abs(x[d['cells']] - x[d['cells']].mean(1, keepdims=True)).max()
        for k in range(n + 1):
            mon.close('dual-metric', DM[n - k], want[k], 1e-7, atol=1e-9 * size ** (n - k), tag=tag, k=k)
            mon.close('diamond', (PM[k] * DM[n - k]).sum(), math.comb(n, k) * total, 1e-7, tag=tag, k=k)
        with np.errstate(all='ignore'):
            for k in range(n + 1):
                p, q = np.asarray(PM[k]), np.asarray(DM[n - k])
                ok = np.abs(q) > 1e-6 * np.abs(q).max()
                mon.close('hodge', (C.hodge_DP[k] * p)[ok], q[ok], 1e-9, tag=tag, k=k)
                mon.close('hodge', (C.hodge_PD[k] * q)[ok], p[ok], 1e-9, tag=tag, k=k)
        m = min(np.min(v) / np.abs(v).max() for v in want)
        if abs(m) > 1e-6:
            mon.eq('positive-dual', bool(C.positive_dual_metric), m > 0, tag=tag)
        if n > 1 and abs(top) > 1e-6:
            mon.eq('well-centered', bool(C.is_well_centered), top > 0, tag=tag)
        e = want[n - 1] if n >= 1 else []
        m = np.min(e) / np.abs(e).max()
        if abs(m) > 1e-6:
            mon.eq('pairwise-delaunay', bool(C.is_pairwise_delaunay), m > 0, tag=tag)
    elif lower < -1e-6:
        mon.eq('well-centered', bool(C.is_well_centered), False, tag=tag)
    return PM, DM, lower


def k_mesh(mon, rng, i):
    d = geo.euclidean(rng, n=[1, 2, 2, 3][i % 4], wellcentered=rng.random() < .6)
    if d['n'] == 3 and rng.random() < .4:
        cells, x = geo.acute_faces(rng, int(rng.choice([3, 4], p=[.8, .2])))
        d = gen.scramble_simplicial(rng, dict(cells=gen.orient(cells), points=x, kind='simplex'))
        d = dict(cells=d['cells'], x=d['points'], w=None, n=x.shape[1], name='acute-faces')
    x0, w0 = d['x'], d['w']
    s = 10. ** rng.uniform(-4, 4)
    t = rng.normal(size=x0.shape[1]) * 10. ** rng.uniform(-1, 2)
    d['x'] = (x0 + t) * s
    d['w'] = None if w0 is None else w0 * s ** 2
    mon.note(name=d['name'], cells=len(d['cells']), scale=s, shift=t)
    mon.state(d['cells'], d['x'], d['w'])
    C = geo.build_euclidean(d, typed=d['n'] == 2 and rng.random() < .5)
    PM, DM, lower = observe(mon, d, C)
    n = d['n']
    if lower > 1e-6:
        # the same complex at the origin, rotated, with other names, and with shifted weights
        R = geo.rotation(rng, x0.shape[1])
        perm = rng.permutation(len(x0))
        x = np.empty_like(x0)
        x[perm] = x0.dot(R)
        w = None
        if w0 is not None:
            w = np.empty_like(w0)
            w[perm] = w0 + rng.normal()
        e = dict(d, cells=gen.shuffle_cells(rng, perm[d['cells']].astype(np.int32)), x=x, w=w)
        G = geo.build_euclidean(e)
        look = geo.lookup(G.topology.elements)
        for k in range(n + 1):
            idx = [look[k][tuple(sorted(r))] for r in perm[np.asarray(C.topology.elements[k])].tolist()]
            mon.close('invariance', np.asarray(G.primal_metric[k])[idx] * s ** k, PM[k], 1e-7, k=k, what='primal')
            mon.close('invariance', np.asarray(G.dual_metric[n - k])[idx] * s ** (n - k), DM[n - k], 1e-6, atol=1e-9 * s ** (n - k), k=k, what='dual')
    if i % 8 < 4 and len(d['cells']) < 40:
        opposing(mon, rng, d, C)
    B = C.boundary
    if lower > 1e-6:
        got = C.dual_metric_closed
        mon.eq('closed-dual-size', [len(g) for g in got], C.topology.dual.n_elements)
        if B is not None:
            bw = None if d['w'] is None else d['w'][B.topology.parent_idx[0]]
            mon.close('boundary-position', B.vertices, d['x'][B.topology.parent_idx[0]], 0)
            want, low, _ = geo.dual_metric(B.vertices, bw, np.asarray(B.topology.elements[-1]), B.topology.elements) if n > 1 else ([np.ones(len(B.vertices))], 1, 1)
            if low > 1e-6:
                for k in range(n + 1):
                    # dual cells of interior elements of dimension n-k come first, then the boundary elements of dimension n-1-k
                    tail = np.asarray(got[k])[len(DM[k]):]
                    mon.close('closed-dual-metric', np.asarray(got[k])[:len(DM[k])], DM[k], 1e-12)
                    mon.close('closed-dual-metric', tail, want[n - 1 - k] if k < n else [], 1e-7, atol=1e-9 * s ** k, k=k)


def k_prescribed(mon, rng, i):
    """one or two simplices up to four dimensions with weights that put the centre at a chosen place inside, wherever those of its faces fall"""
    n = 2 + i % 3
    while True:
        x = rng.normal(size=(n + 1, n))
        if geo.flatness(x[None]).min() > .05:
            break
    b = rng.dirichlet(np.ones(n + 1)) * .9 + .1 / (n + 1)
    w = ((x - b.dot(x)) ** 2).sum(axis=1) + rng.normal()
    cells = np.arange(n + 1)[None]
    if rng.random() < .5:
        # and its mirror image in one face
        q, o = np.linalg.qr((x[1:-1] - x[-1]).T, mode='complete')[0][:, -1], x[-1]
        x = np.concatenate([x, [x[0] - 2 * q * (x[0] - o).dot(q)]])
        w = np.append(w, w[0])
        cells = np.stack([cells[0], np.r_[n + 1, 1:n + 1]])
    x = geo.embed(rng, x, int(rng.integers(n, n + 2)))
    d = gen.scramble_simplicial(rng, dict(cells=gen.orient(cells.astype(np.int32)), points=np.concatenate([x, w[:, None]], axis=1), kind='simplex'))
    d = dict(cells=d['cells'], x=np.ascontiguousarray(d['points'][:, :-1]), w=d['points'][:, -1].copy(), n=n, name='prescribed-%d' % n)
    mon.note(name=d['name'], cells=d['cells'], x=d['x'], w=d['w'])
    mon.state(d['cells'], d['x'], d['w'])
    observe(mon, d, geo.build_euclidean(d, typed=n == 2 and rng.random() < .5))


def opposing(mon, rng, d, C):
    """the face that each corner faces, and what is summed over faces and corners"""
    E = C.topology.elements
    n = C.topology.n_dim
    cells, faces = np.asarray(E[n]), np.asarray(E[n - 1]).reshape(len(E[n - 1]), -1)
    B, O = C.opposing_boundary
    sign = ref.dense(C.topology.matrix(-1) if n > 0 else None)
    f = rng.normal(size=cells.shape)
    total, signed, corner = np.zeros(len(faces)), np.zeros(len(faces)), np.zeros(len(E[0]))
    for c in range(len(cells)):
        for j in range(n + 1):
            k = int(B[c, j])
            mon.check('opposing', set(faces[k].tolist()) == set(np.delete(cells[c], j).tolist()) and O[c, j] == sign[k, c], cell=cells[c], corner=j, face=faces[k], sign=O[c, j])
            total[k] += f[c, j]
            signed[k] += f[c, j] * sign[k, c]
            corner[cells[c, j]] += f[c, j]
    mon.close('remap', C.remap_boundary_N(f), signed, 1e-12)
    mon.close('remap', C.remap_boundary_N(f, oriented=False), total, 1e-12)
    mon.close('remap', C.remap_boundary_0(f), corner, 1e-12)


def k_planar(mon, rng, i):
    """planar Delaunay meshes: interior dual cells are Voronoi cells; cotangent formula; angles and areas"""
    if i % 2:
        cells, x = gen.relaxed_delaunay(rng, 2, int(rng.integers(12, 40)))
    else:
        cells, x = gen.delaunay(rng, 2, int(rng.integers(12, 40)))
    cells = gen.positively_oriented(cells, x)
    d = gen.scramble_simplicial(rng, dict(cells=cells, points=x, kind='simplex'))
    d = dict(cells=d['cells'], x=d['points'], w=None, n=2, name='planar')
    if geo.flatness(d['x'][d['cells']]).min() < .005:
        mon.skip('sliver')
        return
    C = geo.build_euclidean(d, typed=True)
    x = C.vertices
    mon.note(name='planar', points=len(x))
    mon.state(d['cells'], x)
    V = scipy.spatial.Voronoi(x)
    DM = C.dual_metric
    hull = set(scipy.spatial.ConvexHull(x).vertices)
    onb = set(np.unique(C.topology.elements[1][C.topology.boundary.parent_idx[1]])) if C.topology.boundary is not None else set()
    size = np.ptp(x, axis=0).max()
    for v in range(len(x)):
        reg = V.regions[V.point_region[v]]
        if -1 in reg or v in hull or v in onb:
            continue
        p = V.vertices[reg]
        p = p[np.argsort(np.arctan2(*(p - x[v]).T))]
        q = np.roll(p, -1, axis=0)
        area = abs((p[:, 0] * q[:, 1] - p[:, 1] * q[:, 0]).sum()) / 2
        mon.close('voronoi-area', DM[2][v], area, 1e-7, atol=1e-9 * size ** 2)
    mon.close('cotan', C.compute_edge_ratio, DM[1] / C.primal_metric[1], 1e-6, atol=1e-8)
    tri = x[C.topology.elements[2]]
    a = C.compute_triangle_angles
    mon.close('angle-sum', a.sum(1), np.full(len(a), np.pi), 1e-9)
    e0, e1 = tri[:, [1, 2, 0]] - tri, tri[:, [2, 0, 1]] - tri
    want = np.arctan2(np.abs(e0[..., 0] * e1[..., 1] - e0[..., 1] * e1[..., 0]), (e0 * e1).sum(-1))
    mon.close('angles', a, want, 1e-7)
    mon.close('triangle-area', C.compute_triangle_areas, np.abs(geo.signed_volume(tri)), 1e-9)
    va = np.zeros(len(x))
    np.add.at(va, C.topology.elements[2], np.abs(geo.signed_volume(tri))[:, None] / 3)
    mon.close('vertex-area', C.compute_vertex_areas, va, 1e-9)


def k_many(mon, rng, i):
    many.metrics(mon, rng, 70000 if i == 0 else 600, 'flat')

def k_copies(mon, rng, i):
    T = 66000 if i < 2 else int(rng.choice([300, 1500]))
    if i % 2 == 0:
        many.duals(mon, rng, T, 'flat')
    else:
        many.simplices(mon, rng, T, i % 4 == 1)


CASES = dict(mesh=k_mesh, planar=k_planar, prescribed=k_prescribed, many=k_many, copies=k_copies)
PLAN = dict(quick=dict(mesh=1920, planar=360, prescribed=240, many=8, copies=12), thorough=dict(mesh=4000, planar=600, prescribed=2000, many=80, copies=180))
