"""Meshes and reference oracles for point location on simplicial complexes"""
import itertools

import numpy as np
from vmon import gen, geo
from vmon.checks import c10


def flat_mesh(rng, wellcentered=False, n=None):
    """Euclidean mesh that fills a region of its own dimension, possibly with several components"""
    n = int(n or rng.integers(1, 4))

    def part():
        while True:
            if n == 1:
                k = int(rng.integers(2, 14))
                x = np.sort(np.cumsum(np.exp(rng.uniform(-2.3, 2.3, k))))[:, None]
                cells = np.stack([np.arange(k - 1), np.arange(1, k)], axis=1)
                if not wellcentered and rng.random() < .3 and k > 4:        # a gap
                    cells, u = gen.compact(np.delete(cells, rng.integers(1, k - 2), axis=0))
                    x = x[u]
                d = dict(cells=cells.astype(np.int32), x=x, name='graded')
            elif n == 2 and not wellcentered and rng.random() < .5:
                d = jittered(rng)
            else:
                d = geo.euclidean(rng, n, wellcentered=wellcentered or rng.random() < .6, weights=False)
            if d['x'].shape[1] == n:
                break
        return d
    ds = [part()]
    if rng.random() < .25:
        ds.append(part())
    xs, cs, off, right = [], [], 0, 0.
    for d in ds:
        x = d['x'] - d['x'].min(0)
        f = np.exp(rng.uniform(-.7, .7)) * 2 / np.ptp(x, axis=0).max()
        x = x * f
        if d.get('w') is not None:
            d['w'] = d['w'] * f ** 2
        gap = 3 * np.ptp(x, axis=0).max()
        x[:, 0] += right
        right = x[:, 0].max() + gap
        xs.append(x)
        cs.append(d['cells'] + off)
        off += len(x)
    x, cells = np.concatenate(xs), np.concatenate(cs)
    w = None
    if any(d.get('w') is not None for d in ds):
        w = np.concatenate([np.zeros(len(d['x'])) if d.get('w') is None else d['w'] for d in ds]) + rng.choice([0, 0, 1, -1])
    elif rng.random() < .35:
        e = np.concatenate([x[cells[:, [a, b]]] for a, b in itertools.combinations(range(n + 1), 2)])
        w = rng.uniform(-1, 1, len(x)) * ((e[:, 1] - e[:, 0]) ** 2).sum(1).min() * rng.choice([.02, .1, .3])
        w = w + rng.choice([0, 0, 1, -1])                          # only differences matter
    if rng.random() < .7 and n > 1:
        x = x.dot(geo.rotation(rng, n))
    s = 10. ** rng.uniform(-3, 3)
    x = (x + rng.normal(size=n) * rng.choice([0, 1, 20])) * s
    if w is not None:
        w = w * s ** 2
    p = np.concatenate([x] + ([] if w is None else [w[:, None]]), axis=1)
    d = gen.scramble_simplicial(rng, dict(cells=gen.orient(cells), points=p, kind='simplex'))
    p = np.ascontiguousarray(d['points'])
    return dict(cells=d['cells'], x=np.ascontiguousarray(p[:, :n]), w=None if w is None else p[:, n].copy(), n=n, spherical=False, radius=1,
                name='%s%s' % ('+'.join(k['name'] for k in ds), '' if w is None else '-weighted'))


def jittered(rng):
    """Delaunay of a jittered lattice within a circle of equally spaced points: acute at the boundary, arbitrary inside"""
    import scipy.spatial
    k = int(rng.integers(9, 20))
    t = np.arange(k) * 2 * np.pi / k
    rim = np.stack([np.cos(t), np.sin(t)], axis=1)
    h = 2 * np.sin(np.pi / k) * rng.uniform(.7, 1.1)
    g = np.arange(-1, 1, h)
    p = np.array(list(itertools.product(g, g))) + rng.uniform(-.3, .3, (len(g) ** 2, 2)) * h
    p = p[np.linalg.norm(p, axis=1) < 1 - h * .5]
    x = np.concatenate([rim, p])
    if len(p) < 3 or rng.random() < .5:
        cells = scipy.spatial.Delaunay(x).simplices
        return dict(cells=gen.positively_oriented(cells, x).astype(np.int32), x=x, name='jittered')
    # a regular triangulation, which is not Delaunay if one ignores its weights
    w = np.where(np.arange(len(x)) < k, 0, rng.uniform(-1, 1, len(x)) * h ** 2 * rng.choice([.2, .4]))
    q = x - [1e-9, 2e-9]
    hull = scipy.spatial.ConvexHull(np.concatenate([q, ((q ** 2).sum(1) - w)[:, None]], axis=1))
    cells = hull.simplices[hull.equations[:, 2] < -1e-6]
    cells, u = gen.compact(cells.astype(np.int32))
    return dict(cells=gen.positively_oriented(cells, x[u]).astype(np.int32), x=x[u], w=w[u], name='regular')


def sphere_mesh(rng, wellcentered=False, n=None):
    n = int(n or rng.choice([1, 2, 2, 2, 3]))
    w = None
    if n == 2 and not wellcentered and rng.random() < .25:
        # a regular triangulation, which is not Delaunay if one ignores its weights
        import scipy.spatial
        k = int(rng.integers(12, 50))
        x = c10.relaxed_sphere(rng, k, 30)[1]
        w = rng.uniform(-1, 1, k) * 4 / k * rng.choice([.3, .7])
        cells = scipy.spatial.ConvexHull(x / (1 - w[:, None] / 2)).simplices
        cells, u = gen.compact(cells.astype(np.int32))
        x, w = x[u], w[u]
        cells = gen.orient(cells)
        d = dict(name='regular', closed=True)
    elif n == 2:
        d = c10.mesh(rng)
        if not wellcentered and rng.random() < .4:
            cells, x = gen.sphere(rng, 2, int(rng.integers(8, 40)))
            d = dict(cells=cells, x=x, name='delaunay', closed=True)
        cells, x = d['cells'], c10.unit(d['x'])
    elif n == 1:
        cells, x = gen.sphere(rng, 1, int(rng.integers(3, 15)))
        x = c10.unit(x)
        d = dict(name='circle', closed=True)
    else:
        x = np.concatenate([np.eye(4), -np.eye(4)])
        cells = np.array([t for t in itertools.combinations(range(8), 4) if len({v % 4 for v in t}) == 4], np.int32)
        x = c10.unit(x + rng.normal(size=x.shape) * .05)
        d = dict(name='16-cell', closed=True)
        cells = gen.orient(cells)
    keep = geo.flatness(x[cells]) > .02
    if not keep.all():
        cells, u = gen.compact(cells[keep])
        x = x[u]
        w = None if w is None else w[u]
    if w is None and rng.random() < .3:
        e = np.concatenate([x[cells[:, [a, b]]] for a, b in itertools.combinations(range(n + 1), 2)])
        w = rng.uniform(-1, 1, len(x)) * ((e[:, 1] - e[:, 0]) ** 2).sum(1).min() * rng.choice([.02, .1])
    radius = 1. if rng.random() < .4 else float(np.exp(rng.normal()))
    return dict(cells=cells, x=np.ascontiguousarray(x), w=w, n=n, spherical=True, radius=radius, name='%s-%d%s' % (d['name'], n, '' if w is None else '-weighted'))


def large_mesh(rng, n=2, side=182):
    """Delaunay mesh of a jittered grid, with more vertices and cells than small integers count"""
    import scipy.spatial
    g = np.stack(np.meshgrid(*[np.arange(side)] * n, indexing='ij'), -1).reshape(-1, n).astype(float)
    j = rng.uniform(-.2, .2, g.shape)
    j[(g == 0) | (g == side - 1)] = 0
    x = g + j
    cells = scipy.spatial.Delaunay(x).simplices.astype(np.int32)
    v = np.linalg.det(x[cells[:, 1:]] - x[cells[:, :1]])
    cells = cells[np.abs(v) > 1e-6]
    v = v[np.abs(v) > 1e-6]
    cells[v < 0] = cells[v < 0][:, [1, 0] + list(range(2, n + 1))]
    return dict(x=x, cells=cells, n=n, w=None, spherical=False, radius=1., name='large-%d' % n)


def build(d, typed=False):
    from pycomplex.topology.simplicial import TopologySimplicial
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian2
    from pycomplex.complex.simplicial.spherical import ComplexSpherical, ComplexSpherical2, ComplexCircular
    w = None if d['w'] is None else d['w'].copy()
    if d['spherical']:
        if d['n'] == 2 and typed:
            return ComplexSpherical2(vertices=d['x'].copy(), simplices=d['cells'].copy(), radius=d['radius'], weights=w)
        cls = ComplexCircular if d['n'] == 1 and typed else ComplexSpherical
        return cls(vertices=d['x'].copy(), topology=TopologySimplicial.from_simplices(d['cells'].copy()), radius=d['radius'], weights=w)
    if d['n'] == 2 and typed:
        return ComplexTriangularEuclidian2(vertices=d['x'].copy(), triangles=d['cells'].copy(), weights=w)
    return ComplexSimplicialEuclidian(vertices=d['x'].copy(), simplices=d['cells'].copy(), weights=w)


def homogeneous(d, p):
    return p if d['spherical'] else np.concatenate([p, np.ones(p.shape[:-1] + (1,))], axis=-1)


def barycentric(d, corners, p):
    """independent barycentric coordinates [..., n+1] of points relative to corners [..., n+1, N], by linear solve"""
    o = corners.mean(axis=-2, keepdims=True) if not d['spherical'] else 0.
    s = np.abs(corners - o).max() if not d['spherical'] else 1.
    A = homogeneous(d, (corners - o) / s)
    q = homogeneous(d, (p - (o[..., 0, :] if not d['spherical'] else 0.)) / s)
    b = np.linalg.solve(np.swapaxes(A, -1, -2), q[..., None])[..., 0]
    return b / np.abs(b.sum(-1, keepdims=True))               # negative on the far side of the sphere


def regularity(d):
    """smallest height of any vertex above the supporting plane of any simplex, relative to its size; positive: globally (weighted) Delaunay"""
    x, cells, w = d['x'], d['cells'], d['w']
    w = np.zeros(len(x)) if w is None else w
    if d['spherical']:
        h = 1 - w / 2
        P = np.linalg.solve(x[cells], h[cells][..., None])[..., 0]
        gap = h[None] - P.dot(x.T)
        scale = 1.
    else:
        c, _ = geo.centers(x[cells], None if d['w'] is None else w[cells])
        r = ((x[cells[:, 0]] - c) ** 2).sum(1) - w[cells[:, 0]]
        gap = ((x[None] - c[:, None]) ** 2).sum(-1) - w[None] - r[:, None]
        e = x[cells] - x[cells][:, :1]
        scale = (e ** 2).sum(-1).max(1)[:, None]
    gap = gap / scale
    gap[np.arange(len(cells))[:, None], cells] = np.inf
    return gap.min()


def radius_ratio(d):
    """largest power centre distance relative to the smallest cell"""
    x, cells = d['x'], d['cells']
    c, _ = geo.centers(x[cells], None if d['w'] is None else d['w'][cells])
    R = np.sqrt(((x[cells[:, 0]] - c) ** 2).sum(1).max())
    if d['spherical']:                                     # simplices that pass near the origin have their site far away
        R = max(R, np.linalg.norm(np.linalg.solve(x[cells], np.ones((len(cells), cells.shape[1], 1))), axis=1).max())
    e = np.linalg.norm(x[cells][:, :, None] - x[cells][:, None], axis=-1)
    e = e[e > 0].min()
    far = np.abs(x).max() if not d['spherical'] else 1.
    return R / e, far / e


def excess(d):
    """(margin, value): smallest sum over a facet of the signed distances of the (power) centres of its cells, relative to size"""
    x, cells = d['x'], d['cells']
    c, b = geo.centers(x[cells], None if d['w'] is None else d['w'][cells])
    n = cells.shape[1] - 1
    total = {}
    for t, cell in enumerate(cells):
        for i in range(n + 1):
            f = np.delete(cell, i)
            fc, _ = geo.centers(x[f][None], None if d['w'] is None else d['w'][f][None])
            key = tuple(sorted(f.tolist()))
            h = np.linalg.norm(c[t] - fc[0]) * np.sign(b[t, i])
            total[key] = total.get(key, 0.) + h
    e = np.linalg.norm(x[cells][:, :, None] - x[cells][:, None], axis=-1).max()
    return min(total.values()) / e, min(b.min(), min(geo.centers(x[cells[:, list(s)]], None if d['w'] is None else d['w'][cells[:, list(s)]])[1].min()
                                                     for k in range(2, n + 1) for s in itertools.combinations(range(n + 1), k)) if n > 1 else b.min())


def beside(rng, d, m):
    """points slightly across a facet, with the cell they are outside of"""
    cells, x, n = d['cells'], d['x'], d['n']
    t = rng.integers(len(cells), size=m)
    w = rng.dirichlet(np.ones(n), m)
    b = np.empty((m, n + 1))
    f = rng.integers(n + 1, size=m)
    for k in range(m):
        b[k] = np.insert(w[k], f[k], -10. ** rng.uniform(-10, -1))
    b /= b.sum(1, keepdims=True)
    p = np.einsum('pc,pcd->pd', b, x[cells[t]])
    if d['spherical']:
        p = c10.unit(p)
    return p, t


def queries(rng, d, m):
    """points in the complex: generic, on lower elements, at vertices; with the cell they came from"""
    cells, x, n = d['cells'], d['x'], d['n']
    w = rng.dirichlet(np.ones(n + 1), m)
    drop = rng.random((m, n + 1)) < rng.choice([0, .3, .8], size=(m, 1), p=[.7, .2, .1])
    keep = rng.integers(n + 1, size=m)
    drop[np.arange(m), keep] = False
    w = np.where(drop, 0, w)
    w /= w.sum(1, keepdims=True)
    t = rng.integers(len(cells), size=m)
    p = np.einsum('pc,pcd->pd', w, x[cells[t]])
    if d['spherical']:
        p = c10.unit(p)
    return p, t


def pieces(rng, m, size=600):
    """consecutive ranges of m points"""
    cuts = np.cumsum(rng.integers(size // 2, size * 2, 4 * m // size))
    cuts = np.concatenate([[0], cuts[cuts < m], [m]])
    return [slice(a, b) for a, b in zip(cuts[:-1], cuts[1:])]


def crowd(rng, f, p):
    """what a function of points answers for all of them at once, and for a few at a time"""
    both = [f(p)], [f(p[s]) for s in pieces(rng, len(p))]
    if isinstance(both[0][0], tuple):
        return tuple(tuple(np.concatenate(v) for v in zip(*q)) for q in both)
    return tuple(np.concatenate(q) for q in both)
