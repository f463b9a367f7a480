"""Reference geometry, independent of the code under test"""
import itertools
import math

import numpy as np
import scipy.spatial

from vmon import gen


def gram_volume(x):
    """unsigned volume of simplices [..., k+1, d], by QR"""
    x = np.asarray(x, float)
    e = x[..., 1:, :] - x[..., :1, :]
    k = e.shape[-2]
    if k == 0:
        return np.ones(x.shape[:-2])
    s = np.linalg.svd(e, compute_uv=False)
    return s[..., :k].prod(axis=-1) / math.factorial(k) if e.shape[-1] >= k else np.zeros(x.shape[:-2])


def flatness(x):
    """ratio of smallest to largest extent of simplices [..., k+1, d]"""
    x = np.asarray(x, float)
    k = x.shape[-2] - 1
    if k == 0:
        return np.ones(x.shape[:-2])
    s = np.linalg.svd(x - x.mean(axis=-2, keepdims=True), compute_uv=False)
    return s[..., k - 1] / s[..., 0]


def signed_volume(x):
    x = np.asarray(x, float)
    e = x[..., 1:, :] - x[..., :1, :]
    return np.linalg.det(e) / math.factorial(e.shape[-1])


def centers(x, w=None):
    """(power) circumcentres of simplices [m, k+1, d] and their barycentric coordinates"""
    x = np.asarray(x, float)
    k = x.shape[-2] - 1
    if k == 0:
        return x[:, 0], np.ones((len(x), 1))
    e = x[:, 1:] - x[:, :1]
    r = (e ** 2).sum(-1)
    if w is not None:
        r = r - (w[:, 1:] - w[:, :1])
    p = np.linalg.pinv(e)                       # [m, d, k]
    y = np.einsum('mdk,mk->md', p, r) / 2
    a = np.einsum('mdk,md->mk', p, y)           # y = e^T a
    return x[:, 0] + y, np.concatenate([1 - a.sum(-1, keepdims=True), a], axis=1)


def lookup(elements):
    return [{tuple(sorted(e)): i for i, e in enumerate(np.asarray(E).reshape(len(E), -1).tolist())} for E in elements]


def flags(cells, elements):
    """[m, n+1] vertex order and [m, n+1] element index of every flag of every cell"""
    n = cells.shape[1] - 1
    look = lookup(elements)
    order, index = [], []
    for c in np.asarray(cells).tolist():
        for p in itertools.permutations(c):
            order.append(p)
            index.append([look[k][tuple(sorted(p[:k + 1]))] for k in range(n + 1)])
    return np.array(order), np.array(index)


def flag_heights(x, w, order):
    """signed heights h[m, n+1] between centres of consecutive elements of each flag (h[:, 0] == 1), and signs"""
    m, n1 = order.shape
    h = np.ones((m, n1))
    s = np.ones((m, n1))
    prev = x[order[:, 0]]
    for k in range(1, n1):
        f = order[:, :k + 1]
        c, b = centers(x[f], None if w is None else w[f])
        s[:, k] = b[:, k]
        h[:, k] = np.sign(b[:, k]) * np.linalg.norm(c - prev, axis=1)
        prev = c
    return h, s


def dual_metric(x, w, cells, elements):
    """signed dual metric per primal element: list over primal dimension k of the (n-k)-volumes; min of the lower barycentrics"""
    n = cells.shape[1] - 1
    order, index = flags(cells, elements)
    h, s = flag_heights(x, w, order)
    out = []
    for k in range(n + 1):
        v = h[:, k + 1:].prod(axis=1) / math.factorial(n - k) / math.factorial(k + 1)
        out.append(np.bincount(index[:, k], v, len(elements[k])))
    lower = s[:, 1:n].min() if n > 1 else 1.
    return out, lower, s[:, n].min()


def rotation(rng, d):
    q, r = np.linalg.qr(rng.normal(size=(d, d)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[0] *= -1
    return q


# ============================================================================= embedded complexes
def bcc(rng, size=2, noise=.03):
    """tetrahedra of a body centred cubic lattice: all elements well centred"""
    pts = [p for p in itertools.product(range(size + 1), repeat=3)]
    cen = [tuple(np.array(p) + .5) for p in itertools.product(range(size), repeat=3)]
    idx = {tuple(map(float, p)): i for i, p in enumerate(pts + cen)}
    X = np.array(pts + cen, float)
    cells = []
    for c in itertools.product(range(size), repeat=3):
        c = np.array(c, float)
        for a in range(3):
            e = np.eye(3)[a]
            if c[a] + 1 >= size:
                continue
            b0, b1 = [e2 for j, e2 in enumerate(np.eye(3)) if j != a]
            q = [c + e, c + e + b0, c + e + b0 + b1, c + e + b1]
            for i in range(4):
                cells.append([idx[tuple(c + .5)], idx[tuple(c + .5 + e)], idx[tuple(q[i])], idx[tuple(q[(i + 1) % 4])]])
    cells, u = gen.compact(np.array(cells))
    X = X[u] + rng.normal(size=(len(u), 3)) * noise
    return cells, X


def equilateral(rng, n, noise=.05):
    x = np.eye(n + 1)
    x = x - x.mean(0)
    q = np.linalg.svd(x)[2][:n]
    return np.arange(n + 1)[None].astype(np.int32), x.dot(q.T) + rng.normal(size=(n + 1, n)) * noise


def acute_faces(rng, n=3):
    """one to three n-simplices mirrored in shared facets; everything below the top dimension is well centred, the cells are not"""
    while True:
        if n == 3:
            x = rng.normal(size=(1000, 4, 3))
        else:
            x = equilateral(rng, n)[1] + rng.normal(size=(300, n + 1, n)) * .25
        ok = centers(x)[1].min(-1) < -.02
        for k in range(3, n + 1):
            for f in itertools.combinations(range(n + 1), k):
                ok &= centers(x[:, f])[1].min(-1) > .02
        if ok.any():
            break
    x = x[np.flatnonzero(ok)[0]]
    cells = [list(range(n + 1))]
    for j in rng.permutation(n + 1)[:rng.integers(0, 3)]:
        f = np.delete(np.arange(n + 1), j)
        b = x[f[1:]] - x[f[0]]
        p = x[j] - x[f[0]]
        p = 2 * b.T.dot(np.linalg.pinv(b.T).dot(p)) - p + x[f[0]]
        c = list(range(n + 1))
        c[j] = len(x)
        c[f[0]], c[f[1]] = c[f[1]], c[f[0]]
        cells.append(c)
        x = np.concatenate([x, p[None]])
    return np.array(cells, np.int32), x


def tri_lattice(rng, a=4, b=4, noise=.08):
    """nearly equilateral triangles, with a random outline"""
    i, j = np.meshgrid(np.arange(a + 1), np.arange(b + 1), indexing='ij')
    X = np.stack([i + .5 * j, np.sqrt(.75) * j], axis=-1).reshape(-1, 2)
    v = lambda i, j: i * (b + 1) + j
    cells = []
    for i in range(a):
        for j in range(b):
            cells += [(v(i, j), v(i + 1, j), v(i, j + 1)), (v(i + 1, j), v(i + 1, j + 1), v(i, j + 1))]
    cells = np.array(cells)
    if rng.random() < .5:
        cells = cells[gen.facet_connected_subset(rng, 'simplex', cells, max(1, int(len(cells) * rng.uniform(.3, 1))))]
    cells, u = gen.compact(cells)
    X = X[u]
    return cells, X + rng.uniform(-noise, noise, X.shape)


def embed(rng, x, d, curved=0.):
    """isometric embedding into R^d, optionally bent"""
    n = x.shape[1]
    if d > n:
        x = np.concatenate([x, np.zeros((len(x), d - n))], axis=1)
        if curved:
            x[:, n] = curved * (x[:, :n] ** 2).sum(1)
    return x.dot(rotation(rng, d)) if d > 1 else x


def placement(rng, x, far=True):
    s = 10. ** rng.uniform(-4, 4)
    t = rng.normal(size=x.shape[1]) * (10. ** rng.uniform(-1, 3) if far else 1)
    return (x + t) * s, s


def euclidean(rng, n=None, wellcentered=False, weights=None):
    """an embedded, oriented simplicial complex: dict(cells, x, w, name, scale)"""
    n = int(n or rng.integers(1, 4))
    if n == 1:
        cells, x = gen.delaunay(rng, 1, int(rng.integers(2, 12))) if rng.random() < .6 else gen.sphere(rng, 1, int(rng.integers(3, 12)))
        x = x * rng.uniform(1, 5)
        name = 'curve'
        d = int(rng.integers(x.shape[1], 4))
        x = embed(rng, x, d)
    elif n == 2:
        name = rng.choice(['lattice', 'relaxed', 'delaunay', 'single', 'sphere'] if not wellcentered else ['lattice', 'single', 'hexagon', 'sphere'])
        curved = 0.
        if name == 'lattice':
            cells, x = tri_lattice(rng, int(rng.integers(1, 6)), int(rng.integers(1, 6)))
            curved = rng.choice([0., .03])
        elif name == 'relaxed':
            cells, x = gen.relaxed_delaunay(rng, 2, int(rng.integers(8, 40)))
        elif name == 'delaunay':
            cells, x = gen.delaunay(rng, 2, int(rng.integers(5, 30)))
        elif name == 'single':
            cells, x = equilateral(rng, 2)
        elif name == 'hexagon':
            k = int(rng.integers(5, 9))
            cells, x = gen.fan(k), gen.fan_points(k) + rng.uniform(-.03, .03, (k + 1, 2))
        elif name == 'sphere':
            cells, x = gen.sphere(rng, 2, int(rng.integers(6, 30)))
            if wellcentered:
                cells, x = ICO_CELLS, ICO + rng.normal(size=ICO.shape) * .04
        d = int(rng.integers(x.shape[1], 4))
        x = embed(rng, x, d, curved if d > 2 else 0.)
    else:
        name = rng.choice(['bcc', 'single', 'bcc'] if wellcentered else ['bcc', 'single', 'kuhn', 'delaunay', 'relaxed'])
        if name == 'bcc':
            cells, x = bcc(rng, 2)
            if rng.random() < .6:
                cells, u = gen.compact(cells[gen.facet_connected_subset(rng, 'simplex', cells, int(rng.integers(1, len(cells) + 1)))])
                x = x[u]
        elif name == 'single':
            cells, x = equilateral(rng, 3)
        elif name == 'kuhn':
            shape = tuple(int(v) for v in rng.integers(1, 3, 3))
            cells = gen.kuhn(shape, periodic=False)
            x = gen.cube_grid_points(shape)
        elif name == 'delaunay':
            cells, x = gen.delaunay(rng, 3, int(rng.integers(5, 14)))
        else:
            cells, x = gen.relaxed_delaunay(rng, 3, int(rng.integers(8, 20)))
        d = int(rng.integers(3, 5))
        x = embed(rng, x, d)
    cells = gen.orient(cells)
    keep = flatness(x[cells]) > .02               # the code snaps slivers (ratio parameter); nothing is promised there
    if not keep.any():
        return euclidean(rng, n, wellcentered, weights)
    if not keep.all():
        cells, u = gen.compact(cells[keep])
        x = x[u]
    w = None
    if weights if weights is not None else rng.random() < .4:
        e = np.concatenate([x[cells[:, [a, b]]] for a, b in itertools.combinations(range(cells.shape[1]), 2)])
        l = ((e[:, 1] - e[:, 0]) ** 2).sum(1).min()
        w = rng.uniform(-.1, .1, len(x)) * l
    d = gen.scramble_simplicial(rng, dict(cells=cells, points=np.concatenate([x] + ([] if w is None else [w[:, None]]), axis=1), kind='simplex'))
    x = d['points']
    if w is not None:
        x, w = x[:, :-1], x[:, -1]
    return dict(cells=d['cells'], x=np.ascontiguousarray(x), w=w, n=n, name='%s-%d-in-%d%s' % (name, n, x.shape[1], '' if w is None else '-weighted'))


def _ico():
    phi = (1 + np.sqrt(5)) / 2
    Q = np.array(list(itertools.product([0], [-1, +1], [-phi, +phi])))
    v = np.vstack([np.roll(Q, r, axis=1) for r in range(3)])
    v = v / np.linalg.norm(v, axis=1, keepdims=True)
    return gen.orient(scipy.spatial.ConvexHull(v).simplices.astype(np.int32)), v


ICO_CELLS, ICO = _ico()


def build_euclidean(d, x=None, w='same', typed=None):
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
    x = d['x'] if x is None else x
    w = d['w'] if isinstance(w, str) else w
    if typed:
        return ComplexTriangularEuclidian(vertices=x.copy(), triangles=d['cells'].copy(), weights=w)
    return ComplexSimplicialEuclidian(vertices=x.copy(), simplices=d['cells'].copy(), weights=w)
