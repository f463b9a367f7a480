"""C18 smoothing and subdivision act as their operators"""
import numpy as np
from vmon import gen, geo, many, ref
from vmon.checks import c06

PROP = 'C18'
RULE = ('cubical complexes of dimension 1-3 and triangulations (open, closed, several components) with random positions in any embedding, with and without crease chains of every dimension; '
        'each smoothed or subdivided vertex is compared with the mean of the centroids of the elements it takes part in; a state is one (cells, positions, creases, operation)')
REQUIRED = {'copies': 10, 'smooth': 100, 'smooth-operator': 100, 'rows': 100, 'affine': 60, 'local': 60, 'subdivide': 60, 'subdivide-operator': 60, 'loop': 40, 'loop-operator': 40, 'fixed-corner': 40}


def creases_for(rng, T):
    """random crease chains {dimension: chain}"""
    if rng.random() < .3:
        return None
    out = {}
    for k in range(T.n_dim + 1):
        if rng.random() < (.6 if k < T.n_dim else .15):
            n = T.n_elements[k]
            mode = rng.choice(4)
            c = np.zeros(n, np.int8)
            if mode == 0:
                c[rng.integers(n)] = 1
            elif mode == 1:
                c[rng.random(n) < .2] = 1
            elif mode == 2 and k < T.n_dim and not T.is_closed:
                c[np.asarray(T.boundary.parent_idx[k])] = 1
            elif mode == 3:
                c[rng.random(n) < .1] = 1
                c[rng.random(n) < .05] = -1
            out[k] = c.astype(rng.choice(['int8', 'int64', 'float64', 'bool']))
    return out or None


def reference(E, x, creases):
    """every vertex moves to the mean of the centroids of the incident elements of the lowest dimension that has a crease there (cells otherwise)"""
    N = len(E) - 1
    W = np.zeros((len(x), len(x)))
    done = np.zeros(len(x), bool)
    for k in range(N + 1):
        e = ref.flat(np.asarray(E[k]))
        on = np.full(len(e), k == N)
        if creases and k in creases:
            on = np.asarray(creases[k]).astype(float) != 0
        C = np.zeros((len(e), len(x)))
        C[np.arange(len(e))[:, None], e] = 1. / e.shape[1]
        I = np.zeros((len(x), len(e)))
        I[e, np.arange(len(e))[:, None]] = 1
        I[:, ~on] = 0
        new = I.any(1) & ~done
        M = I.dot(C) / np.maximum(I.sum(1), 1)[:, None]
        W[new] = M[new]
        done |= new
    W[~done, ~done] = 1                                          # where no element acts, nothing moves
    return W


def coarse_rows(E, n_vertices, upto):
    rows = []
    for e in E[:upto + 1]:
        e = ref.flat(np.asarray(e))
        C = np.zeros((len(e), n_vertices))
        C[np.arange(len(e))[:, None], e] = 1. / e.shape[1]
        rows.append(C)
    return np.concatenate(rows)


def propagate(T, F, creases, kind, dims):
    """crease chains on the fine level: fine elements within coarse crease elements of the same dimension"""
    if creases is None:
        return None
    from vmon.checks import c07
    W = c07.containment(T, F, kind, dims)
    return {k: W[k].dot((np.asarray(c).astype(float) != 0) * 1.) for k, c in creases.items()}


def affine(rng, x):
    m = x.shape[1]
    A = rng.normal(size=(m, m)) * np.exp(rng.normal())
    return A, rng.normal(size=m) * 3


def build(rng, d, kind):
    n, x = d['n'], d['x']
    if kind == 'cube':
        from pycomplex.complex import cubical
        cls = cubical.ComplexCubical
        typed = {(1, 2): 'ComplexCubical1Euclidian2', (2, 2): 'ComplexCubical2Euclidian2', (2, 3): 'ComplexCubical2Euclidian3', (3, 3): 'ComplexCubical3Euclidian3'}.get((n, x.shape[1]))
        if typed and rng.random() < .6:
            cls = getattr(cubical, typed)
        return cls(vertices=x.copy(), cubes=d['cells'].copy())
    from pycomplex.complex.simplicial import euclidian
    if n == 2 and rng.random() < .7:
        cls = {2: euclidian.ComplexTriangularEuclidian2, 3: euclidian.ComplexTriangularEuclidian3}.get(x.shape[1], euclidian.ComplexTriangularEuclidian)
        return cls(vertices=x.copy(), triangles=d['cells'].copy())
    return euclidian.ComplexSimplicialEuclidian(vertices=x.copy(), simplices=d['cells'].copy())


def draw(rng, kind, n):
    d = c06.small(rng, n, kind)
    nv = int(d['cells'].max()) + 1
    m = int(rng.choice([v for v in (1, 2, 3, 4) if v >= max(n, 1)]))
    d['x'] = rng.normal(size=(nv, m)) * 10. ** rng.uniform(-3, 3) + rng.normal(size=m) * rng.choice([0, 5])
    return dict(d, n=n)


def observe_smooth(mon, rng, c, x, creases, tag):
    E = c.topology.elements
    W = reference(E, x, creases)
    size = np.abs(x).max()
    kw = {} if creases is None else dict(creases={k: v.copy() for k, v in creases.items()})
    s = c.smooth(**kw)
    mon.close('smooth', s.vertices, W.dot(x), atol=1e-12 * size, tag=tag)
    mon.check('type', type(s) is type(c) and s.topology is c.topology, tag=tag)
    O = c.smooth_operator(**kw)
    mon.close('smooth-operator', O.toarray(), W, atol=1e-12, tag=tag)
    mon.close('rows', np.asarray(O.sum(1)).ravel(), np.ones(len(x)), 1e-12, tag=tag)
    mon.check('local', bool(np.all((W > 0) | (O.toarray() == 0))), tag=tag)
    A, t = affine(rng, x)
    mon.close('affine', c.copy(vertices=x.dot(A) + t).smooth(**kw).vertices, s.vertices.dot(A) + t, atol=1e-11 * (size * np.abs(A).sum() + np.abs(t).max()), tag=tag)
    if creases is not None and 0 in creases:
        on = np.asarray(creases[0]).astype(float) != 0
        mon.close('fixed-corner', s.vertices[on], x[on], atol=1e-13 * size, tag=tag)
    if creases is not None:
        mon.check('pure', all(np.array_equal(kw['creases'][k], creases[k]) for k in creases) and np.array_equal(c.vertices, x), tag=tag)
    return W


def k_cubical(mon, rng, i):
    n = 1 + i % 3
    d = draw(rng, 'cube', n)
    if n == 3:
        d['cells'], u = gen.compact(d['cells'][:4])
        d['x'] = d['x'][u]
    c = build(rng, d, 'cube')
    x = d['x']
    creases = creases_for(rng, c.topology)
    mon.note(name=d['name'], embedding=x.shape, creases=None if creases is None else sorted(creases))
    mon.state('cube', d['cells'], x, repr(creases))
    observe_smooth(mon, rng, c, x, creases, 'cube')
    E = c.topology.elements
    R = coarse_rows(E, len(x), n)
    kw = {} if creases is None else dict(creases=creases)
    f = c.subdivide_cubical()
    size = np.abs(x).max()
    mon.close('subdivide', f.vertices, R.dot(x), atol=1e-12 * size)
    mon.close('subdivide-operator', c.subdivide_operator().toarray(), R, atol=1e-12)
    fc = propagate(c.topology, f.topology, creases, 'cube', range(n + 1))
    W = reference(f.topology.elements, R.dot(x), fc).dot(R)
    s = c.subdivide_cubical(smooth=True, **kw)
    mon.close('subdivide', s.vertices, W.dot(x), atol=1e-11 * size, smooth=True)
    mon.eq('subdivide-topology', s.topology.elements[-1], f.topology.elements[-1])
    mon.close('subdivide-operator', c.subdivide_operator(smooth=True, **kw).toarray(), W, atol=1e-11, smooth=True)
    # a second level
    if len(f.vertices) < 150 and creases is None:
        g = s.subdivide_cubical(smooth=True)
        mon.close('subdivide', s.subdivide_operator(smooth=True) * s.vertices, g.vertices, atol=1e-11 * size, level=2)


def k_simplicial(mon, rng, i):
    n = [2, 2, 3, 1][i % 4]
    d = draw(rng, 'simplex', n)
    c = build(rng, d, 'simplex')
    x = d['x']
    creases = creases_for(rng, c.topology)
    mon.note(name=d['name'], embedding=x.shape, creases=None if creases is None else sorted(creases))
    mon.state('simplex', d['cells'], x, repr(creases))
    observe_smooth(mon, rng, c, x, creases, 'simplex')
    if n != 2 or not hasattr(c, 'subdivide_loop'):
        return
    E = c.topology.elements
    R = coarse_rows(E, len(x), 1)
    kw = {} if creases is None else dict(creases=creases)
    f = c.subdivide_loop()
    size = np.abs(x).max()
    mon.close('loop', f.vertices, R.dot(x), atol=1e-9 * size)
    mon.close('loop-operator', c.subdivide_loop_operator().toarray(), R, atol=1e-12)
    fc = propagate(c.topology, f.topology, creases, 'simplex', range(2))
    W = reference(f.topology.elements, R.dot(x), fc).dot(R)
    s = c.subdivide_loop(smooth=True, **kw)
    mon.close('loop', s.vertices, W.dot(x), atol=1e-9 * size, smooth=True)
    mon.close('loop-operator', c.subdivide_loop_operator(smooth=True, **kw).toarray(), W, atol=1e-11, smooth=True)
    mon.check('type', type(s) is type(c))


def k_many(mon, rng, i):
    many.smoothing(mon, rng, 70000 if i < 2 else 600, i % 2 == 0)



CASES = dict(cubical=k_cubical, simplicial=k_simplicial, many=k_many)
PLAN = dict(quick=dict(cubical=1080, simplicial=2400, many=6), thorough=dict(cubical=1500, simplicial=4000, many=60))
