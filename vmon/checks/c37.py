"""C37: synthetic generators produce valid, oriented meshes of the advertised size, extent and measure"""
import contextlib
import io
import itertools
import math
import numpy as np
import scipy.spatial
from .. import geo

PROP = 'C37'
RULE = ('every generator of the synthetic module over its parameters: simplices and cubes up to dimension 5, grids of any shape, circles and cylinders up to 6 subdivisions, cross polytopes up to dimension 5, icospheres up to 3 '
        'refinements, the 600-cell, Delaunay cubes in 2 to 4 dimensions and Delaunay spheres in 2 to 4 dimensions with random seeds, sizes and iteration counts; a state is one generator with its parameters (and seed)')
REQUIRED = {'valid': 100, 'counts': 100, 'oriented': 100, 'extent': 100, 'measure': 100, 'regular': 20, 'topology': 100, 'unoriented': 10}


def euler(T):
    return sum((-1) ** i * k for i, k in enumerate(T.n_elements))


def observe(mon, K, counts, chi, closed, oriented=True, **kw):
    """validity of the topology, from its own cells"""
    T = K.topology
    cells = np.asarray(T.elements[-1])
    flat = cells.reshape(len(cells), -1)
    mon.check('valid', np.array_equal(np.unique(flat), np.arange(len(K.vertices))) and all(len(set(c)) == len(c) for c in flat.tolist())
              and len(set(map(tuple, np.sort(flat, axis=1).tolist()))) == len(flat) and np.all(np.isfinite(K.vertices)), **kw)
    # facets are shared by at most two cells, and pairwise distinct
    inc = np.bincount(np.asarray(T._boundary[-1]).ravel(), minlength=T.n_elements[-2])
    mon.check('valid', inc.max() <= 2 and inc.min() >= 1, tag='facets', **kw)
    if counts is not None:
        mon.eq('counts', list(T.n_elements), list(counts), **kw)
    mon.eq('topology', euler(T), chi, tag='euler', **kw)
    mon.check('topology', bool(np.all(inc == 2)) == closed and (not oriented or bool(T.is_closed) == closed), tag='closed', **kw)
    if oriented:
        for a, b in zip(T.matrices, T.matrices[1:]):
            mon.check('oriented', abs(a.astype(int) * b.astype(int)).sum() == 0, tag='chain', **kw)
        s = np.asarray((T.matrices[-1].astype(int) * np.ones(T.n_elements[-1], int))).ravel()
        mon.check('oriented', np.all(s[inc == 2] == 0) and np.all(abs(s[inc == 1]) == 1) and bool(T.is_oriented), **kw)
    mon.state(*[repr(v) for v in kw.values()])


def simplex_edges(K):
    e = np.asarray(K.topology.elements[1])
    return np.linalg.norm(K.vertices[e[:, 0]] - K.vertices[e[:, 1]], axis=-1)


def case_simplex(mon, rng, i):
    from pycomplex import synthetic
    n, eq = int(rng.integers(1, 6)), bool(rng.integers(2))
    with mon.calling('n_simplex', n=n, equilateral=eq):
        K = synthetic.n_simplex(n, eq) if not eq or rng.integers(2) else synthetic.n_simplex(n)
    observe(mon, K, [math.comb(n + 1, k + 1) for k in range(n + 1)], 1, False, generator='n_simplex', n=n, equilateral=eq)
    x = K.vertices
    mon.eq('extent', x.shape, (n + 1, n))
    if eq:
        L = np.sqrt(2 * (n + 1) / n)
        mon.close('regular', simplex_edges(K), np.full(n * (n + 1) // 2, L), 1e-9, n=n)
        mon.close('extent', np.linalg.norm(x, axis=1), np.ones(n + 1), 1e-9, n=n)
        mon.close('extent', x.sum(axis=0), np.zeros(n), 0, 1e-9, n=n)
        want = L ** n / math.factorial(n) * np.sqrt((n + 1) / 2 ** n)
    else:
        mon.eq('extent', sorted(map(tuple, x.tolist())), sorted([(0.,) * n] + [tuple(float(a == b) for a in range(n)) for b in range(n)]))
        want = 1 / math.factorial(n)
    mon.close('measure', np.abs(geo.signed_volume(x[np.asarray(K.topology.elements[-1])])), np.array([want]), 1e-9, n=n)


def grid_counts(shape):
    n = len(shape)
    return [int(sum(np.prod([s if d in c else s + 1 for d, s in enumerate(shape)]) for c in itertools.combinations(range(n), k))) for k in range(n + 1)]


def observe_grid(mon, K, lo, **kw):
    shape, mirror = kw["shape"], kw["mirror"]
    n = len(shape)
    observe(mon, K, grid_counts(shape), 1, False, oriented=mirror, **kw)
    hi = np.asarray(lo) + shape
    mon.close('extent', np.array([K.vertices.min(0), K.vertices.max(0)]), np.array([lo, hi], float), 1e-12, 1e-12, **kw)
    cells = np.asarray(K.topology.elements[-1])
    corner = K.vertices[cells.reshape(len(cells), -1)]
    mon.check('regular', np.allclose(corner.max(1) - corner.min(1), 1) and np.allclose(sorted(map(tuple, np.round(corner.min(1) - lo, 6).tolist())), sorted(itertools.product(*[range(s) for s in shape]))), **kw)
    if mirror:
        o = corner[:, [0] + [1 << (n - 1 - d) for d in range(n)]]
        v = np.linalg.det(o[:, 1:] - o[:, :1])
        mon.close('measure', v, np.full(len(cells), v[0]), 1e-9, **kw)
        mon.close('measure', abs(v).sum(), np.prod(shape), 1e-9, **kw)
        if n > 0 and K.topology.boundary is not None:
            b = K.topology.boundary
            mon.eq('counts', int(b.n_elements[-1]), int(sum(2 * np.prod(shape) / s for s in shape)), tag='boundary', **kw)
    else:
        mon.check('unoriented', n == 1 or not np.all(np.isin(np.asarray(K.topology.matrices[-1].sum(axis=1)).ravel(), [-1, 0, 1])) or min(shape) == max(shape) == 1, **kw)


def case_grid(mon, rng, i):
    from pycomplex import synthetic
    n = int(rng.integers(1, 5))
    shape = tuple(int(v) for v in rng.integers(1, {1: 9, 2: 6, 3: 4, 4: 3}[n], size=n))
    mirror = bool(rng.random() < .8)
    if rng.random() < .3:
        shape = (1,) * n
        centering = bool(rng.integers(2))
        with mon.calling('n_cube', n=n, centering=centering, mirror=mirror):
            K = synthetic.n_cube(n, centering=centering, mirror=mirror) if centering or not mirror else synthetic.n_cube(n)
        name = 'n_cube'
    else:
        centering = bool(rng.integers(2))
        given = shape if rng.integers(2) else list(shape)
        with mon.calling('n_cube_grid', shape=shape, centering=centering, mirror=mirror):
            K = synthetic.n_cube_grid(given, centering=centering, mirror=mirror) if not centering or not mirror else synthetic.n_cube_grid(given)
        name = 'n_cube_grid'
    lo = -np.array(shape) / 2 if centering else np.zeros(n)
    observe_grid(mon, K, lo, generator=name, shape=shape, mirror=mirror, centering=centering)


def case_round(mon, rng, i):
    from pycomplex import synthetic
    k = int(rng.integers(0, 7))
    with mon.calling('circle', k=k):
        K = synthetic.circle(k)
    m = 4 * 2 ** k
    observe(mon, K, [m, m], 0, True, generator='circle', k=k)
    mon.close('extent', np.linalg.norm(K.vertices, axis=1), np.ones(m), 1e-12, k=k)
    mon.close('measure', simplex_edges(K), np.full(m, 2 * np.sin(np.pi / m)), 1e-9, k=k)
    mon.close('measure', abs(K.volume()), m / 2 * np.sin(2 * np.pi / m), 1e-9, k=k)
    k = int(rng.integers(0, 5))
    length, radius = np.exp(rng.normal(size=2))
    with mon.calling('cylinder', length=length, radius=radius, k=k):
        K = synthetic.cylinder(length, radius, k) if k != 1 else synthetic.cylinder(length, radius)
    a, b = 2 ** k, 4 * 2 ** k
    observe(mon, K, [(a + 1) * b, a * b + (a + 1) * b, a * b], 0, False, generator='cylinder', k=k, length=length, radius=radius)
    mon.close('extent', np.linalg.norm(K.vertices[:, 1:], axis=1), np.full(len(K.vertices), radius), 1e-9)
    mon.close('extent', np.array([K.vertices[:, 0].min(), K.vertices[:, 0].max()]), np.array([-length / 2, length / 2]), 1e-9)
    q = K.vertices[np.asarray(K.topology.elements[2]).reshape(-1, 4)]
    area = np.linalg.norm(np.cross(q[:, 1] - q[:, 0], q[:, 2] - q[:, 0]), axis=1)
    mon.close('measure', area, np.full(a * b, length / a * radius * 2 * np.sin(np.pi / b)), 1e-9)


def observe_sphere(mon, K, counts, chi, full=None, around=True, **kw):
    observe(mon, K, counts, chi, True, **kw)
    mon.close('extent', np.linalg.norm(K.vertices, axis=1), np.ones(len(K.vertices)), 1e-9, **kw)
    x = K.vertices[np.asarray(K.topology.elements[-1])]
    d = np.linalg.det(x)                                  # cones from the origin: all to the same side, and they fill the polytope
    if around:
        mon.check('measure', np.all(d > 0) or np.all(d < 0), tag='side', **kw)
    else:
        mon.check('measure', np.abs(d).min() > 0, tag='positive', **kw)
    if full is not None:
        mon.close('measure', np.abs(d).sum() / math.factorial(x.shape[-1]), full, 1e-9, tag='volume', **kw)


def case_polytope(mon, rng, i):
    from pycomplex import synthetic
    n = int(rng.integers(2, 6))
    with mon.calling('n_cube_dual', n=n):
        K = synthetic.n_cube_dual(n)
    observe_sphere(mon, K, [math.comb(n, k + 1) * 2 ** (k + 1) for k in range(n)], 1 - (-1) ** n, 2 ** n / math.factorial(n), generator='n_cube_dual', n=n)
    mon.close('regular', simplex_edges(K), np.full(2 * n * (n - 1), np.sqrt(2)), 1e-9, n=n)
    r = int(rng.integers(0, 4))
    with mon.calling('icosphere', r=r):
        K = synthetic.icosphere(r) if r else synthetic.icosahedron()
    m = 4 ** r
    observe_sphere(mon, K, [10 * m + 2, 30 * m, 20 * m], 2, generator='icosphere', r=r)
    deg = np.bincount(np.asarray(K.topology.elements[1]).ravel())
    mon.check('regular', np.sum(deg == 5) == 12 and np.sum(deg == 6) == len(deg) - 12, r=r)
    e = simplex_edges(K)
    if r == 0:
        mon.close('regular', e, np.full(30, 4 / np.sqrt(10 + 2 * np.sqrt(5))), 1e-9)
    mon.check('regular', e.max() < 1.35 * e.min(), r=r, ratio=e.max() / e.min())
    with mon.calling('metric', r=r):
        PM = K.primal_metric
    mon.check('measure', np.all(PM[2] > 0), r=r)
    mon.close('measure', PM[2].sum(), 4 * np.pi, 1e-9, r=r)


def case_cell600(mon, rng, i):
    from pycomplex import synthetic
    with mon.calling('hexacosichoron'):
        K = synthetic.hexacosichoron()
    phi = (1 + np.sqrt(5)) / 2
    observe_sphere(mon, K, [120, 720, 1200, 600], 0, 600 * math.sqrt(2) / 12 / phi ** 3 * (phi ** 2 / math.sqrt(8)) / 4, generator='hexacosichoron', i=i)
    mon.close('regular', simplex_edges(K), np.full(720, 1 / phi), 1e-9)
    mon.check('regular', np.all(np.bincount(np.asarray(K.topology.elements[1]).ravel()) == 12))


def case_delaunay(mon, rng, i):
    from pycomplex import synthetic
    n = int(rng.choice([2, 2, 3, 3, 4]))
    density = int(rng.integers(2, {2: 10, 3: 6, 4: 4}[n]))
    it = int(rng.choice([0, 0, 1, 2, 5, 30 if n == 2 else 8]))
    seed = int(rng.integers(1 << 30))
    np.random.seed(seed)
    kw = dict(generator='delaunay_cube', n=n, density=density, iterations=it, numpy_seed=seed)
    with mon.calling('delaunay_cube', **kw):
        K = synthetic.delaunay_cube(density, n, it)
    T = K.topology
    observe(mon, K, None, 1, False, **kw)
    x = K.vertices
    mon.close('extent', np.array([x.min(0), x.max(0)]), np.array([np.zeros(n), np.ones(n)]), 1e-12, 1e-12, **kw)
    v = geo.signed_volume(x[np.asarray(T.elements[-1])])
    mon.check('measure', np.all(v > 1e-12) or np.all(v < -1e-12), smallest=np.abs(v).min(), **kw)
    mon.close('measure', np.abs(v).sum(), 1., 1e-9, **kw)
    # its outside is the regular grid on the surface of the cube
    inc = np.bincount(np.asarray(T._boundary[-1]).ravel(), minlength=T.n_elements[-2])
    out = np.asarray(T.elements[-2])[inc == 1]
    on = np.any((np.abs(x) < 1e-12) | (np.abs(x - 1) < 1e-12), axis=1)
    mon.check('extent', np.array_equal(np.unique(out), np.flatnonzero(on)), tag='surface', **kw)
    grid = x[on] * density
    mon.check('counts', np.allclose(grid, np.round(grid), atol=1e-9) and on.sum() == (density + 1) ** n - (density - 1) ** n, tag='surface', **kw)
    if it == 0:
        mon.check('counts', len(x) <= density ** n + on.sum(), **kw)
    c = x[np.asarray(out)].mean(axis=1)
    mon.check('measure', np.all(np.any((np.abs(c) < 1e-9) | (np.abs(c - 1) < 1e-9), axis=1)), tag='surface', **kw)
    with mon.calling('is_pairwise_delaunay', **kw):
        boundary = K.boundary
    mon.check('topology', euler(boundary.topology) == 1 + (-1) ** (n - 1) and bool(boundary.topology.is_closed), tag='boundary', **kw)


def case_sphere(mon, rng, i):
    from pycomplex import synthetic
    n = int(rng.integers(2, 5))
    N = int(rng.integers(n + 2, {2: 30, 3: 40, 4: 24}[n]))
    kw = dict(n=n, points=N, iterations=int(rng.choice([1, 2, 5])), weights=bool(rng.integers(2)), condition=[None, 'delaunay', 'centered'][int(rng.integers(3))], numpy_seed=int(rng.integers(1 << 30)))
    np.random.seed(kw['numpy_seed'])
    with mon.calling('optimal_delaunay_sphere', **kw), contextlib.redirect_stdout(io.StringIO()):
        K = synthetic.optimal_delaunay_sphere(N, n, iterations=kw['iterations'], weights=kw['weights'], push_iterations=int(rng.integers(0, 11)), condition=kw['condition'])
    inside = np.all(scipy.spatial.ConvexHull(K.vertices).equations[:, -1] < -1e-6)      # few points may all lie to one side
    observe_sphere(mon, K, None, 1 - (-1) ** n, around=bool(inside), generator='optimal_delaunay_sphere', **kw)
    mon.eq('counts', len(K.vertices), N, **kw)
    if n == 3:
        mon.eq('counts', list(K.topology.n_elements), [N, 3 * N - 6, 2 * N - 4], **kw)

    w = K.copy(weights=None)
    if kw['weights']:
        best = w.optimize_weights()
        mon.check('weights', K.weights is not None and best.weights is not None and np.allclose(K.weights, best.weights, rtol=1e-9, atol=1e-12), got=K.weights, want=best.weights, **kw)
    else:
        mon.check('weights', K.weights is None, got=K.weights, **kw)


def case_stop(mon, rng, i):
    """iterations that change nothing any more were stopped by the condition, which holds"""
    from pycomplex import synthetic
    N, T = int(rng.integers(5, 40)), int(rng.integers(1, 12))
    kw = dict(n=3, points=N, weights=bool(rng.integers(2)), condition=['delaunay', 'centered'][int(rng.integers(2))], numpy_seed=int(rng.integers(1 << 30)))
    mon.state('stop', N, T, kw)
    K = []
    for more in (0, 1):
        np.random.seed(kw['numpy_seed'])
        with mon.calling('optimal_delaunay_sphere', **kw), contextlib.redirect_stdout(io.StringIO()):
            K.append(synthetic.optimal_delaunay_sphere(N, 3, iterations=T + more, weights=kw['weights'], condition=kw['condition']))
    same = np.array_equal(K[0].vertices, K[1].vertices)
    holds = bool(K[0].is_pairwise_delaunay if kw['condition'] == 'delaunay' else K[0].is_well_centered)
    mon.check('stop', same == holds, iterations=T, stopped=same, holds=holds, **kw)


CASES = dict(stop=case_stop, simplex=case_simplex, grid=case_grid, round=case_round, polytope=case_polytope, cell600=case_cell600, delaunay=case_delaunay, sphere=case_sphere)
PLAN = dict(quick=dict(stop=160, simplex=160, grid=480, round=160, polytope=160, cell600=1, delaunay=240, sphere=160),
            thorough=dict(stop=1500, simplex=200, grid=1500, round=500, polytope=200, cell600=5, delaunay=2000, sphere=1500))
