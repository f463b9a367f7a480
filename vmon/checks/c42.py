"""C42 cost: interpreter steps do not grow with the size of a complex, memory grows at most in proportion"""
import gc
import sys
import tracemalloc
import numpy as np
from vmon import geo
from vmon.checks import c10, c36, c41
from vmon.purity import attributes, outcome, run

PROP = 'C42'
RULE = ('each public query, derivation and operator of grids, random triangulations, spheres and tetrahedral meshes, and each geometric function, on a smaller and on a larger input of the same kind; '
        'sys.monitoring counts the lines, calls and jumps that the interpreter makes, tracemalloc the peak of memory; a state is one query on one kind of input')
REQUIRED = {'steps': 600, 'memory': 600, 'linear': 4}
# what is known to visit vertices one by one
LINEAR = {'check_manifold', 'is_manifold', 'regions_per_vertex'}
TOOL = 2
_count = [0]
_ready = []


def _event(*_):
    _count[0] += 1


def cost(f):
    """(interpreter events, peak of memory in bytes)"""
    m = sys.monitoring
    e = m.events
    if not _ready:
        m.use_tool_id(TOOL, 'vmon-cost')
        for k in (e.LINE, e.JUMP, e.PY_START):
            m.register_callback(TOOL, k, _event)
        _ready.append(1)
    gc.collect()
    tracemalloc.start()
    _count[0] = 0
    m.set_events(TOOL, e.LINE | e.JUMP | e.PY_START)
    try:
        f()
    finally:
        m.set_events(TOOL, 0)
        peak = tracemalloc.get_traced_memory()[1]
        tracemalloc.stop()
    return _count[0], peak


def compare(mon, what, size, runs, linear=False, **kw):
    """runs on sizes [mid, big], after a warm-up"""
    (a, p), (b, q) = runs
    r = size[1] / size[0]
    if linear:
        mon.check('linear', b <= 1.5 * r * a + 2000, query=what, size=size, steps=(a, b), **kw)
    else:
        mon.check('steps', b <= 1.7 * a + 500, query=what, size=size, steps=(a, b), **kw)
    mon.check('memory', q <= 1.6 * r * p + 2 ** 18, query=what, size=size, peak=(p, q), **kw)


def build(rng, kind, s):
    """(complex of about s * s cells, family)"""
    from pycomplex import synthetic
    from scipy.spatial import Delaunay
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian2
    if kind == 'delaunay':
        x = rng.random((s * s // 2 + 8, 2))
        cells = Delaunay(x).simplices
        cls = [ComplexSimplicialEuclidian, ComplexTriangularEuclidian2][rng.integers(2)]
        K = cls(x, cells.astype(np.int32))
        return K.copy(topology=K.topology.fix_orientation()), 'flat'
    if kind == 'tetrahedra':
        x = rng.random((max(8, s * s // 6), 3))
        K = ComplexSimplicialEuclidian(x, Delaunay(x).simplices.astype(np.int32))
        return K.copy(topology=K.topology.fix_orientation()), 'flat'
    if kind in ('sphere', 'surface'):
        x = c10.unit(rng.normal(size=(s * s // 2, 3)))
        from scipy.spatial import ConvexHull
        from pycomplex.complex.simplicial.spherical import ComplexSpherical2
        from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
        t = ConvexHull(x).simplices
        flip = np.linalg.det(x[t]) < 0
        t[flip] = t[flip][:, ::-1]
        if kind == 'surface':
            return ComplexTriangularEuclidian3(vertices=x * [1, 2, 3], triangles=t.astype(np.int32)), 'surface'
        return ComplexSpherical2(vertices=x, simplices=t.astype(np.int32)), 'sphere'
    if kind == 'curve':
        from pycomplex.complex.cubical import ComplexCubical1Euclidian2
        n = s * s
        a = np.arange(n) * 2 * np.pi / n
        t = np.stack([np.arange(n), (np.arange(n) + 1) % n], axis=1)
        return ComplexCubical1Euclidian2(vertices=np.stack([np.cos(a), np.sin(a)], 1), cubes=t.astype(np.int32)), 'cubical'
    if kind == 'solid':
        n = max(2, int(round((s * s) ** (1 / 3))))
        K = synthetic.n_cube_grid((n,) * 3)
        return (K.as_33().as_regular(), 'regular') if rng.random() < .5 else (K, 'cubical')
    K = synthetic.n_cube_grid((s, s))
    return (K, 'cubical') if kind == 'cubical' else (K.as_22().as_regular(), 'regular')


KINDS, PARTS = ['delaunay', 'tetrahedra', 'sphere', 'cubical', 'regular', 'solid', 'curve', 'surface'], 10
SIZES = [6, 16, 40]


def fresh(K):
    """a new object with nothing cached"""
    T = K.topology
    return K.copy(topology=type(T)(elements=[e.copy() for e in T.elements], boundary=[b.copy() for b in T._boundary]))


def case_query(mon, rng, i):
    kind, part = KINDS[i % len(KINDS)], i // len(KINDS) % PARTS
    seed = int(rng.integers(2 ** 31))
    mon.label(kind)
    built = [build(np.random.default_rng(seed), kind, s) for s in SIZES]
    family = built[0][1]
    Ks = [b[0] for b in built]
    size = [int(K.topology.n_elements[-1]) for K in Ks]
    mon.note(kind=kind, cells=size)
    cells = [K.topology.elements[-1].copy() for K in Ks]
    new = lambda k: type(Ks[k])(Ks[k].vertices.copy(), cells[k].copy())
    queries = []
    for prefix in ['', 'topology', 'topology.dual', 'boundary', 'boundary.topology']:
        v, o = outcome(lambda: run(Ks[0], prefix) if prefix else Ks[0])
        if o is None or v[0] == 'raises':
            continue
        queries += [((prefix + '.' if prefix else '') + a, None) for a, _ in attributes(o, c36.SKIP)]
    P = []
    for K in Ks:
        r = np.random.default_rng(seed)
        P.append({q: (f, a) for q, f, a in c36.parameters(r, K, family)})
        # as many points as cells
        n = int(K.topology.n_elements[-1])
        x = K.vertices[K.topology.elements[-1].reshape(n, -1)]
        w = r.dirichlet(np.ones(x.shape[1]), size=n)
        p = np.einsum('ij,ijk->ik', w, x)
        if family == 'sphere':
            p /= np.linalg.norm(p, axis=1, keepdims=True)
        f0 = r.normal(size=K.topology.n_elements[0])
        P[-1].update({'pick_primal many': (lambda K, p: K.pick_primal(p), (p,)), 'pick_dual many': (lambda K, p: K.pick_dual(p), (p,)), 'pick_fundamental many': (lambda K, p: K.pick_fundamental(p), (p,)),
                      'pick_primal guess many': (lambda K, p, g: K.pick_primal(p, g), (p, np.where(r.random(n) < .5, np.arange(n), r.integers(0, n, n)))),
                      'pick_fundamental guess many': (lambda K, p: K.pick_fundamental(p, K.pick_fundamental(p + 0)[0][::-1].copy()), (p,)),
                      'pick_primal unweighted many': (lambda K, p: K.pick_primal(p, weighted=False), (p,)),
                      'sample_primal_0 many': (lambda K, f, p: K.sample_primal_0(f, p), (f0, p))})
        del P[-1]['pick_primal_brute']                # every point against every cell, as it says
        P[-1].pop('product', None)                    # as large as it must be
    queries += [('P ' + q, q) for q in P[0]]
    for name, q in [queries[j] for j in np.random.default_rng(0).permutation(len(queries))[part::PARTS]]:
        last = name.split('.')[-1]
        linear = last in LINEAR
        runs, ok = [], True
        for k in ([0, 0, 1] if linear else [0, 1, 2]):
            K = new(k)
            ask = (lambda: run(K, name)) if q is None else (lambda: P[k][q][0](K, *P[k][q][1]))
            if not runs:                              # imports, caches
                ok = outcome(ask)[0][0] != 'raises'
                if not ok:
                    break
                K = new(k)
            try:
                runs.append(cost(ask))
            except Exception:
                ok = False
                break
        if not ok:
            mon.skip('refused')
            continue
        mon.state(kind, name)
        compare(mon, name, size[:2] if linear else size[1:], runs[1:], linear, tag=None, kind=kind)


def case_function(mon, rng, i):
    """functions of batches; the batch is repeated"""
    F = [o for o in c41.functions(rng) if o[0] not in ('orthonormalize', 'is_wellcentered', 'selection_matrix', 'element_indices', 'index_matrix', 'multi_indices')]
    for j in rng.permutation(len(F))[:10]:
        name, f, args = F[j]
        runs, sizes = [], []
        for k in (1, 200, 1200):
            a = [np.concatenate([v] * k) for v in args]
            sizes.append(len(a[0]))
            f(*a)
            runs.append(cost(lambda: f(*a)))
        mon.state(name)
        compare(mon, name, sizes[1:], runs[1:], tag='function')


def case_stencil(mon, rng, i):
    from pycomplex.stencil.complex import StencilComplex
    n = int(rng.integers(1, 4))
    runs, sizes = {}, []
    for s in (2, 40, 120) if n == 1 else (2, 12, 30) if n == 2 else (2, 6, 12):
        shape = (2 * s,) * n
        sizes.append(np.prod(shape))
        K = StencilComplex.from_shape(shape, 1.)
        T = K.topology
        f = [np.random.default_rng(0).normal(size=np.shape(T.form(k))) for k in range(n + 1)]
        p = np.random.default_rng(0).uniform(0, 2 * s, size=(int(np.prod(shape)), n))
        g = [np.random.default_rng(0).normal(size=np.shape(K.coarse.topology.form(k))) for k in range(n + 1)]
        Q = {'averages': lambda: T.averaging_operators_0[n](f[0]), 'sample_0': lambda: K.sample_0(f[0], p)}
        for k in range(n + 1):
            Q['hodge %d' % k] = lambda k=k: K.hodge[k](f[k])
            Q['coarsen %d' % k] = lambda k=k: K.coarsen[k](f[k])
            Q['refine %d' % k] = lambda k=k: K.refine[k](g[k])
            if k < n:
                Q['primal %d' % k] = lambda k=k: T.primal[k](f[k])
                Q['dual %d' % k] = lambda k=k: T.dual[k](f[k + 1])
                Q['laplace %d' % k] = lambda k=k: (T.dual[k] * T.primal[k])(f[k])
        for name, h in Q.items():
            h()
            runs.setdefault(name, []).append(cost(h))
    for name, r in runs.items():
        mon.state(n, name)
        compare(mon, name, sizes[1:], r[1:], tag='stencil', dim=n)


def others(rng, s, tmp):
    """(name, proportional size, function without arguments)"""
    import os
    import scipy.sparse as sp
    from pycomplex import sparse, synthetic
    from pycomplex.block import DenseBlockArray, SparseBlockMatrix
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
    from pycomplex.complex.simplicial.spherical import ComplexSpherical2
    from pycomplex.topology import util as U
    from pycomplex.topology.cubical import TopologyCubical
    from pycomplex.topology.simplicial import TopologySimplicial
    r = np.random.default_rng(0)
    n = s * s
    level = {6: 0, 16: 2, 40: 3}[s]
    sphere = synthetic.icosphere(level)
    grid, solid = synthetic.n_cube_grid((s, s)), synthetic.n_cube_grid((max(2, int(n ** (1 / 3))),) * 3)
    tri, cubes = sphere.topology.elements[-1], grid.topology.elements[-1]
    m = len(tri)
    coarse = synthetic.icosphere(level)
    fine = coarse.subdivide_loop()
    gcoarse = synthetic.n_cube_grid((s, s)).as_22()
    gfine = gcoarse.subdivide_cubical()
    surface = ComplexTriangularEuclidian3(sphere.vertices, triangles=tri)
    path = os.path.join(tmp, '%d.stl' % s)
    surface.save_STL(path)
    a, b = r.integers(0, n, size=4 * n), np.arange(n)
    M = sp.random(n, n, 5. / n, 'csr', random_state=0) + sp.identity(n)
    L = grid.topology.matrices[0]
    D = [[sp.csr_matrix(M), sp.csr_matrix(M)], [sp.csr_matrix(M), sp.csr_matrix(M)]]
    x = r.normal(size=2 * n)
    S = sparse.Sparse([r.permutation(n), r.permutation(n)], r.normal(size=n)) if hasattr(sparse, 'Sparse') else None
    out = [
        ('TopologySimplicial', m, lambda: TopologySimplicial.from_simplices(tri)), ('TopologyCubical', n, lambda: TopologyCubical.from_cubes(cubes)), ('cubes', solid.topology.n_elements[-1], lambda: TopologyCubical.from_cubes(solid.topology.elements[-1])),
        ('n_cube_grid', n, lambda: synthetic.n_cube_grid((s, s))), ('n_cube_grid 3', solid.topology.n_elements[-1], lambda: synthetic.n_cube_grid((max(2, int(n ** (1 / 3))),) * 3)),
        ('delaunay_cube', n, lambda: synthetic.delaunay_cube(s, 2, 3)), ('save_STL', m, lambda: surface.save_STL(path + '2')), ('load_STL', m, lambda: ComplexTriangularEuclidian3.load_STL(path)),
        ('normalize_l1', n, lambda: sparse.normalize_l1(M)), ('ones_like', n, lambda: sparse.ones_like(M)), ('inv_diag', n, lambda: sparse.inv_diag(sp.diags(x))), ('sparse_zeros', n, lambda: sparse.sparse_zeros((n, n))), ('multi_indices', n, lambda: sparse.multi_indices(a, a[::-1])),
        ('element_indices', m, lambda: U.element_indices(tri, tri[::-1])), ('sort_and_argsort', m, lambda: U.sort_and_argsort(tri, 1)), ('relative_permutations', m, lambda: U.relative_permutations(np.argsort(tri, axis=1), np.argsort(-tri, axis=1))),
        ('selection_matrix', n, lambda: U.selection_matrix(b % 2)), ('transfer_matrix', n, lambda: U.transfer_matrix(a, a[::-1], (n, n))),
        ('sparse_to_elements', n, lambda: U.sparse_to_elements(L.T)), ('block product', n, lambda: SparseBlockMatrix(D) * DenseBlockArray([x[:n], x[n:]])), ('block square', n, lambda: SparseBlockMatrix(D) * SparseBlockMatrix(D)),
        ('block merge', n, lambda: SparseBlockMatrix(D).merge()), ('block transpose', n, lambda: SparseBlockMatrix(D).transpose()), ('block norm', n, lambda: SparseBlockMatrix(D).norm_l1(1)), ('block diagonal', n, lambda: SparseBlockMatrix(D).diagonal()),
        ('loop_transfers', m, lambda: TopologySimplicial.subdivide_loop_transfer(coarse.topology, fine.topology)),
        ('multigrid_transfer_dual', m, lambda: ComplexSpherical2.multigrid_transfer_dual(coarse, fine)), ('cubical_relations', n, lambda: TopologyCubical.subdivide_cubical_relations(gcoarse.topology, gfine.topology)),
        ('cubical_transfers', n, lambda: TopologyCubical.subdivide_cubical_transfers(gcoarse.topology, gfine.topology)),
    ]
    return out


def case_other(mon, rng, i):
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(prefix='vmon-cost-')
    try:
        O = [others(rng, s, tmp) for s in SIZES]
        for j in rng.permutation(len(O[0]))[:12]:
            name = O[0][j][0]
            if outcome(O[0][j][2])[0][0] == 'raises':
                mon.skip('refused ' + name)
                continue
            runs = [cost(O[k][j][2]) for k in (1, 2)]
            mon.state(name)
            compare(mon, name, [int(O[k][j][1]) for k in (1, 2)], runs)
    finally:
        shutil.rmtree(tmp)


CASES = dict(query=case_query, function=case_function, stencil=case_stencil, other=case_other)
PLAN = dict(quick=dict(query=80, function=16, stencil=6, other=16), thorough=dict(query=1500, function=200, stencil=40, other=200))
