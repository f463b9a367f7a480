"""C41 answers depend on the values of arrays and not on how they are stored"""
import numpy as np
from vmon import gen, geo, picks
from vmon.checks import c10, c17, c36
from vmon.purity import attributes, freeze, outcome, run, same

PROP = 'C41'
RULE = ('complexes and topologies built from, and queries and geometric functions called with, arrays that hold the same values in another way: column-major, reversed, strided, with axes in another order, read-only, in '
        'wider, narrower or unsigned integers, subclasses, lists; positions that are whole numbers given as integers and as floats, and so with the arguments; each answer is compared with that for a plain array; a state is one (object, storage)')
REQUIRED = {'object': 200, 'query': 1500, 'argument': 400, 'topology': 300, 'function': 600, 'stencil': 60, 'block': 30, 'integer': 1500}


class Sub(np.ndarray):
    pass


def strided(a):
    b = np.full(tuple(2 * s + 1 for s in a.shape), 7, a.dtype)
    v = b[tuple(slice(1, 2 * s, 2) for s in a.shape)]
    v[...] = a
    return v


def reversed_(a):
    s = tuple(slice(None, None, -1) for _ in a.shape)
    return np.ascontiguousarray(a[s])[s]


def rolled(a):
    """axes in memory in another order"""
    p = np.roll(np.arange(a.ndim), 1)
    return np.ascontiguousarray(np.transpose(a, p)).transpose(np.argsort(p))


def readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def wide(a):
    return a.astype(np.int64) if a.dtype.kind == 'i' else a.copy()


def unsigned(a):
    return a.astype(np.uint32) if a.dtype.kind == 'i' and (a >= 0).all() else a.copy()


def narrow(a):
    return a.astype(np.int16) if a.dtype.kind == 'i' and (np.abs(a) < 2 ** 15).all() else a.copy()


STORE = dict(column=np.asfortranarray, reversed=reversed_, strided=strided, rolled=rolled, readonly=readonly, subclass=lambda a: a.copy().view(Sub), list=lambda a: a.tolist(),
             tuple=lambda a: tuple(tuple(r) if isinstance(r, list) else r for r in a.tolist()), int64=wide, uint32=unsigned, int16=narrow)
LAYOUT = ['column', 'reversed', 'strided', 'rolled', 'readonly']


def store(how, a):
    if a is None or not isinstance(a, np.ndarray):
        return a
    return STORE[how](a)


def objects(rng):
    """(name, function of a storage function -> complex, family)"""
    from pycomplex.complex.cubical import ComplexCubical
    from pycomplex.complex.regular import ComplexRegular1, ComplexRegular2, ComplexRegular3
    kind = rng.choice(['flat', 'surface', 'sphere', 'cubical', 'regular'])
    if kind == 'flat':
        d = picks.flat_mesh(rng)
        cells = gen.orient(d['cells'])
        def build(s):
            from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
            return ComplexSimplicialEuclidian(vertices=s(d['x']), simplices=s(cells), weights=None if d['w'] is None else np.asarray(s(d['w'])))
        return d['name'], build, 'flat'
    if kind == 'surface':
        while True:
            d = geo.euclidean(rng, n=2, weights=False)
            if d['x'].shape[1] in (2, 3):
                break
        def build(s):
            from pycomplex.complex.simplicial import euclidian
            cls = euclidian.ComplexTriangularEuclidian2 if d['x'].shape[1] == 2 else euclidian.ComplexTriangularEuclidian3
            return cls(vertices=s(d['x']), triangles=s(d['cells']))
        return d['name'], build, 'flat'
    if kind == 'sphere':
        d = c10.mesh(rng)
        if len(d['cells']) > 80:
            d = c10.mesh(rng)
        def build(s):
            from pycomplex.complex.simplicial.spherical import ComplexSpherical2
            return ComplexSpherical2(vertices=s(d['x']), simplices=s(d['cells']))
        return d['name'], build, 'sphere'
    d = c17.uniform(rng, int(rng.integers(1, 4)))
    while len(d['cells']) > 60:
        d = c17.uniform(rng, int(rng.integers(1, 4)))
    cls = ComplexCubical if kind == 'cubical' else (ComplexRegular1, ComplexRegular2, ComplexRegular3)[d['n'] - 1]
    return d['name'], (lambda s: cls(vertices=s(d['x']), cubes=s(d['cells']))), str(kind)


def equal(a, b):
    return same(a, b, 1e-6)


def case_complex(mon, rng, i):
    name, build, family = objects(rng)
    how = str(rng.choice(list(STORE)))
    mon.label(name)
    plain = build(lambda a: a.copy())
    mon.state(name, plain.vertices, how)
    mon.note(name=name, storage=how)
    with mon.calling('object', object=name, storage=how):
        K = build(lambda a: store(how, a))
    mon.check('object', np.array_equal(K.vertices, plain.vertices) and all(np.array_equal(p, q) for p, q in zip(K.topology.elements, plain.topology.elements)), object=name, storage=how)
    queries = []
    for prefix in ['', 'topology', 'topology.dual', 'boundary']:
        v, o = outcome(lambda: run(plain, prefix) if prefix else plain)
        if o is None or v[0] == 'raises':
            continue
        queries += [(prefix + '.' if prefix else '') + a for a, _ in attributes(o, c36.SKIP | c36.SLOW)]
    for q in [queries[k] for k in rng.permutation(len(queries))[:25]]:
        a = outcome(lambda: run(plain, q))[0]
        if a[0] == 'raises':
            continue
        b = outcome(lambda: run(K, q))[0]
        mon.check('query', equal(b, a), tag=q, object=name, query=q, storage=how, got=repr(b)[:400], plain=repr(a)[:400])
    # arguments stored in another way
    params = c36.parameters(rng, plain, family)
    for k in rng.permutation(len(params))[:8]:
        q, f, args = params[k]
        a = outcome(lambda: f(plain, *args))[0]
        if a[0] == 'raises' or not any(isinstance(v, np.ndarray) for v in args):
            continue
        lay = str(rng.choice(LAYOUT))
        b = outcome(lambda: f(K, *[store(lay, v) for v in args]))[0]
        mon.check('argument', equal(b, a), tag=q, object=name, query=q, storage=(how, lay), got=repr(b)[:400], plain=repr(a)[:400])


def floating(v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'array' and isinstance(v[1], np.ndarray) and v[1].dtype.kind in 'iub':
        return ('array', v[1].astype(float))
    if isinstance(v, (tuple, list)):
        return type(v)(floating(u) for u in v)
    return {k: floating(u) for k, u in v.items()} if isinstance(v, dict) else v


def case_integer(mon, rng, i):
    """positions that are whole numbers, as integers and as floats"""
    from pycomplex import synthetic
    from pycomplex.complex.cubical import ComplexCubical
    from pycomplex.complex.regular import ComplexRegular1, ComplexRegular2, ComplexRegular3
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian2
    kind = str(rng.choice(['cubical', 'regular', 'flat', 'random']))
    if kind in ('cubical', 'regular'):
        R = synthetic.n_cube_grid(tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 4)))))
        x, t = np.round(R.vertices * 4).astype(int), R.topology.elements[-1]
        if kind == 'cubical':
            x = x * 4 + rng.integers(-1, 2, size=x.shape)
        K = ComplexCubical(x.astype(float), t)
        cast = [{1: K.as_11, 2: K.as_22, 3: K.as_33}[R.topology.n_dim](), K][rng.integers(2)]
        cls = type(cast) if kind == 'cubical' else (ComplexRegular1, ComplexRegular2, ComplexRegular3)[R.topology.n_dim - 1]
    elif kind == 'flat':
        S = synthetic.n_cube_grid(tuple(int(v) for v in rng.integers(1, 4, size=2))).as_22().as_regular().subdivide_simplicial()
        x, t = np.round(S.vertices * 6).astype(int), S.topology.elements[-1]
        cls = [ComplexSimplicialEuclidian, ComplexTriangularEuclidian2][rng.integers(2)]
    else:
        kind = 'flat'
        d = picks.flat_mesh(rng)
        u = d['x'] - d['x'].mean(axis=0)
        x, t = np.round(u / np.abs(u).max() * 10 ** 6).astype(int), gen.orient(d['cells'])
        cls = ComplexSimplicialEuclidian
    how = [np.int64, np.int32, np.int16][rng.integers(3 if np.abs(x).max() < 2 ** 7 else 1)]
    x = (x + rng.integers(-9, 10, size=x.shape[1])).astype(how)
    plain, K = cls(x.astype(float), t), cls(x, t)
    name = kind + ' ' + np.dtype(how).name
    mon.label(name)
    mon.state(name, x, t)
    queries = []
    for prefix in ['', 'boundary']:
        v, o = outcome(lambda: run(plain, prefix) if prefix else plain)
        if o is None or v[0] == 'raises':
            continue
        queries += [(prefix + '.' if prefix else '') + a for a, _ in attributes(o, c36.SKIP | c36.SLOW)]
    for q in [queries[k] for k in rng.permutation(len(queries))[:25]]:
        a = outcome(lambda: run(plain, q))[0]
        if a[0] == 'raises':
            continue
        b = outcome(lambda: run(K, q))[0]
        mon.check('integer', equal(floating(b), floating(a)), tag=q, object=name, query=q, got=repr(b)[:400], plain=repr(a)[:400])
    params = c36.parameters(rng, plain, kind)
    for k in rng.permutation(len(params))[:8]:
        q, f, args = params[k]
        a = outcome(lambda: f(plain, *args))[0]
        if a[0] == 'raises':
            continue
        if rng.random() < .5:
            args = [np.round(v * 10) if isinstance(v, np.ndarray) and v.dtype.kind == 'f' else v for v in args]
            a = outcome(lambda: f(plain, *args))[0]
            if a[0] == 'raises':
                continue
            args = [v.astype(int) if isinstance(v, np.ndarray) and v.dtype.kind == 'f' else v for v in args]
        b = outcome(lambda: f(K, *args))[0]
        mon.check('integer', equal(floating(b), floating(a)), tag=q, object=name, query=q, got=repr(b)[:400], plain=repr(a)[:400])


def case_topology(mon, rng, i):
    d = gen.nonorientable(rng) if rng.random() < .2 else gen.random_orientable(rng, small=True)
    how = str(rng.choice(list(STORE)))
    plain = gen.build_topology(dict(d, cells=d['cells'].copy()))
    mon.state('topology', d['cells'], how)
    with mon.calling('object', object=d['name'], storage=how):
        T = gen.build_topology(dict(d, cells=store(how, d['cells'])))
    queries = attributes(plain, c36.SKIP)
    for k in rng.permutation(len(queries))[:14]:
        q = queries[k][0]
        a = outcome(lambda: run(plain, q))[0]
        if a[0] == 'raises':
            continue
        b = outcome(lambda: run(T, q))[0]
        mon.check('topology', equal(b, a), tag=q, object=d['name'], query=q, storage=how, got=repr(b)[:400], plain=repr(a)[:400])
    n = T.n_elements[-1]
    chain = np.zeros(n, np.int32)
    chain[rng.permutation(n)[:max(1, n // 2)]] = 1
    for q, f, v in [('select_subset', lambda T, c: T.select_subset(c), chain), ('find_correspondence', lambda T, m: T.find_correspondence(T, m), np.arange(T.n_elements[0], dtype=np.int32))]:
        lay = str(rng.choice(LAYOUT))
        a = outcome(lambda: f(plain, v))[0]
        if a[0] != 'raises':
            b = outcome(lambda: f(T, store(lay, v)))[0]
            mon.check('topology', equal(b, a), tag=q, object=d['name'], query=q, storage=(how, lay), got=repr(b)[:400], plain=repr(a)[:400])


def functions(rng):
    """(name, function, arguments)"""
    from pycomplex.geometry import euclidian as E, spherical as S, regular as R
    from pycomplex.math import linalg as L
    from pycomplex import sparse, util
    from pycomplex.topology import util as U
    m, n, k = int(rng.integers(1, 6)), int(rng.integers(2, 5)), int(rng.integers(1, 4))
    x = rng.normal(size=(m, min(k, n) + 1, n))
    full = rng.normal(size=(m, n + 1, n))
    w = rng.normal(size=x.shape[:2]) * .01
    tri, t2 = rng.normal(size=(m, 3, 3)), rng.normal(size=(m, 3, 2))
    sph = c10.unit(rng.normal(size=(m, 3, 3)))
    A = rng.normal(size=(m, n, n)) + 3 * np.eye(n)
    B = rng.normal(size=(m, n + 1, n))
    B3 = rng.normal(size=(m, 3, 3)) + 3 * np.eye(3)
    Q = np.linalg.qr(A)[0]
    idx = rng.integers(0, 6, size=(8, 2))
    out = [
        ('circumcenter', E.circumcenter_barycentric, (x,)), ('circumcenter weighted', E.circumcenter_barycentric, (x, w)), ('unsigned_volume', E.unsigned_volume, (x,)),
        ('signed_volume', E.signed_volume, (full,)), ('is_wellcentered', E.is_wellcentered, (x[0],)), ('segment_normals', E.segment_normals, (rng.normal(size=(m, n, n)),)),
        ('simplex_normals', E.simplex_normals, (full,)), ('simplex_gradients', E.simplex_gradients, (full,)), ('triangle_angles', getattr(E, 'triangle_angles', None), (tri,)),
        ('edge_length', S.edge_length, (sph[:, 0], sph[:, 1])), ('triangle_area_from_corners', S.triangle_area_from_corners, (sph[:, 0], sph[:, 1], sph[:, 2])),
        ('triangle_area_from_normals', getattr(S, 'triangle_area_from_normals', None), (sph[:, 0], sph[:, 1], sph[:, 2])), ('triangle_angles_from_corners', getattr(S, 'triangle_angles_from_corners', None), (sph[:, 0], sph[:, 1], sph[:, 2])),
        ('triangle_area_around_center', getattr(S, 'triangle_areas_around_center', None), (sph[:, None, 0], sph[:, None])), ('spherical volume', S.unsigned_volume, (sph,)),
        ('circumcenter_sphere', getattr(S, 'triangle_circumcenter', None), (sph,)), ('intersect_edges', getattr(S, 'intersect_edges', None), (sph[:, 0], sph[:, 1], sph[:, 2], sph[:, ::-1][:, 1])),
        ('hypervolume', R.hypervolume, (x[:, 0], x[:, 1])), ('hypervolume n', lambda a, b: R.hypervolume(a, b, 1), (x[:, 0], x[:, 1])), ('regular edge', getattr(R, 'edge_length', None), (x[:, 0], x[:, 1])),
        ('dot', L.dot, (A, A)), ('normalized', L.normalized, (x,)), ('normalized axis', lambda a: L.normalized(a, axis=0), (x,)), ('orthonormalize', L.orthonormalize, (A[0],)),
        ('power', lambda a: L.power(a, .5), (Q,)), ('pinv', L.pinv, (B,)), ('inverse', L.inverse, (B3,)), ('adjoint', L.adjoint, (B3,)), ('inverse_transpose', L.inverse_transpose, (B3,)),
        ('multi_indices', sparse.multi_indices, (idx[:, 0], idx[:, 1])), ('selection_matrix', U.selection_matrix, (rng.integers(0, 2, size=6).astype(bool),)),
        ('element_indices', U.element_indices, (np.arange(12).reshape(6, 2), np.arange(12).reshape(6, 2)[idx[:, 0], ::-1])), ('index_matrix', getattr(U, 'index_matrix', None), (idx[:, 0].astype(np.int32),)),
    ]
    return [o for o in out if o[1] is not None]


def case_function(mon, rng, i):
    F = functions(rng)
    for k in rng.permutation(len(F))[:10]:
        name, f, args = F[k]
        a = outcome(lambda: f(*[v.copy() for v in args]))[0]
        if a[0] == 'raises':
            mon.skip('refused ' + name)
            continue
        lay = str(rng.choice(LAYOUT))
        if rng.random() < .25:
            lay, whole = 'integer', [np.round(v * 10) if v.dtype.kind == 'f' else v for v in args]
            a = outcome(lambda: f(*[v.copy() for v in whole]))[0]
            if a[0] == 'raises':
                continue
            b = outcome(lambda: f(*[v.astype(int) for v in whole]))[0]
        else:
            b = outcome(lambda: f(*[store(lay, v) for v in args]))[0]
        a, b = floating(a), floating(b)
        mon.check('function', equal(b, a), tag=name, function=name, storage=lay, got=repr(b)[:400], plain=repr(a)[:400])
        mon.state(name, lay, *args)


def case_stencil(mon, rng, i):
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.operator import DiagonalOperator
    n = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.choice([2, 4, 6], size=n))
    K = StencilComplex.from_shape(shape, float(np.exp(rng.normal())))
    T = K.topology
    f = [rng.normal(size=np.shape(T.form(k))).astype(np.float32) for k in range(n + 1)]
    p = rng.uniform(0, min(shape), size=(5, n))
    k = int(rng.integers(0, n + 1))
    q = min(k, n - 1)
    d = rng.normal(size=f[k].shape)
    Q = [('primal', lambda a: T.primal[q](a), (f[q],)), ('dual', lambda a: T.dual[q](a), (f[q + 1],)), ('hodge', lambda a: K.hodge[k](a), (f[k],)), ('coarsen', lambda a: K.coarsen[k](a), (f[k],)),
         ('averages', lambda a: [A(a) for A in T.averaging_operators_0], (f[0],)), ('sample_0', lambda a, b: K.sample_0(a, b), (f[0], p)),
         ('diagonal', lambda a, b: DiagonalOperator(a, a.shape)(b), (d, f[k]))]
    for name, g, args in Q:
        a = outcome(lambda: g(*[v.copy() for v in args]))[0]
        if a[0] == 'raises':
            mon.skip('refused ' + name)
            continue
        lay = str(rng.choice(LAYOUT + ['integer', 'integer']))
        if lay == 'integer':
            whole = [np.round(v * 10).astype(float) for v in args]
            a = floating(outcome(lambda: g(*[v.copy() for v in whole]))[0])
            b = floating(outcome(lambda: g(*[v.astype(int) for v in whole]))[0])
        else:
            b = outcome(lambda: g(*[store(lay, v) for v in args]))[0]
        mon.check('stencil', equal(b, a), tag=name, storage=lay, shape=shape, got=repr(b)[:400], plain=repr(a)[:400])
    mon.state('stencil', shape, *f)


def case_block(mon, rng, i):
    import scipy.sparse as sp
    from pycomplex.block import SparseBlockMatrix, DenseBlockArray
    r, c = rng.integers(1, 5, size=2), rng.integers(1, 5, size=3)
    D = [[rng.normal(size=(a, b)) * (rng.random((a, b)) < .6) for b in c] for a in r]
    x = rng.normal(size=c.sum())
    lay = str(rng.choice(LAYOUT))
    form = [sp.csr_matrix, sp.csc_matrix, sp.coo_matrix][rng.integers(3)]
    mon.state('block', lay, *[b for q in D for b in q])
    A = SparseBlockMatrix([[sp.csr_matrix(b) for b in q] for q in D])
    B = SparseBlockMatrix([[form(b) for b in q] for q in D])
    for name, f in [('product', lambda M, v: (M * DenseBlockArray(np.split(v, np.cumsum(c)[:-1]))).merge()), ('merge', lambda M, v: M.merge().toarray()),
                    ('transpose', lambda M, v: M.transpose().merge().toarray()), ('norm', lambda M, v: M.norm_l1(1).merge())]:
        a = outcome(lambda: f(A, x.copy()))[0]
        if a[0] == 'raises':
            mon.skip('refused ' + name)
            continue
        b = outcome(lambda: f(B, store(lay, x)))[0]
        mon.check('block', equal(b, a), tag=name, storage=lay, got=repr(b)[:400], plain=repr(a)[:400])


CASES = dict(complex=case_complex, integer=case_integer, topology=case_topology, function=case_function, stencil=case_stencil, block=case_block)
PLAN = dict(quick=dict(complex=400, integer=200, topology=300, function=400, stencil=100, block=100), thorough=dict(complex=6000, integer=3000, topology=4000, function=6000, stencil=1500, block=1500))
