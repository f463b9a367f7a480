"""C38: copies, transforms and type casts keep what they do not change"""
import itertools
import numpy as np
from .. import gen, geo, picks
from . import c36

PROP = 'C38'
RULE = ('simplicial, triangular, spherical, circular, cubical and regular complexes, with and without weights and radii, copied with every subset of their attributes replaced, moved by random translations, rotations, reflections, '
        'scalings, linear and projective maps, and cast to every type; a state is one complex with the operation applied to it')
REQUIRED = {'copy': 60, 'replace': 60, 'vertices': 100, 'keep': 200, 'invariant': 60, 'scaling': 30, 'dtype': 200, 'equivariant': 60, 'pick': 15, 'cast': 60, 'refuse': 60, 'homogenize': 30, 'subset': 40, 'orientation': 15, 'volume': 15, 'offsets': 20}


def data(K):
    return dict(vertices=K.vertices, topology=K.topology, weights=getattr(K, 'weights', None), radius=getattr(K, 'radius', None))


def same_cells(a, b):
    """equal topologies: elements, boundaries and orientations"""
    return len(a._elements) == len(b._elements) and all(np.array_equal(x, y) for p, q in ((a._elements, b._elements), (a._boundary, b._boundary), (a._orientation, b._orientation)) for x, y in zip(p, q))


def keeps(mon, K, L, change=(), kind=None, **kw):
    """L is K but for the attributes named"""
    mon.check('keep', type(L) is (kind or type(K)), tag='type', got=type(L).__name__, **kw)
    for k, v in data(K).items():
        if k in change:
            continue
        w = data(L)[k]
        if k == 'topology':
            mon.check('keep', w is v or same_cells(w, v), tag=k, **kw)
        elif v is None:
            mon.check('keep', w is None or k == 'radius', tag=k, got=w, **kw)
        else:
            mon.check('keep', w is not None and np.array_equal(w, v), tag=k, got=w, want=v, **kw)


def case_copy(mon, rng, i):
    name, build, family = c36.objects(rng)
    mon.label(name)
    K = build()
    mon.state(name, K.vertices.tobytes(), 'copy')
    with mon.calling('copy', object=name):
        C = K.copy()
    keeps(mon, K, C, object=name)
    mon.check('copy', C is not K and np.array_equal(C.vertices, build().vertices), object=name)
    n = len(K.vertices)
    new = dict(vertices=K.vertices + rng.normal(size=K.vertices.shape))
    if hasattr(K, 'weights'):
        new['weights'] = rng.normal(size=n) if K.weights is None or rng.integers(2) else None
    if hasattr(K, 'radius'):
        new['radius'] = float(np.exp(rng.normal()))
    new['topology'] = build().topology
    pick = {k: v for k, v in new.items() if rng.random() < .5}
    with mon.calling('copy', object=name, replace=sorted(pick)):
        C = K.copy(**pick)
    keeps(mon, K, C, change=list(pick), object=name, replace=sorted(pick))
    for k, v in pick.items():
        got = getattr(C, k)
        mon.check('replace', got is v or np.array_equal(got, v), object=name, replaced=k)
    keeps(mon, build(), K, object=name, replace='original')


def maps(rng, d):
    """(name, isometry?, scale or None, function on points, (method, argument))"""
    t = rng.normal(size=d) * 10. ** rng.integers(-1, 2)
    s = float(np.exp(rng.normal()))
    Q = geo.rotation(rng, d) if d > 1 else np.ones((1, 1))
    R = Q.copy()
    R[:, 0] *= -1
    M = rng.normal(size=(d, d))
    A = np.zeros((d + 1, d + 1))
    A[:d, :d], A[d, :d], A[d, d] = M, t, np.exp(rng.normal())
    A[:d, d] = rng.normal(size=d) * .01
    return [('translate', True, 1, lambda x: x + t, ('translate', t)),
            ('rotate', True, 1, lambda x: x @ Q, ('transform', Q)),
            ('reflect', True, 1, lambda x: x @ R, ('transform', R)),
            ('scale', False, s, lambda x: x * s, ('scale', s)),
            ('linear', False, None, lambda x: x @ M, ('transform', M)),
            ('affine', False, None, lambda x: (x @ A[:d, :d] + A[d, :d]) / (x @ A[:d, d] + A[d, d])[..., None], ('affine_transform', A))]


def case_transform(mon, rng, i):
    name, build, family = c36.objects(rng)
    mon.label(name)
    K = build()
    d = K.vertices.shape[1]
    N = K.topology.n_dim
    for m, iso, s, f, (method, arg) in [maps(rng, d)[j] for j in rng.permutation(6)[:3]]:
        mon.state(name, K.vertices.tobytes(), m)
        kw = dict(object=name, map=m)
        with mon.calling(method, **kw):
            L = getattr(K, method)(arg)
        mon.close('vertices', L.vertices, f(K.vertices), 1e-9, 1e-9 * np.abs(K.vertices).max(), **kw)
        keeps(mon, K, L, change=['vertices'], **kw)
        keeps(mon, build(), K, **kw)
        if family == 'sphere' and m in ('translate', 'scale', 'linear', 'affine'):
            continue                                   # no longer points of the unit sphere
        if s is None or (family == 'regular' and m in ('rotate', 'reflect')):
            continue
        weighted = getattr(K, 'weights', None) is not None
        if s != 1 and weighted:
            continue                                   # weights are squared lengths, and are kept
        try:
            primal, dual = K.primal_metric, K.dual_metric
        except (NotImplementedError, AssertionError):
            continue                                   # this kind has no metric
        size = np.abs(K.vertices - K.vertices.mean(0)).max()
        tol = 1e-7 * (1 + np.abs(L.vertices).max() / (s * size)) ** 2
        tol = min(tol, 1e-3)
        with mon.calling('primal_metric', **kw):
            P, D = L.primal_metric, L.dual_metric
        oracle = 'invariant' if s == 1 else 'scaling'
        for k in range(N + 1):
            mon.close(oracle, P[k], primal[k] * s ** k, tol, tol * size ** k * s ** k, tag='primal', n=k, **kw)
            top = np.abs(dual[N - k]).max() if len(dual[N - k]) else 0
            mon.close(oracle, D[N - k], dual[N - k] * s ** (N - k), tol * 100, tol * 100 * max(top, size ** (N - k)) * s ** (N - k), tag='dual', n=k, **kw)
        pp, qq = K.primal_position, L.primal_position
        for k in range(N + 1):
            far = np.abs(pp[k] - K.vertices.mean(0)).max()
            mon.close('equivariant', qq[k], f(pp[k]), tol, tol * (far + size) * (1 + far / size) * s, n=k, **kw)


def case_dtype(mon, rng, i):
    """vertices of any number type move to where the map takes them"""
    name, build, family = c36.objects(rng)
    mon.label(name)
    K = build()
    kind = [np.int64, np.int32, np.int8, np.float32, np.float64][i % 5]
    x = np.round(K.vertices / np.abs(K.vertices).max() * 100).astype(kind)
    if kind == np.float32:
        x = x / kind(7)
    d = x.shape[1]
    L = K.copy(vertices=x)
    keep = x.copy()
    for m, iso, s, f, (method, arg) in maps(rng, d):
        for a in (arg, arg.tolist() if isinstance(arg, np.ndarray) else arg):
            if method != 'translate' and isinstance(a, list):
                continue
            with mon.calling(method, object=name, map=m, dtype=kind.__name__):
                M = getattr(L, method)(a)
            want = f(x.astype(float))
            tol = 1e-9 if kind != np.float32 else 1e-4
            mon.close('dtype', M.vertices, want, tol, tol * np.abs(want).max(), object=name, map=m, dtype=kind.__name__)
            mon.check('dtype', x is L.vertices and np.array_equal(x, keep), tag='original', object=name, map=m)
        mon.state(name, x, m)


def case_pick(mon, rng, i):
    d = picks.flat_mesh(rng)
    d = dict(d, cells=gen.orient(d['cells']))
    K = picks.build(d)
    n, N = d['x'].shape[1], d['n']
    w = rng.dirichlet(np.full(N + 1, 4.), size=6)
    cell = rng.integers(len(d['cells']), size=6)
    p = np.einsum('pc,pcd->pd', w, d['x'][d['cells'][cell]])
    for m, iso, s, f, (method, arg) in maps(rng, n)[:3]:
        kw = dict(object=d['name'], map=m)
        try:
            first = K.pick_primal(p)
        except Exception:
            mon.skip('pick')
            return
        L = getattr(K, method)(arg)
        with mon.calling('pick_primal', **kw):
            second = L.pick_primal(f(p))
        size = np.abs(d['x'] - d['x'].mean(0)).max()
        tol = min(1e-3, 1e-7 * (1 + np.abs(L.vertices).max() / size) ** 2)
        clear = np.minimum(first[1].min(1), second[1].min(1)) > 1e-3
        mon.check('pick', np.array_equal(np.asarray(first[0])[clear], np.asarray(second[0])[clear]), **kw)
        mon.close('pick', second[1][clear], first[1][clear], tol * 100, tol * 100, **kw)
        mon.state(d['name'], p.tobytes(), m)


def case_cast(mon, rng, i):
    from pycomplex.complex import cubical, regular
    from pycomplex.complex.simplicial import euclidian, spherical
    from pycomplex.topology.simplicial import TopologySimplicial, TopologyTriangular
    name, build, family = c36.objects(rng)
    mon.label(name)
    K = build()
    d, N = K.vertices.shape[1], K.topology.n_dim
    mon.state(name, K.vertices.tobytes(), 'cast')
    if family in ('cubical', 'regular'):
        L = cubical.ComplexCubical(vertices=K.vertices, topology=gen.renumber(rng, K.topology) if rng.integers(2) else K.topology)
        table = {'as_11': (1, 1, 'ComplexCubical1Euclidian1'), 'as_12': (1, 2, 'ComplexCubical1Euclidian2'), 'as_22': (2, 2, 'ComplexCubical2Euclidian2'),
                 'as_23': (2, 3, 'ComplexCubical2Euclidian3'), 'as_33': (3, 3, 'ComplexCubical3Euclidian3'), 'as_44': (4, 4, 'ComplexCubical4Euclidian4')}
        if N < 3 and rng.integers(2):                  # into one dimension more
            L = L.copy(vertices=np.concatenate([L.vertices, rng.normal(size=(len(L.vertices), 1))], axis=1))
            d = d + 1
        for cast, (a, b, kind) in table.items():
            if (a, b) == (N, d):
                with mon.calling(cast, object=name):
                    C = getattr(L, cast)()
                mon.check('cast', isinstance(C, getattr(cubical, kind)), object=name, cast=cast)
                keeps(mon, L, C, kind=getattr(cubical, kind), object=name, cast=cast)
                if a == b and a < 4:
                    with mon.calling('as_regular', object=name):
                        R = C.as_regular()
                    keeps(mon, L, R, kind=getattr(regular, 'ComplexRegular%d' % a), object=name, cast='as_regular')
            else:
                mon.raises('refuse', TypeError, lambda: getattr(L, cast)(), object=name, cast=cast)
        if N == 2:
            with mon.calling('topology.as_2', object=name):
                T = L.topology.as_2()
            mon.check('cast', same_cells(T, L.topology), object=name, cast='topology.as_2')
        return
    plain = dict(vertices=K.vertices, topology=TopologySimplicial.from_simplices(np.array(K.topology.elements[-1])), weights=K.weights)
    if rng.integers(2):                                # numbered unlike from_simplices would
        plain['topology'] = gen.renumber(rng, plain['topology'])
    E = euclidian.ComplexSimplicialEuclidian(**plain)
    S = spherical.ComplexSpherical(radius=2.5, **plain)
    with mon.calling('as_euclidian', object=name):
        C = S.as_euclidian()
    keeps(mon, E, C, object=name, cast='as_euclidian')
    with mon.calling('as_spherical', object=name):
        C = E.as_spherical()
    keeps(mon, S, C, change=['radius'], object=name, cast='as_spherical')
    keeps(mon, E, C.as_euclidian(), object=name, cast='as_spherical.as_euclidian')
    if N == 2:
        with mon.calling('as_2', object=name):
            C = E.as_2()
        keeps(mon, E, C, kind=euclidian.ComplexTriangularEuclidian, object=name, cast='as_2')
        mon.check('cast', isinstance(C.topology, TopologyTriangular), object=name)
        for q in (2, 3):
            cast, kind = 'as_%d' % q, getattr(euclidian, 'ComplexTriangularEuclidian%d' % q)
            if d == q:
                with mon.calling(cast, object=name):
                    D = getattr(C, cast)()
                keeps(mon, C, D, kind=kind, object=name, cast=cast)
                if q == 3 and family == 'sphere':
                    with mon.calling('as_spherical', object=name):
                        B = D.as_spherical()
                    keeps(mon, D, B, change=['radius'], kind=spherical.ComplexSpherical2, object=name, cast='as_spherical')
                    keeps(mon, D, B.as_euclidian(), kind=kind, object=name, cast='as_spherical.as_euclidian')
            else:
                mon.raises('refuse', AssertionError, lambda: getattr(C, cast)(), object=name, cast=cast)
        if d == 3:
            off = D.copy(vertices=D.vertices * np.r_[2, np.ones(len(D.vertices) - 1)][:, None] + .3)
            mon.raises('refuse', AssertionError, lambda: off.as_spherical(), object=name, cast='as_spherical')
    else:
        mon.raises('refuse', (ValueError, AssertionError), lambda: E.as_2(), object=name, cast='as_2')
    if N == 1:
        with mon.calling('as_cube', object=name):
            C = E.as_cube()
        mon.check('cast', isinstance(C, cubical.ComplexCubical1) and np.array_equal(C.vertices, E.vertices) and np.array_equal(C.topology.elements[1], E.topology.elements[1])
                  and (C.topology.matrices[0] != E.topology.matrices[0]).nnz == 0, object=name, cast='as_cube')
    else:
        mon.raises('refuse', AssertionError, lambda: E.as_cube(), object=name, cast='as_cube')
    p = rng.normal(size=tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 3)))) + (d,))
    with mon.calling('homogenize', object=name):
        h, g = E.homogenize(p), S.homogenize(p)
    mon.check('homogenize', h.shape == p.shape[:-1] + (d + 1,) and np.array_equal(h[..., :-1], p) and np.all(h[..., -1] == 1) and np.array_equal(g, p), object=name)
    w = rng.normal(size=len(K.vertices))
    with mon.calling('augment', object=name):
        a, b, o = E.augment(K.vertices), E.augment(K.vertices, w), E.weights_to_offsets(w)
    mon.check('offsets', np.array_equal(a[:, :-1], K.vertices) and np.all(a[:, -1] == 0) and np.array_equal(b[:, :-1], K.vertices) and np.array_equal(b[:, -1], o), object=name)
    mon.close('offsets', o ** 2 + w, np.full(len(w), (o ** 2 + w)[0]), 1e-9, 1e-9, object=name)
    mon.check('offsets', np.all(o >= 0) and o.min() < 1e-6, object=name)


def case_derive(mon, rng, i):
    """subsets, boundaries and re-orientation keep the attributes of what is left"""
    name, build, family = c36.objects(rng)
    mon.label(name)
    K = build()
    T = K.topology
    E = T.n_elements[-1]
    mon.state(name, K.vertices.tobytes(), 'derive')
    chain = np.zeros(E, dtype=[bool, int, float][int(rng.integers(3))])
    chain[rng.permutation(E)[:int(rng.integers(1, E + 1))]] = 1
    with mon.calling('select_subset', object=name):
        S = K.select_subset(chain)
    full = lambda K: K.vertices[np.asarray(K.topology.elements[-1])]
    wfull = lambda K: np.asarray(K.weights)[np.asarray(K.topology.elements[-1])]
    mon.check('subset', type(S) is type(K) and S.topology.n_elements[-1] == np.count_nonzero(chain), object=name)
    mon.check('subset', np.array_equal(full(S), full(K)[chain != 0]), tag='vertices', object=name)
    if getattr(K, 'weights', None) is not None:
        mon.check('subset', S.weights is not None and np.array_equal(wfull(S), wfull(K)[chain != 0]), tag='weights', object=name)
    if hasattr(K, 'radius'):
        mon.check('subset', S.radius == K.radius, tag='radius', object=name)
    with mon.calling('boundary', object=name):
        B = K.boundary
    if B is not None and T.n_dim > 1:
        idx = B.topology.parent_idx[0]
        mon.check('subset', np.array_equal(B.vertices, K.vertices[idx]), tag='boundary', object=name)
        inc = np.bincount(np.asarray(T._boundary[-1]).ravel(), minlength=T.n_elements[-2])
        mon.eq('subset', int(B.topology.n_elements[-1]), int(np.sum(inc == 1)), tag='boundary', object=name)
        if getattr(K, 'weights', None) is not None:
            mon.check('subset', B.weights is not None and np.array_equal(B.weights, np.asarray(K.weights)[idx]), tag='boundary weights', object=name)
        if hasattr(K, 'radius'):
            mon.check('subset', B.radius == K.radius, tag='boundary radius', object=name)
    if family in ('flat', 'sphere') and T.n_dim > 0:
        cells = np.array(T.elements[-1])
        flip = rng.random(E) < .5
        cells[flip] = np.concatenate([cells[flip][:, [1, 0]], cells[flip][:, 2:]], axis=1)
        from pycomplex.topology.simplicial import TopologySimplicial
        from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
        L = ComplexSimplicialEuclidian(vertices=K.vertices, topology=TopologySimplicial.from_simplices(cells), weights=K.weights)
        with mon.calling('fix_orientation', object=name):
            F = L.fix_orientation()
        mon.check('orientation', bool(F.topology.is_oriented) and np.array_equal(F.vertices, L.vertices) and (F.weights is L.weights or np.array_equal(F.weights, L.weights))
                  and sorted(map(tuple, np.sort(F.topology.elements[-1], axis=1).tolist())) == sorted(map(tuple, np.sort(cells, axis=1).tolist())), object=name)


def case_volume(mon, rng, i):
    """enclosed volumes of closed surfaces and curves: by sign and scale"""
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
    from pycomplex.complex.cubical import ComplexCubical
    if rng.integers(2):
        cells, x = gen.sphere(rng, 2, int(rng.integers(6, 30)))
        x = x * np.exp(rng.normal(size=(1, 3)) * .3)
        cells = gen.orient(cells)
        K = ComplexTriangularEuclidian3(vertices=x, triangles=cells)
        want = np.linalg.det(x[cells]).sum() / 6
        d = 3
    else:
        n = int(rng.integers(3, 12))
        t = np.sort(rng.random(n)) * 2 * np.pi
        x = np.array([np.cos(t), np.sin(t)]).T * np.exp(rng.normal(size=(n, 1)) * .2)
        K = ComplexCubical(vertices=x, cubes=np.array([np.arange(n), (np.arange(n) + 1) % n]).T).as_12()
        want = np.linalg.det(x[np.asarray(K.topology.elements[1])]).sum() / 2
        d = 2
    mon.state('volume', x.tobytes())
    with mon.calling('volume'):
        v = abs(K.volume())
        scale = v + np.abs(x).max() ** d
    mon.close('volume', v, abs(want), 1e-9, 1e-9, d=d)
    sign = np.sign(K.volume())
    for m, iso, s, f, (method, arg) in maps(rng, d)[:5]:
        with mon.calling('volume', map=m):
            got = getattr(K, method)(arg).volume()
        factor = {'reflect': -1, 'scale': s and s ** d, 'linear': np.linalg.det(arg) if m == 'linear' else 1}.get(m, 1)
        mon.close('volume', got, sign * v * factor, 1e-7, 1e-7 * scale * (1 + np.abs(np.asarray(arg)).max()) ** d, map=m)


CASES = dict(copy=case_copy, transform=case_transform, dtype=case_dtype, pick=case_pick, cast=case_cast, derive=case_derive, volume=case_volume)
PLAN = dict(quick=dict(copy=1200, transform=1800, dtype=600, pick=480, cast=1800, derive=1200, volume=720),
            thorough=dict(copy=3000, transform=5000, dtype=2000, pick=1500, cast=4000, derive=3000, volume=3000))
