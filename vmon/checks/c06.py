"""C06 subdivisions and products"""
import math

import numpy as np
from vmon import gen, many, ref, refine

PROP = 'C06'
RULE = ('orientable complexes of dimension 1-4 (closed, open, disconnected, non-manifold, also with a random orientation of their cells), subdivided in every way '
        'the library offers, once and twice, and products of cubical complexes; the oracle decodes every fine vertex to the coarse '
        'element it was inserted on and measures each fine cell inside its parent cell; a state is one (cells, subdivision) pair')
REQUIRED = {'copies': 20, 'covered-volume': 40, 'orientation-kept': 40, 'cell-in-parent': 40, 'product-cells': 5, 'complex-covers': 5}


def disoriented(rng, d):
    cells = d['cells']
    if rng.random() < .25:
        cells = gen.random_permutations(rng, cells) if d['kind'] == 'simplex' else gen.random_cube_symmetries(rng, cells, False)
    return dict(d, cells=cells)


def small(rng, n, kind):
    d = (gen.random_simplicial if kind == 'simplex' else gen.random_cubical)(rng, n, small=n > 2)
    d['kind'] = kind
    while len(d['cells']) > {1: 40, 2: 60, 3: 30, 4: 6}[n]:
        keep = gen.facet_connected_subset(rng, kind, d['cells'], {1: 40, 2: 60, 3: 30, 4: 6}[n])
        d['cells'], u = gen.compact(d['cells'][keep])
        d['points'] = None
    d = (gen.scramble_simplicial if kind == 'simplex' else gen.scramble_cubical)(rng, d)
    return d


def record(mon, d, how):
    mon.note(name=d['name'], how=how, cells=d['cells'])
    mon.state(how, d['kind'], d['cells'])


def k_fundamental(mon, rng, i):
    n = [1, 2, 3, 2, 3, 4][i % 6]
    kind = 'simplex' if rng.random() < .6 else 'cube'
    if n == 4 or (n == 3 and kind == 'cube'):
        kind = 'simplex' if n == 4 else kind
    d = disoriented(rng, small(rng, n, kind))
    if n == 4:
        d['cells'] = gen.compact(d['cells'][:2])[0]
    if n == 3 and kind == 'cube':
        d['cells'] = gen.compact(d['cells'][:4])[0]
    T = gen.build_topology(d)
    record(mon, d, 'fundamental')
    per = math.factorial(n + 1) * 1 if kind == 'simplex' else 2 ** n * math.factorial(n)
    if kind == 'simplex':
        for oriented in (True, False):
            with mon.label('oriented=%s' % oriented):
                F = T.subdivide_fundamental(oriented=oriented)
                refine.observe_refinement(mon, T, F, kind, 'simplex', range(n + 1), per, 'uniform' if oriented else False)
                mon.check('parent-recorded', F.parent is T)
        if n <= 2 and rng.random() < .3:
            G = F = T.subdivide_fundamental()
            with mon.label('twice'):
                refine.observe_refinement(mon, F, F.subdivide_fundamental(), kind, 'simplex', range(n + 1), per, 'uniform')
    else:
        F = T.subdivide_fundamental()
        refine.observe_refinement(mon, T, F, kind, 'simplex', range(n + 1), per, 'uniform')
        mon.check('parent-recorded', F.parent is T)
    domains = T.fundamental_domains().reshape(-1, n + 1)
    flags(mon, T, kind, domains)


def flags(mon, T, kind, domains):
    """fundamental domains list every flag (vertex < edge < ... < cell) exactly once"""
    n = T.n_dim
    E = [ref.flat(e) for e in T.elements]
    sets = [[frozenset(map(int, r)) for r in e] for e in E]
    ok = True
    for r in domains:
        for a in range(n):
            if not sets[a][r[a]] < sets[a + 1][r[a + 1]]:
                ok = False
    mon.check('flags-nested', ok)
    mon.check('flags-unique', len(set(map(tuple, domains.tolist()))) == len(domains))
    mon.eq('flags-vertex', domains[:, 0].min() >= 0 and domains[:, 0].max() < len(E[0]), True)


def k_cubical(mon, rng, i):
    which = i % 5
    if which < 2:
        n = 2 + i % 2 if rng.random() < .8 else 2
        d = disoriented(rng, small(rng, n, 'simplex'))
        T = gen.build_topology(d)
        record(mon, d, 'simplex->cubes')
        F = T.subdivide_cubical()
        refine.observe_refinement(mon, T, F, 'simplex', 'cube', range(n + 1), n + 1)
    else:
        n = [1, 2, 3][which - 2] if rng.random() < .85 else 4
        d = disoriented(rng, small(rng, n, 'cube'))
        if n >= 3:
            d['cells'] = gen.compact(d['cells'][:12 if n == 3 else 2])[0]
        T = gen.build_topology(d)
        record(mon, d, 'cubes->cubes')
        F = T.subdivide_cubical()
        refine.observe_refinement(mon, T, F, 'cube', 'cube', range(n + 1), 2 ** n)
        mon.check('parent-recorded', F.parent is T)
        counts = [sum(T.n_elements[k] * math.comb(k, m) * 2 ** m for k in range(m, n + 1)) for m in range(n + 1)]
        mon.eq('cubical-counts', list(F.n_elements), counts)
        dom = T.cubical_domains()
        mon.eq('cubical-domain-shape', dom.shape, (T.n_elements[-1],) + (2,) * (2 * n))
        # corner c of the domain at corner s refers to an element of order |c|
        cor = ref.local_coords('cube', n)
        E = [ref.flat(e) for e in T.elements]
        ok = True
        for s in cor:
            for c in cor:
                el = dom[(slice(None),) + tuple(s) + tuple(c)]
                k = int(c.sum())
                v = T.elements[-1][(slice(None),) + tuple(s)]
                if el.min() < 0 or el.max() >= len(E[k]):
                    ok = False
                    continue
                for cell in range(len(el)):
                    want = T.elements[-1][(cell,) + tuple(slice(None) if b else int(a) for a, b in zip(s, c))]
                    ok &= set(np.ravel(want).tolist()) == set(E[k][el[cell]].tolist())
        mon.check('cubical-domain-elements', ok)
        if n <= 2 and rng.random() < .3:
            with mon.label('twice'):
                refine.observe_refinement(mon, F, F.subdivide_cubical(), 'cube', 'cube', range(n + 1), 2 ** n)


def k_simplicial(mon, rng, i):
    if i % 3 == 0:
        d = disoriented(rng, small(rng, 2, 'cube'))
        T = gen.build_topology(d).as_2()
        record(mon, d, 'quads->triangles')
        F = T.subdivide_simplicial()
        refine.observe_refinement(mon, T, F, 'cube', 'simplex', (0, 2), 4, 'uniform')
        mon.check('parent-recorded', F.parent is T)
    else:
        n = 1 + i % 4
        d = disoriented(rng, small(rng, n, 'simplex'))
        T = gen.build_topology(d)
        record(mon, d, 'centre')
        F = T.subdivide_simplicial()
        refine.observe_refinement(mon, T, F, 'simplex', 'simplex', (0, n), n + 1, 'uniform')


def k_loop(mon, rng, i):
    d = disoriented(rng, small(rng, 2, 'simplex'))
    T = gen.build_topology(d).as_2()
    direct = i % 2
    record(mon, d, 'loop-direct' if direct else 'loop')
    for level in range(2 if len(d['cells']) < 30 else 1):
        F = T.subdivide_loop_direct() if direct else T.subdivide_loop()
        with mon.label('level%d' % level):
            refine.observe_refinement(mon, T, F, 'simplex', 'simplex', (0, 1), 4)
            mon.check('parent-recorded', F.parent is T)
            n = T.n_elements
            mon.eq('loop-counts', list(F.n_elements), [n[0] + n[1], 2 * n[1] + 3 * n[2], 4 * n[2]])
            # first the central triangle, then those at the corners in vertex order
            c = F.elements[2].reshape(-1, 4, 3)
            mon.check('loop-central', np.all(c[:, 0] >= n[0]))
            mon.eq('loop-corner', np.sort(c[:, 1:], axis=2)[:, :, 0], T.elements[2])
        T = F


def k_product(mon, rng, i):
    na, nb = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3)][i % 5]
    da, db = small(rng, na, 'cube'), small(rng, nb, 'cube')
    if rng.random() < .2:
        da = disoriented(rng, da)
    da['cells'] = gen.compact(da['cells'][:6])[0]
    db['cells'] = gen.compact(db['cells'][:6 if nb < 3 else 3])[0]
    A, B = gen.build_topology(da), gen.build_topology(db)
    mon.note(name=da['name'] + ' x ' + db['name'])
    mon.state('product', da['cells'], db['cells'])
    P = A.product(B)
    ca, cb = da['cells'], db['cells']
    na0 = A.n_elements[0]
    want = (np.add.outer(ref.flat(ca), ref.flat(cb) * na0)).transpose(0, 2, 1, 3)
    want = want.reshape((len(ca) * len(cb),) + (2,) * (na + nb))
    key = lambda x: sorted(map(tuple, ref.flat(x).tolist()))
    mon.eq('product-cells', key(P.elements[-1]), key(want))
    ref.check_incidence(mon, P, 'cube', tag='product')
    conv = np.convolve(A.n_elements, B.n_elements)
    mon.eq('product-counts', list(P.n_elements), conv.tolist())
    RA, RB, RP = (ref.RefComplex('cube', x) for x in (ca, cb, P.elements[-1]))
    mon.eq('product-oriented', RP.is_consistently_oriented(), RA.is_consistently_oriented() and RB.is_consistently_oriented())
    mon.eq('product-boundary', len(RP.boundary_facets()), len(RA.boundary_facets()) * len(cb) + len(RB.boundary_facets()) * len(ca))


def k_complex(mon, rng, i):
    """positions: the refined complex covers the same region"""
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian, ComplexTriangularEuclidian3
    from pycomplex.complex.cubical import ComplexCubical
    which = i % 6
    n = int(rng.integers(2, 4))
    def vol_s(c):
        v = c.vertices[c.topology.elements[-1]]
        g = v[:, 1:] - v[:, :1]
        return np.sqrt(np.abs(np.linalg.det(np.einsum('nij,nkj->nik', g, g)))) / math.factorial(g.shape[1])
    if which < 4:
        if which >= 2:
            n = 2
        cells, pts = gen.relaxed_delaunay(rng, n, 25 if n == 2 else 14)
        cells = gen.positively_oriented(cells, pts)
        A = rng.normal(size=(n, n))
        pts = pts.dot(np.linalg.qr(A)[0]) * rng.uniform(.1, 10) + rng.normal(size=n) * 5
        cells = gen.orient(cells)
        cls = ComplexSimplicialEuclidian if which < 2 else ComplexTriangularEuclidian
        if which >= 2 and rng.random() < .5:
            pts = np.concatenate([pts, np.zeros((len(pts), 1))], axis=1).dot(np.linalg.qr(rng.normal(size=(3, 3)))[0])
            cls = ComplexTriangularEuclidian3
        kw = {'simplices': cells} if which < 2 else {'triangles': cells}
        c = cls(vertices=pts, **kw)
        mon.state('complex', which, cells, pts)
        mon.note(name='complex', which=which, cls=cls.__name__, cells=cells)
        pp = c.primal_position
        total = vol_s(c).sum()
        if which == 0:
            f = c.subdivide_fundamental(oriented=bool(rng.integers(2)))
            mon.close('refined-positions', f.vertices, np.concatenate(pp), rtol=1e-12)
            wc = all(np.all(b > 1e-9) for b in c.primal_barycentric)
        elif which == 1:
            f = c.subdivide_simplicial()
            mon.close('refined-positions', f.vertices, np.concatenate([pts, pp[-1]]), rtol=1e-9)
            wc = all(np.all(b > 1e-9) for b in c.primal_barycentric[-1:])
        elif which == 2:
            f = c.subdivide_loop()
            mon.close('refined-positions', f.vertices, np.concatenate([pts, pts[np.asarray(c.topology.elements[1])].mean(axis=1)]), rtol=1e-9)
            wc = True
        else:
            f = c.subdivide_cubical()
            mon.eq('refined-positions', f.vertices, np.concatenate(pp))
            v = f.vertices[ref.flat(f.topology.elements[-1])]
            mon.eq('complex-topology', v.shape[0], len(c.topology.subdivide_cubical().elements[-1]), how='subdivide_cubical')
            area = lambda a, b, d: np.linalg.norm(np.cross(np.pad(b - a, ((0, 0), (0, 3 - a.shape[1]))), np.pad(d - a, ((0, 0), (0, 3 - a.shape[1])))), axis=1) / 2
            got = area(v[:, 0], v[:, 1], v[:, 3]) + area(v[:, 0], v[:, 2], v[:, 3])
            if all(np.all(b > 1e-9) for b in c.primal_barycentric):
                mon.close('complex-covers', got.sum(), total, rtol=1e-8)
            return
        how = ['subdivide_fundamental', 'subdivide_simplicial', 'subdivide_loop'][which]
        want = np.asarray(getattr(c.topology, how)().elements[-1])
        mon.eq('complex-topology', sorted(map(tuple, np.sort(f.topology.elements[-1], axis=1))), sorted(map(tuple, np.sort(want, axis=1))), how=how)
        got = vol_s(f)
        if wc:
            mon.close('complex-covers', got.sum(), total, rtol=1e-8)
        else:
            mon.skip('circumcentre outside its element')
            mon.check('complex-covers', got.sum() >= total * (1 - 1e-9))
    else:
        n = int(rng.integers(1, 4))
        shape = tuple(int(x) for x in rng.integers(1, 4, n))
        cells, pts = gen.cube_grid(shape), gen.cube_grid_points(shape)
        A, _ = np.linalg.qr(rng.normal(size=(n, n)))
        A = A * rng.uniform(.3, 3, (n, 1))
        pts = pts.dot(A) + rng.normal(size=n)
        d = gen.scramble_cubical(rng, dict(cells=cells, points=pts, kind='cube', name='grid'))
        c = ComplexCubical(vertices=d['points'], cubes=d['cells'])
        mon.state('complex', which, d['cells'], d['points'])
        mon.note(name='cubical complex', shape=shape, which=which)
        total = abs(np.linalg.det(A)) * np.prod(shape)
        if which == 4 or n == 1:
            f = c.subdivide_cubical()
            mon.close('refined-positions', f.vertices, np.concatenate([d['points'][ref.flat(e)].mean(axis=1) for e in c.topology.elements]), rtol=1e-9)
            got = sum(abs(refine.cube_volume(f.vertices[r])[0]) for r in ref.flat(f.topology.elements[-1]))
            mon.check('parent-recorded', f.parent is c)
        else:
            f = c.subdivide_fundamental()
            got = vol_s(f).sum()
        mon.close('complex-covers', got, total, rtol=1e-8)
        # product with a segment
        L = ComplexCubical(vertices=np.array([[0.], [2.], [5.]]), cubes=np.array([[0, 1], [1, 2]]))
        if n < 3:
            p = c.product(L)
            got = sum(abs(refine.cube_volume(p.vertices[r])[0]) for r in ref.flat(p.topology.elements[-1]))
            mon.close('complex-covers', got, total * 5, rtol=1e-8)
            # positions of any number type; the positions of a product are the pairs of positions
            x = [d['points'], np.round(d['points'] * 3).astype(rng.choice([np.int64, np.int32]))][rng.integers(2)]
            y = [L.vertices + rng.random(), np.array([[-1], [2], [5]], dtype=rng.choice([np.int64, np.int32, np.int8]))][rng.integers(2)]
            first = ComplexCubical(vertices=x, cubes=d['cells'])
            second = ComplexCubical(vertices=y, cubes=np.array([[0, 1], [1, 2]]))
            if rng.integers(2):
                first, second, x, y = second, first, y, x
            p = first.product(second).vertices
            want = np.concatenate([np.repeat(x, len(y), axis=0), np.tile(y, (len(x), 1))], axis=1)
            s = lambda v: np.array(sorted(map(tuple, np.asarray(v, float).tolist())))
            mon.eq('product-positions', s(p), s(want))


def k_many(mon, rng, i):
    many.subdivision(mon, rng, 600)


def k_many_large(mon, rng, i):
    many.subdivision(mon, rng, 70000, many.WAYS[i % 7])


CASES = dict(fundamental=k_fundamental, cubical=k_cubical, simplicial=k_simplicial, loop=k_loop, product=k_product, complex=k_complex, many=k_many, many_large=k_many_large)
PLAN = dict(quick=dict(fundamental=120, cubical=120, simplicial=96, loop=80, product=60, complex=120, many=10, many_large=7),
            thorough=dict(fundamental=1200, cubical=1200, simplicial=900, loop=800, product=600, complex=1200, many=80, many_large=20))
