"""Many copies of a small complex: whatever holds for the copy holds for each of the copies

Reaches counts (of vertices, elements, regions, corners) beyond the range of small integer types
with an oracle that costs next to nothing: a query on the union is the query on the part, copy by copy.
"""
import numpy as np
import scipy.sparse as sp

from . import gen, ref


def copies(cells, m):
    cells = np.asarray(cells)
    n = cells.max() + 1
    off = (np.arange(m) * n).reshape((m,) + (1,) * cells.ndim)
    return (cells[None] + off).reshape((-1,) + cells.shape[1:]).astype(np.int32)


def order(elements):
    """per dimension the permutation that lists elements by their sorted corners"""
    P = []
    for e in elements:
        c = np.sort(ref.flat(np.asarray(e)), axis=1)
        P.append(np.lexsort(c.T[::-1]))
    return P


def small(rng, n=None):
    """a small oriented complex, of which many copies are affordable"""
    while True:
        d = gen.random_orientable(rng, n=n, small=True)
        if len(d['cells']) <= 14:
            return d


class Pair(object):
    """a topology and the topology of m copies of it"""

    def __init__(self, mon, d, m, oracle='copies'):
        self.mon, self.m, self.oracle = mon, m, oracle
        self.a = gen.build_topology(d)
        self.b = gen.build_topology(dict(d, cells=copies(d['cells'], m)))
        self.N = self.a.n_dim
        self.counts('n_elements', self.a.n_elements, self.b.n_elements)
        self.pa, self.pb = order(self.a.elements), order(self.b.elements)

    def counts(self, what, a, b):
        return self.mon.eq(self.oracle, np.asarray(b), np.asarray(a) * self.m, what)

    def scalar(self, what, a, b):
        return self.mon.eq(self.oracle, b, a, what)

    def array(self, what, a, b, pa=None, pb=None, exact=True, rtol=1e-12, **kw):
        a, b = np.asarray(a), np.asarray(b)
        if pa is not None:
            if not self.mon.eq(self.oracle, (len(a), len(b)), (len(pa), len(pb)), what, which='length', **kw):
                return False
            a, b = a[pa], b[pb]
        want = np.tile(a, (self.m,) + (1,) * (a.ndim - 1))
        if exact:
            return self.mon.eq(self.oracle, b, want, what, **kw)
        return self.mon.close(self.oracle, b, want, rtol=rtol, atol=rtol * (1 + np.abs(want).max(initial=0)), tag=what, **kw)

    def matrix(self, what, a, b, ra, rb, ca, cb, unsigned=False, **kw):
        """rows and columns listed by ra, ca and rb, cb"""
        a, b = sp.csr_matrix(a), sp.csr_matrix(b)
        if not self.mon.eq(self.oracle, b.shape, (a.shape[0] * self.m, a.shape[1] * self.m), what, **kw):
            return False
        if ra is not None:
            a, b = a[ra], b[rb]
        if ca is not None:
            a, b = a[:, ca], b[:, cb]
        if unsigned:
            a, b = abs(a), abs(b)
        d = sp.kron(sp.identity(self.m), a.astype(float), format='csr') - b.astype(float)
        return self.mon.check(self.oracle, d.nnz == 0 or np.abs(d.data).max() < 1e-12, what, **kw)


def pair(mon, rng, target, n=None):
    d = small(rng, n)
    m = int(np.ceil(target / (d['cells'].max() + 1)))
    mon.note(name=d['name'], cells=d['cells'], copies=m)
    mon.label('%d copies of %s' % (m, d['name']))
    mon.state('copies', m, d['kind'], d['cells'])
    return d, Pair(mon, d, m)


def mask(n, idx):
    x = np.zeros(n, int)
    np.add.at(x, np.asarray(idx, int), 1)
    return x


def boundary(mon, rng, target):
    d, p = pair(mon, rng, target)
    p.scalar('is_closed', p.a.is_closed, p.b.is_closed)
    for n in range(p.N + 1):
        for s in ('selector_boundary', 'selector_interior'):
            x, y = getattr(p.a, s)[n], getattr(p.b, s)[n]
            p.counts(s, x.shape, y.shape)
            p.array(s, x.astype(int).T * np.ones(x.shape[0], int), y.astype(int).T * np.ones(y.shape[0], int), p.pa[n], p.pb[n], n=n)
    if not p.a.is_closed:
        A, B = p.a.boundary, p.b.boundary
        p.counts('boundary-elements', A.n_elements, B.n_elements)
        for n in range(p.N):
            p.array('boundary-parents', mask(p.a.n_elements[n], A.parent_idx[n]), mask(p.b.n_elements[n], B.parent_idx[n]), p.pa[n], p.pb[n], n=n)
        for n in range(p.N - 1):
            got, want = B.matrices[n], p.b.matrices[n][B.parent_idx[n]][:, B.parent_idx[n + 1]]
            mon.check('copies', abs(got.astype(int) - want.astype(int)).count_nonzero() == 0, 'boundary-signs', n=n)


def dual(mon, rng, target):
    d, p = pair(mon, rng, target)
    A, B = p.a.dual, p.b.dual
    p.counts('dual-elements', A.n_elements, B.n_elements)
    for n in range(p.N):
        x, y = abs(A.matrices[n].astype(int)), abs(B.matrices[n].astype(int))
        p.counts('dual-shape', x.shape, y.shape)
        p.counts('dual-nnz', x.sum(), y.sum())
        k = p.a.n_elements[p.N - n - 1]
        k2 = p.b.n_elements[p.N - n - 1]
        p.array('dual-columns', np.asarray(x.sum(axis=0)).ravel()[:k], np.asarray(y.sum(axis=0)).ravel()[:k2], p.pa[p.N - n - 1], p.pb[p.N - n - 1], n=n)
    for n in range(p.N - 1):
        mon.check('copies', (B.matrices[n].astype(int) * B.matrices[n + 1].astype(int)).count_nonzero() == 0, 'dual-dd', n=n)
    for n in range(p.N + 1):
        for s in ('selector_boundary', 'selector_interior'):
            p.counts(s, getattr(A, s)[n].shape, getattr(B, s)[n].shape)


def connectivity(mon, rng, target):
    d, p = pair(mon, rng, target)
    na, la = p.a.label_connections()
    nb, lb = p.b.label_connections()
    p.counts('components', na, nb)
    # labels are names: copy and label in the copy must determine the label, one to one
    N = p.a.n_elements[-1]
    key = np.repeat(np.arange(p.m), N) * na + np.tile(la, p.m)
    mon.check('copies', len(set(zip(key.tolist(), np.asarray(lb).tolist()))) == na * p.m == len(set(np.asarray(lb).tolist())), 'labels')
    mon.eq('copies', bool(p.b.is_connected), na * p.m == 1, 'is_connected')
    if target <= 2000:
        p.array('regions', p.a.regions_per_vertex, p.b.regions_per_vertex)
        p.scalar('is_manifold', p.a.is_manifold, p.b.is_manifold)
    if na * p.m <= 300:
        parts = p.b.split_connected_components()
        p.counts('split', len(p.a.split_connected_components()), len(parts))
    k = int(rng.integers(p.m))
    S = p.b.select_subset((np.arange(p.b.n_elements[-1]) // N == k).astype(np.int8))
    mon.eq('copies', S.n_elements, p.a.n_elements, 'subset')
    for n in range(p.N + 1):
        P = np.asarray(S.parent_idx[n])
        mon.eq('copies', np.sort(ref.flat(np.asarray(p.b.elements[n]))[P], axis=1), np.sort(ref.flat(np.asarray(S.elements[n])), axis=1) + k * p.a.n_elements[0], 'subset-parents', n=n)
    mon.eq('copies', ref.flat(np.asarray(S.elements[-1])) + k * p.a.n_elements[0], ref.flat(np.asarray(p.b.elements[-1]))[k * N:(k + 1) * N], 'subset-cells')


def orientation(mon, rng, target):
    d, p = pair(mon, rng, target)
    mon.eq('copies', bool(p.b.is_oriented), True if p.m > 1 else bool(p.a.is_oriented), 'is_oriented')
    # the orientation of one loose copy is free, that of the cells of a copy among themselves is not
    N = p.a.n_elements[-1]
    flip = rng.random(p.b.n_elements[-1]) < .5
    cells = np.asarray(p.b.elements[-1]).copy()
    cells[flip] = np.roll(cells[flip], 1, axis=1) if d['kind'] == 'cube' else cells[flip][:, [1, 0] + list(range(2, cells.shape[1]))]
    F = gen.build_topology(dict(d, cells=cells)).fix_orientation()
    ones = np.ones(F.n_elements[-1], int)
    inc = F.matrix(-1).astype(int)
    two = np.asarray(abs(inc).sum(axis=1)).ravel() == 2
    mon.check('copies', np.all((inc * ones)[two] == 0), 'fixed')
    mon.eq('copies', np.sort(ref.flat(np.asarray(F.elements[-1])), axis=1), np.sort(ref.flat(cells), axis=1), 'fixed-cells')


WAYS = [('cube', 'subdivide_cubical'), ('simplex', 'subdivide_loop'), ('simplex', 'subdivide_loop_direct'), ('simplex', 'subdivide_cubical'), ('cube', 'subdivide_simplicial'), ('simplex', 'subdivide_fundamental'), ('cube', 'subdivide_fundamental')]


def subdivision(mon, rng, target, which=None):
    """which: kind of cells and way"""
    while True:
        d = small(rng, 2 if which else int(rng.integers(1, 4)))
        if which and which[0] != d['kind']:
            continue
        ways = ['subdivide_fundamental', 'subdivide_cubical', 'subdivide_simplicial']
        if d['kind'] == 'simplex' and d['cells'].shape[1] == 3:
            ways += ['subdivide_loop', 'subdivide_loop_direct']
        way = str(rng.choice(ways))
        if way == 'subdivide_cubical' and d['kind'] == 'simplex' and d['cells'].shape[1] not in (3, 4):
            continue
        if way == 'subdivide_simplicial' and d['kind'] == 'cube' and d['cells'].ndim != 3:
            continue
        if which and which[1] != way:
            continue
        break
    m = int(np.ceil(target / (d['cells'].max() + 1)))
    mon.note(name=d['name'], cells=d['cells'], copies=m, way=way)
    mon.label('%d copies of %s, %s' % (m, d['name'], way))
    mon.state('copies', m, way, d['kind'], d['cells'])
    p = Pair(mon, d, m)
    a, b = p.a, p.b
    if 'loop' in way or (way == 'subdivide_simplicial' and d['kind'] == 'cube'):
        a, b = a.as_2(), b.as_2()
    A, B = getattr(a, way)(), getattr(b, way)()
    p.counts('%s-elements' % way, A.n_elements, B.n_elements)
    p.counts('components', A.label_connections()[0], B.label_connections()[0])
    for n in range(A.n_dim):
        x, y = abs(A.matrices[n].astype(int)), abs(B.matrices[n].astype(int))
        p.counts('incidences', [x.sum(), *x.shape], [y.sum(), *y.shape])
        for ax in (0, 1):
            u, v = (np.bincount(np.asarray(z.sum(axis=ax)).ravel()) for z in (x, y))
            p.counts('valences', u, v)
    for n in range(A.n_dim - 1):
        mon.check('copies', (B.matrices[n].astype(int) * B.matrices[n + 1].astype(int)).count_nonzero() == 0, 'dd', n=n)
    mon.eq('copies', bool(A.is_oriented) or p.m == 1, bool(B.is_oriented) or p.m == 1, 'oriented')
    if hasattr(A, 'transfer_matrices'):
        for n, (x, y) in enumerate(zip(A.transfer_matrices, B.transfer_matrices)):
            p.counts('transfer', [x.astype(int).sum(), *x.shape], [y.astype(int).sum(), *y.shape])
            for ax in (0, 1):
                u, v = (np.bincount(np.asarray(z.astype(int).sum(axis=ax)).ravel()) for z in (x, y))
                p.counts('transfer-sums', u, v)


def averaging(mon, rng, target):
    d, p = pair(mon, rng, target)
    for s, c in (('averaging_operators_0', 0), ('averaging_operators_N', -1)):
        for n in range(p.N + 1):
            p.matrix(s, getattr(p.a, s)[n], getattr(p.b, s)[n], p.pa[n], p.pb[n], p.pa[c], p.pb[c], n=n)
    for n in range(p.N + 1):
        p.array('degree', p.a.degree[n], p.b.degree[n], p.pa[n], p.pb[n], n=n)


def part(rng, family, metric=True):
    """a small complex: (name, complex)"""
    from .checks import c36
    while True:
        name, build, f = c36.objects(rng)
        if f != family:
            continue
        K = build()
        if len(K.topology.elements[-1]) > 150:
            continue
        try:
            metric and K.metric
        except (AssertionError, NotImplementedError):      # refused: not well-centred on the sphere
            continue
        return name, K


def metrics(mon, rng, target, family):
    """metrics, positions and hodges of a heap of copies of a complex, all in the same place"""
    name, K = part(rng, family)
    x = K.vertices
    m = int(np.ceil(target / len(x)))
    cells = np.asarray(K.topology.elements[-1])
    mon.label('%d copies of %s' % (m, name))
    mon.note(name=name, x=x, cells=cells, copies=m)
    mon.state('copies', m, x.tobytes(), cells.tobytes())
    d = dict(kind=ref.kind_of(K.topology), cells=cells)
    big = type(K.topology).from_elements(copies(cells, m))
    more = {k: v for k, v in (('weights', getattr(K, 'weights', None)), ('radius', getattr(K, 'radius', None))) if v is not None}
    if 'weights' in more:
        more['weights'] = np.tile(more['weights'], m)
    L = K.copy(vertices=np.tile(x, (m, 1)), topology=big, **more)
    p = Pair(mon, d, m)
    p.a, p.b = K.topology, L.topology
    p.pa, p.pb = order(p.a.elements), order(p.b.elements)
    if not p.counts('elements', p.a.n_elements, p.b.n_elements):
        return
    N = p.N
    for n in range(N + 1):
        p.array('primal_position', K.primal_position[n], L.primal_position[n], p.pa[n], p.pb[n], exact=False, rtol=1e-7, n=n)
        p.array('primal_metric', K.primal_metric[n], L.primal_metric[n], p.pa[n], p.pb[n], exact=False, rtol=1e-7, n=n)
        a, b = K.dual_metric[N - n], L.dual_metric[N - n]
        p.array('dual_metric', a, b, p.pa[n], p.pb[n], exact=False, rtol=1e-7, n=n)
        if hasattr(K, 'hodge_PD') and not (np.asarray(K.primal_metric[n]) == 0).any() and not (np.asarray(a) == 0).any():
            p.array('hodge', 1 / np.asarray(K.hodge_PD[n]) if np.all(np.asarray(K.hodge_PD[n])) else K.hodge_PD[n],
                    1 / np.asarray(L.hodge_PD[n]) if np.all(np.asarray(K.hodge_PD[n])) else L.hodge_PD[n], p.pa[n], p.pb[n], exact=False, rtol=1e-6, n=n)
        a, b = np.asarray(K.dual_position[N - n]), np.asarray(L.dual_position[N - n])
        # interior part; the positions on the boundary follow its own numbering
        p.array('dual_position', a[:p.a.n_elements[n]], b[:p.b.n_elements[n]], p.pa[n], p.pb[n], exact=False, rtol=1e-7, n=n)
        p.counts('dual_positions', len(a), len(b))


def heap(mon, rng, target, K, name, what):
    """a heap of copies of a complex, all in the same place"""
    x = K.vertices
    m = int(np.ceil(target / len(x)))
    cells = np.asarray(K.topology.elements[-1])
    mon.label('%d copies of %s' % (m, name))
    mon.note(name=name, x=x, cells=cells, copies=m)
    mon.state('copies', what, m, x.tobytes(), cells.tobytes())
    more = {} if getattr(K, 'weights', None) is None else dict(weights=np.tile(K.weights, m))
    L = K.copy(vertices=np.tile(x, (m, 1)), topology=type(K.topology).from_elements(copies(cells, m)), **more)
    p = Pair(mon, dict(kind=ref.kind_of(K.topology), cells=cells), m)
    p.a, p.b = K.topology, L.topology
    p.pa, p.pb = order(p.a.elements), order(p.b.elements)
    return L, p


def dual_orders(p):
    """per primal dimension the elements of the dual, those on the boundary behind the others, copy by copy"""
    A, B = [], []
    for k in range(p.N + 1):
        a, b = p.pa[k], p.pb[k].reshape(p.m, -1)
        if k and not p.a.is_closed:
            ra, rb = np.argsort(p.pa[k - 1])[p.a.boundary.parent_idx[k - 1]], np.argsort(p.pb[k - 1])[p.b.boundary.parent_idx[k - 1]]
            a = np.concatenate([a, p.a.n_elements[k] + np.argsort(ra)])
            b = np.concatenate([b, p.b.n_elements[k] + np.argsort(rb).reshape(p.m, -1)], axis=1)
        A.append(a)
        B.append(b.ravel())
    return A, B


def spread(p, a, oa, ob):
    """the values of one copy, for all copies"""
    out = np.empty((len(ob),) + a.shape[1:], a.dtype)
    out[ob] = np.tile(a[oa], (p.m,) + (1,) * (a.ndim - 1))
    return out


def well(K):
    try:
        return K.is_well_centered
    except (AssertionError, NotImplementedError, AttributeError):
        return False


def duals(mon, rng, target, family):
    """what lives on the dual, of a heap of copies of a complex"""
    while True:
        name, K = part(rng, family)
        M = [np.concatenate([np.ravel(v) for v in q]) for q in K.metric]
        if all(np.all(np.isfinite(v)) and np.all(np.abs(v) > 1e-9) for v in M):
            break
    L, p = heap(mon, rng, target, K, name, 'duals')
    if not p.counts('elements', p.a.n_elements, p.b.n_elements) or not p.scalar('is_closed', p.a.is_closed, p.b.is_closed):
        return
    N = p.N
    A, B = dual_orders(p)
    for n in range(N + 1):
        p.array('hodge_DP', K.hodge_DP[n], L.hodge_DP[n], p.pa[n], p.pb[n], exact=False, rtol=1e-7, n=n)
        p.array('hodge_PD', K.hodge_PD[n], L.hodge_PD[n], p.pa[n], p.pb[n], exact=False, rtol=1e-7, n=n)
        p.array('dual_position', K.dual_position[N - n], L.dual_position[N - n], A[n], B[n], exact=False, rtol=1e-7, n=n)
        if K.boundary is None or family != 'sphere' or well(K.boundary):
            p.array('dual_metric_closed', K.dual_metric_closed[N - n], L.dual_metric_closed[N - n], A[n], B[n], exact=False, rtol=1e-7, n=n)
    p.scalar('positive', bool(K.positive_dual_metric), bool(L.positive_dual_metric))
    if hasattr(K, 'is_well_centered') and family != 'cubical' and family != 'regular':
        p.scalar('well centered', bool(K.is_well_centered), bool(L.is_well_centered))
        p.scalar('delaunay', bool(K.is_pairwise_delaunay), bool(L.is_pairwise_delaunay))
    return K, L, p, A, B


def averages(mon, rng, target, family):
    """the averages that the interpolation of dual forms is made of"""
    while True:
        name, K = part(rng, family)
        try:
            W = K.weighted_average_operators
        except Exception:
            continue
        if all(np.all(np.isfinite(w.tocsr().data)) for w in W if hasattr(w, 'tocsr')):
            break
    L, p = heap(mon, rng, target, K, name, 'averages')
    A, B = dual_orders(p)
    f = rng.normal(size=(len(A[p.N]), 2))
    g = spread(p, f, A[p.N], B[p.N])
    for n, (v, w) in enumerate(zip(W, L.weighted_average_operators)):
        if not hasattr(v, 'tocsr'):
            mon.eq('copies', w, v, 'average')
        elif p.counts('average-shape', v.shape, w.shape):
            p.array('average', v * f, w * g, A[p.N - n], B[p.N - n], exact=False, rtol=1e-7, n=n)


def velocity(mon, rng, target, family):
    """flux to velocity"""
    while True:
        name, K = part(rng, family)
        if p_dims(K):
            try:
                f = K.dual_flux_to_dual_velocity
                break
            except Exception:
                continue
    L, p = heap(mon, rng, target, K, name, 'velocity')
    A, B = dual_orders(p)
    flux = rng.normal(size=(len(A[p.N - 1]), 2))
    got = L.dual_flux_to_dual_velocity(spread(p, flux, A[p.N - 1], B[p.N - 1]))
    p.array('velocity', f(flux), got, A[p.N], B[p.N], exact=False, rtol=1e-7)


def p_dims(K):
    return K.topology.n_dim == K.vertices.shape[1]


def simplices(mon, rng, target, plane=False):
    """what is computed for each simplex, or summed over simplices, in the course of optimising weights"""
    while True:
        name, K = part(rng, str(rng.choice(['flat', 'flat', 'sphere'])), False)
        if K.weights is None and K.topology.n_dim > 1 and np.all(np.isfinite(K.primal_barycentric[-1])) and np.abs(K.primal_barycentric[-1]).max() < 50 and (not plane or hasattr(K, 'compute_edge_ratio')):
            break
    L, p = heap(mon, rng, target, K, name, 'simplices')
    N = p.N
    size = np.ptp(K.vertices, axis=0).max()
    tile = lambda v: np.tile(v, (p.m,) + (1,) * (v.ndim - 1))
    same = lambda what, a, b, pa=None, pb=None, unit=1., rtol=1e-7: p.array(what, np.asarray(a) / unit, np.asarray(b) / unit, pa, pb, exact=False, rtol=rtol)
    for signed in (True, False):
        same('dual_edge_excess', K.dual_edge_excess(signed), L.dual_edge_excess(signed), unit=size ** 2)
    f = rng.normal(size=(p.a.n_elements[N], N + 1))
    same('remap_boundary_0', K.remap_boundary_0(f), L.remap_boundary_0(tile(f)))
    same('remap_boundary_N', K.remap_boundary_N(f, oriented=False), L.remap_boundary_N(tile(f), oriented=False), p.pa[N - 1], p.pb[N - 1])
    for n in range(N + 1):
        same('barycentric', K.primal_barycentric[n].sum(axis=1), L.primal_barycentric[n].sum(axis=1), p.pa[n], p.pb[n])
    same('barycentric', K.primal_barycentric[N], L.primal_barycentric[N])
    same('optimize_weights', K.optimize_weights().weights, L.optimize_weights().weights, unit=size ** 2)
    if hasattr(K, 'compute_edge_ratio'):
        same('compute_triangle_angles', K.compute_triangle_angles, L.compute_triangle_angles)
        same('compute_triangle_areas', K.compute_triangle_areas, L.compute_triangle_areas, unit=size ** 2)
        same('compute_vertex_areas', K.compute_vertex_areas, L.compute_vertex_areas, unit=size ** 2)
        same('compute_edge_ratio', K.compute_edge_ratio, L.compute_edge_ratio, p.pa[1], p.pb[1])
    k = K.subdivide_fundamental()
    l = L.subdivide_fundamental()
    n = p.a.n_elements
    # positions of the vertices of the subdivision, dimension by dimension
    oa = np.concatenate([v + o for v, o in zip(p.pa, np.cumsum([0] + list(n)))])
    ob = np.concatenate([(v + o * p.m).reshape(p.m, -1) for v, o in zip(p.pb, np.cumsum([0] + list(n)))], axis=1).ravel()
    same('optimize_weights_fundamental', k.optimize_weights_fundamental().weights, l.optimize_weights_fundamental().weights, oa, ob, unit=size ** 2)
    w = rng.normal(size=len(L.vertices))
    got = L.weights_to_offsets(w)
    mon.close('copies', got ** 2 + w, np.full(len(w), w.max()), rtol=1e-9, atol=1e-9, tag='weights_to_offsets')
    chain = rng.random(p.b.n_elements[N]) < .5
    S = L.select_subset(chain)
    if mon.check('copies', isinstance(S, type(L)), 'select_subset'):
        mon.eq('copies', S.vertices[S.topology.elements[N]], L.vertices[p.b.elements[N][chain]], 'select_subset')


def transfers(mon, rng, target):
    """multigrid transfers of a heap of quads"""
    while True:
        name, K = part(rng, str(rng.choice(['cubical', 'regular'])), False)
        if K.topology.n_dim <= 2 and K.topology.n_elements[0] <= 16:
            break
    L, p = heap(mon, rng, target, K, name, 'transfers')
    F, G = K.subdivide_cubical(), L.subdivide_cubical()
    q = Pair.__new__(Pair)
    q.__dict__.update(mon=mon, m=p.m, oracle='copies', a=F.topology, b=G.topology, N=p.N)
    # elements of the fine level are listed by their corners, which are elements of the coarse one
    n = p.a.n_elements
    oa = np.concatenate([v + o for v, o in zip(p.pa, np.cumsum([0] + list(n)))])
    ob = np.concatenate([(v + o * p.m).reshape(p.m, -1) for v, o in zip(p.pb, np.cumsum([0] + list(n)))], axis=1).ravel()
    fine = lambda T, o: [np.lexsort(np.sort(np.argsort(o)[ref.flat(np.asarray(e))], axis=1).T[::-1]) for e in T.elements]
    q.pa, q.pb = fine(F.topology, oa), fine(G.topology, ob)
    for k, (v, w) in enumerate(zip(F.multigrid_transfers, G.multigrid_transfers)):
        if not p.counts('multigrid-shape', v.shape, w.shape):
            continue
        rows_fine = v.shape[0] == F.topology.n_elements[k]
        f = rng.normal(size=(v.shape[1], 1))
        ca, cb = (p.pa[k], p.pb[k]) if rows_fine else (q.pa[k], q.pb[k])
        ra, rb = (q.pa[k], q.pb[k]) if rows_fine else (p.pa[k], p.pb[k])
        g = spread(p, f, ca, cb)
        p.array('multigrid', v * f, w * g, ra, rb, exact=False, rtol=1e-4, k=k)


def smoothing(mon, rng, target, loop=False):
    """smoothing a heap of copies with creases"""
    while True:
        family = str(rng.choice(['flat', 'flat' if loop else 'cubical', 'regular']))
        name, K = part(rng, family, False)
        if K.topology.n_dim > 1 and (not loop or hasattr(K, 'subdivide_loop_operator')):
            break
    x = K.vertices
    m = int(np.ceil(target / len(x)))
    cells = np.asarray(K.topology.elements[-1])
    mon.label('%d copies of %s' % (m, name))
    mon.note(name=name, x=x, cells=cells, copies=m)
    mon.state('copies', 'smooth', m, x.tobytes(), cells.tobytes())
    L = K.copy(vertices=np.tile(x, (m, 1)), topology=type(K.topology).from_elements(copies(cells, m)), **({} if getattr(K, 'weights', None) is None else dict(weights=np.tile(K.weights, m))))
    p = Pair(mon, dict(kind=ref.kind_of(K.topology), cells=cells), m)
    p.a, p.b = K.topology, L.topology
    p.pa, p.pb = order(p.a.elements), order(p.b.elements)
    crease = (rng.random(p.a.n_elements[1]) < .2).astype(int)
    big = np.empty(p.b.n_elements[1], int)
    big[p.pb[1]] = np.tile(crease[p.pa[1]], m)
    for a, b in ((None, None), ({1: crease}, {1: big})):
        p.array('smooth', K.smooth(a).vertices, L.smooth(b).vertices, exact=False, rtol=1e-9, crease=a is not None)
    s, S = K.smooth_operator({1: crease}), L.smooth_operator({1: big})
    f = rng.normal(size=(len(x), 1))
    p.array('smooth_operator', s * f, S * np.tile(f, (p.m, 1)), exact=False, rtol=1e-9)
    for way in ('subdivide_operator', 'subdivide_loop_operator'):
        if hasattr(K, way):
            n = p.a.n_elements
            s, S = getattr(K, way)(smooth=True, creases={1: crease}), getattr(L, way)(smooth=True, creases={1: big})
            dims = range(2 if 'loop' in way else p.N + 1)
            oa = np.concatenate([p.pa[k] + sum(n[:k]) for k in dims])
            ob = np.concatenate([(p.pb[k] + sum(n[:k]) * p.m).reshape(p.m, -1) for k in dims], axis=1).ravel()
            p.array(way, s * f, S * np.tile(f, (p.m, 1)), oa, ob, exact=False, rtol=1e-9)
