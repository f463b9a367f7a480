"""C07 transfer operators between subdivision levels"""
import numpy as np
import scipy.sparse
from vmon import gen, many, ref, refine
from vmon.checks import c06

PROP = 'C07'
RULE = ('orientable complexes refined one to three times by loop, direct loop and cubical subdivision; the oracle decodes every fine '
        'element to the coarse elements its vertices sit on and derives which coarse element of the same order contains it; '
        'a state is one (cells, subdivision, level) triple')
REQUIRED = {'copies': 20, 'transfer': 60, 'dual-transfer': 20, 'chain-map': 30, 'cubical-to-simplicial': 8}


def containment(T, F, kind, dims):
    """0/1 arrays W[n][fine, coarse]"""
    E = [np.asarray(e) for e in T.elements]
    order, index = refine.barycentric_layout(E, kind, dims)
    flatE = [ref.flat(e) for e in E]
    support = [frozenset(flatE[o][k].tolist()) for o, k in zip(order, index)]
    W = []
    for n in range(T.n_dim + 1):
        byv = {}
        for c, r in enumerate(flatE[n].tolist()):
            for v in r:
                byv.setdefault(v, []).append((c, frozenset(r)))
        e = ref.flat(F.elements[n])
        w = scipy.sparse.lil_matrix((len(e), len(flatE[n])), dtype=int)
        for f, r in enumerate(e.tolist()):
            s = frozenset().union(*[support[v] for v in r])
            for c, vs in byv[next(iter(s))]:
                if s <= vs:
                    w[f, c] = 1
        W.append(w.tocsr())
    return W


def same(mon, oracle, got, want, **kw):
    ok = mon.eq(oracle + '-shape', got.shape, want.shape, **kw)
    if ok:
        got = scipy.sparse.csr_matrix(got).astype(int)
        d = (got - want)
        d.eliminate_zeros()
        c = d.tocoo()
        ok = mon.check(oracle, c.nnz == 0, wrong=c.nnz, first=list(zip(c.row, c.col, c.data))[:4], **kw)
    return ok


def observe(mon, T, F, kind, dims, inherits=True):
    W = containment(T, F, kind, dims)
    M = F.transfer_matrices
    mon.eq('transfer-levels', len(M), T.n_dim + 1)
    for n in range(T.n_dim + 1):
        same(mon, 'transfer', M[n], W[n], n=n)
    if inherits:
        # the fine elements inherit the direction of the coarse ones: signed chains map to signed chains
        for n in range(T.n_dim):
            A = F.matrices[n].astype(int) * M[n + 1].astype(int)
            B = M[n].astype(int) * T.matrices[n].astype(int)
            mon.check('chain-map', abs(A - B).sum() == 0, n=n, kind=kind, wrong=int(abs(A - B).sum()))
    if T.is_oriented:
        if F.boundary is not None:
            D = F.dual.transfer_matrices
            mon.eq('transfer-levels', len(D), T.n_dim + 1)
            for k in range(T.n_dim + 1):
                want = W[k]
                if k > 0:
                    bf, bc = np.asarray(F.boundary.parent_idx[k - 1]), np.asarray(T.boundary.parent_idx[k - 1])
                    want = scipy.sparse.block_diag([want, W[k - 1][bf][:, bc]]).tocsr()
                same(mon, 'dual-transfer', D[T.n_dim - k], want, n=T.n_dim - k)


def k_loop(mon, rng, i):
    d = c06.small(rng, 2, 'simplex')
    T = gen.build_topology(d).as_2()
    direct = i % 2
    levels = 1 if len(d['cells']) > 30 else int(rng.integers(1, 4 if len(d['cells']) < 8 else 3))
    mon.note(name=d['name'], levels=levels, direct=direct, cells=d['cells'])
    for l in range(levels):
        mon.state('loop', direct, l, d['cells'])
        F = T.subdivide_loop_direct() if direct else T.subdivide_loop()
        with mon.label(('direct' if direct else 'loop') + '-level%d' % l):
            observe(mon, T, F, 'simplex', (0, 1))
        T = F


def k_cubical(mon, rng, i):
    n = 1 + i % 3
    d = c06.small(rng, n, 'cube')
    inherits = n < 3                                       # not promised for cubes: edges and faces take the direction of any of their parents
    if n == 3:
        d['cells'] = gen.compact(d['cells'][:8])[0]
    T = gen.build_topology(d)
    levels = 2 if len(d['cells']) < [30, 12, 2][n - 1] else 1
    mon.note(name=d['name'], levels=levels, cells=d['cells'])
    for l in range(levels):
        mon.state('cubical', l, d['cells'])
        F = T.subdivide_cubical()
        with mon.label('level%d' % l):
            observe(mon, T, F, 'cube', range(n + 1), inherits)
            # relations: every fine element knows its order and parent
            order, parent = T.subdivide_cubical_relations(F)
            E = [ref.flat(e) for e in T.elements]
            o, k = refine.barycentric_layout(E, 'cube', range(n + 1))
            for m in range(n + 1):
                f = np.asarray(F.elements[m])
                mon.eq('relation-order', order[m], o[f], m=m)
                mon.eq('relation-parent', parent[m], k[f], m=m)
        T = F


def k_simplicial(mon, rng, i):
    d = c06.small(rng, 2, 'cube')
    T = gen.build_topology(d).as_2()
    mon.note(name=d['name'], cells=d['cells'])
    mon.state('q2t', d['cells'])
    F = T.subdivide_simplicial()
    ops = F.transfer_operators
    n0, n2 = T.n_elements[0], T.n_elements[2]
    q = ref.flat(T.elements[2])
    W = np.zeros((n0 + n2, n0))
    W[np.arange(n0), np.arange(n0)] = 1
    for r in range(n2):
        W[n0 + r, q[r]] += .25
    mon.close('cubical-to-simplicial', ops[0].toarray(), W, rtol=1e-12, tag='vertices')
    W = containment(T, F, 'cube', (0, 2))[2]
    same(mon, 'cubical-to-simplicial', ops[2], W)


def k_many(mon, rng, i):
    many.subdivision(mon, rng, 600)


def k_many_large(mon, rng, i):
    many.subdivision(mon, rng, 70000, many.WAYS[i % 5])


CASES = dict(loop=k_loop, cubical=k_cubical, simplicial=k_simplicial, many=k_many, many_large=k_many_large)
PLAN = dict(quick=dict(loop=360, cubical=360, simplicial=144, many=10, many_large=5), thorough=dict(loop=1000, cubical=1000, simplicial=400, many=80, many_large=10))
