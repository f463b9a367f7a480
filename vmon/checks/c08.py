"""C08 averaging operators and degrees"""
import numpy as np
import scipy.sparse
from vmon import gen, many, ref
from vmon.checks.c05 import any_topology

PROP = 'C08'
RULE = ('random complexes of dimension 1-4 (also non-orientable, disconnected, non-manifold) and complexes with up to several hundred cells around one '
        'vertex or edge; a state is one distinct cell array whose operators were compared with incidences counted from corner sets')
REQUIRED = {'copies': 20, 'averaging-0': 60, 'averaging-N': 60, 'degree': 60, 'degree-high': 4}


def incidence(R, E, n):
    """boolean [n-elements, cells]: cell contains element"""
    byv = {}
    for k, e in enumerate(ref.flat(E[n]).tolist()):
        byv[tuple(sorted(e))] = k
    rows, cols = [], []
    for p in ref.subface_positions(R.kind, R.n_dim, n):
        s = np.sort(R.flat[:, list(p)], axis=1)
        for c, t in enumerate(map(tuple, s.tolist())):
            rows.append(byv[t])
            cols.append(c)
    W = scipy.sparse.coo_matrix((np.ones(len(rows)), (rows, cols)), shape=(len(E[n]), len(R.flat))).tocsr()
    W.data[:] = 1
    return W


def uniform(W):
    s = np.asarray(W.sum(axis=1)).ravel()
    return scipy.sparse.diags(1 / s).dot(W)


def cmp(mon, oracle, got, want, **kw):
    if mon.eq(oracle + '-shape', got.shape, want.shape, **kw):
        d = abs(got - want)
        err = d.max() if d.nnz else 0
        mon.check(oracle, err <= 1e-12, err=float(err), **kw)


def observe(mon, rng, d):
    T = gen.build_topology(d)
    mon.note(name=d['name'], cells=d['cells'])
    mon.state(d['kind'], d['cells'])
    R = ref.RefComplex(d['kind'], d['cells'])
    E = T.elements
    N = T.n_dim
    A0, AN, D = T.averaging_operators_0, T.averaging_operators_N, T.degree
    mon.eq('operator-count', [len(A0), len(AN), len(D)], [N + 1] * 3)
    for n in range(N + 1):
        e = ref.flat(E[n])
        k = e.shape[1]
        V = scipy.sparse.csr_matrix((np.full(e.size, 1. / k), (np.repeat(np.arange(len(e)), k), e.ravel())), shape=(len(e), len(E[0])))
        cmp(mon, 'averaging-0', A0[n], V, n=n)
        W = incidence(R, E, n)
        cmp(mon, 'averaging-N', AN[n], uniform(W), n=n)
        count = np.asarray(W.sum(axis=1)).ravel()
        mon.eq('degree', np.asarray(D[n]).ravel(), count, n=n)
        if count.max() > 127:
            mon.eq('degree-high', np.asarray(D[n]).ravel(), count, n=n)
        # used as a form: averages of a constant stay constant, averages stay within range
        f = rng.normal(size=len(E[0]))
        a = A0[n] * f
        mon.check('average-in-range', a.min() >= f.min() - 1e-12 and a.max() <= f.max() + 1e-12)
    return T


def k_random(mon, rng, i):
    observe(mon, rng, any_topology(rng))


def k_valence(mon, rng, i):
    v = int(rng.integers(120, 400))
    which = i % 4
    if which == 0:
        cells = gen.fan(v)
    elif which == 1:
        cells = gen.suspension(v)
    elif which == 2:
        # tets around one edge
        k = np.arange(v)
        cells = np.stack([np.zeros_like(k), np.ones_like(k), 2 + k, 2 + (k + 1) % v], axis=1)
    else:
        # star graph
        cells = np.stack([np.zeros(v, int), 1 + np.arange(v)], axis=1)
    cells = cells.astype(np.int32)
    if which == 3:
        d = dict(cells=cells, kind='simplex', name='star-%d' % v, points=None)
    elif rng.random() < .3 and which == 0:
        # quads around a vertex
        k = np.arange(v)
        q = np.stack([np.zeros_like(k), 1 + 2 * k, 1 + 2 * ((k + 1) % v), 2 + 2 * k], axis=1)
        d = dict(cells=q.reshape(-1, 2, 2).astype(np.int32), kind='cube', name='quads-%d' % v, points=None)
        d['cells'][:, [0, 1], [1, 0]] = d['cells'][:, [0, 1], [1, 0]]
    else:
        d = gen.scramble_simplicial(rng, dict(cells=cells, kind='simplex', name='valence-%d' % v, points=None))
    observe(mon, rng, d)


def k_dual(mon, rng, i):
    """averaging on the dual, including the duals of the boundary"""
    d = gen.random_orientable(rng, n=1 + i % 3)
    T = gen.build_topology(d)
    R = ref.RefComplex(d['kind'], d['cells'])
    mon.note(name=d['name'], cells=d['cells'])
    mon.state('dual', d['kind'], d['cells'])
    N, E = T.n_dim, T.elements
    bf = None if T.boundary is None else [np.asarray(x) for x in T.boundary.parent_idx]
    A = T.dual.averaging_operators_0
    for k in range(N + 1):
        # dual of primal k-elements: corners are the incident cells and the incident boundary facets
        C = incidence(R, E, k)
        if bf is not None:
            RB = ref.RefComplex(d['kind'], np.asarray(E[N - 1])[bf[N - 1]]) if N > 1 else None
            if N > 1 and k < N:
                F = scipy.sparse.lil_matrix((len(E[k]), len(bf[N - 1])))
                F[bf[k]] = incidence(RB, [np.asarray(E[m])[bf[m]] for m in range(N)], k)
            else:
                F = scipy.sparse.lil_matrix((len(E[k]), len(bf[N - 1])))
                if k < N:
                    for j, v in enumerate(bf[0]):
                        F[v, j] = 1
            W = scipy.sparse.hstack([C, F]).tocsr()
            if k > 0:
                # duals of boundary elements of order k-1
                if N > 1:
                    B = incidence(RB, [np.asarray(E[m])[bf[m]] for m in range(N)], k - 1)
                else:
                    B = scipy.sparse.identity(len(bf[0]))
                W = scipy.sparse.vstack([W, scipy.sparse.hstack([scipy.sparse.csr_matrix((B.shape[0], C.shape[1])), B])]).tocsr()
        else:
            W = C
        cmp(mon, 'dual-averaging', A[N - k].tocsr(), uniform(W), k=k, N=N)


def k_many(mon, rng, i):
    many.averaging(mon, rng, 600)


def k_many_large(mon, rng, i):
    many.averaging(mon, rng, 70000)


CASES = dict(random=k_random, valence=k_valence, dual=k_dual, many=k_many, many_large=k_many_large)
PLAN = dict(quick=dict(random=1440, valence=12, dual=720, many=6, many_large=1), thorough=dict(random=2500, valence=120, dual=1200, many=40, many_large=6))
