"""C04 dual topology: transpose in the interior, closed at the boundary"""
import numpy as np
from vmon import gen, many, ref

PROP = 'C04'
RULE = ('consistently oriented simplicial/cubical complexes of dimension 1-4 with and without boundary; a state is one '
        'distinct cell array whose dual chain complex was checked against transposition, closure and selector laws')
REQUIRED = {'copies': 20, 'dual-transpose': 50, 'dual-dd-zero': 30, 'dual-edges-close': 20, 'dual-selectors': 50}


def observe(mon, rng, d):
    mon.note(name=d['name'], cells=d['cells'])
    mon.state(d['kind'], d['cells'])
    T = gen.build_topology(d)
    N = T.n_dim
    with mon.calling('dual-exists', name=d['name']):
        D = T.dual
    p = list(T.n_elements)
    R = ref.RefComplex(d['kind'], d['cells'])
    bf = R.boundary_facets()
    if bf:
        bn = list(T.boundary.n_elements) + [0]
        mon.eq('dual-parts', [list(D.p_elements), list(D.d_elements), list(D.i_elements)], [bn, [0] + bn[:-1], [a - b for a, b in zip(p, bn)]])
    else:
        bn = [0] * (N + 1)
    want = [p[N - n] + (bn[N - 1 - n] if n < N else 0) for n in range(N + 1)]
    mon.eq('dual-counts', list(D.n_elements), want)
    mon.eq('dual-dim', D.n_dim, N)
    M = [ref.dense(m) for m in D.matrices]
    if not mon.check('dual-length', len(M) == N and len(D.matrices_2) == N):
        return
    for n in range(N):
        mon.eq('dual-shape', M[n].shape, (want[n], want[n + 1]), n=n)
        t = ref.dense(T.matrices[N - 1 - n])
        # dual elements of primal elements come first, in primal order
        mon.eq('dual-transpose', M[n][:p[N - n], :p[N - 1 - n]], t.T, n=n)
        mon.check('dual-sparsity', np.all(np.isin(M[n], (-1, 0, 1))), n=n)
        # only dual boundary elements bound dual boundary elements: there is no coupling back into the interior
        mon.check('dual-block-triangular', not np.any(M[n][:p[N - n], p[N - 1 - n]:]), n=n)
        # glue: the dual of a boundary n-element ends on the boundary's dual of that element
        if bf:
            bd = T.boundary
            sel = np.zeros((bn[N - 1 - n], p[N - 1 - n]), int)
            sel[np.arange(bn[N - 1 - n]), np.asarray(bd.parent_idx[N - 1 - n])] = 1
            mon.eq('dual-glue', np.abs(M[n][p[N - n]:, :p[N - 1 - n]]), sel, n=n)
            if n < N - 1:
                tb = ref.dense(bd.matrices[N - 2 - n])
                mon.eq('dual-boundary-transpose', np.abs(M[n][p[N - n]:, p[N - 1 - n]:]), np.abs(tb.T), n=n)
        mon.eq('dual-matrices-2', ref.dense(D.matrices_2[n]), M[n][:, :p[N - 1 - n]], n=n)
    for n in range(N - 1):
        mon.check('dual-dd-zero', not np.any(M[n].dot(M[n + 1])), n=n)
    # every dual edge runs between exactly two dual vertices
    if R.max_facet_valence() <= 2:
        c = M[0]
        mon.check('dual-edges-close', np.all(c.sum(axis=0) == 0) and np.all(np.abs(c).sum(axis=0)[:p[N - 1]] == 2),
                  sums=c.sum(axis=0), counts=np.abs(c).sum(axis=0))
    with mon.calling('dual-check-chain'):
        D.check_chain()
    SI, SB = D.selector_interior, D.selector_boundary
    for k in range(N + 1):          # indexed by primal dimension
        dk = want[N - k]
        mon.eq('dual-selectors', ref.dense(SI[k]), np.eye(p[k], dk, dtype=int), k=k, which='interior')
        mon.eq('dual-selectors', ref.dense(SB[k]), np.eye(dk, dtype=int)[p[k]:], k=k, which='boundary')
    mon.check('dual-primal-link', D.primal is T)


def k_orientable(mon, rng, i):
    observe(mon, rng, gen.random_orientable(rng))


def k_high(mon, rng, i):
    observe(mon, rng, gen.random_orientable(rng, n=5, small=True))


def k_lowdim(mon, rng, i):
    observe(mon, rng, gen.random_orientable(rng, n=1 + i % 2))


def k_many(mon, rng, i):
    many.dual(mon, rng, 600)


def k_many_large(mon, rng, i):
    many.dual(mon, rng, 70000)


CASES = dict(orientable=k_orientable, lowdim=k_lowdim, high=k_high, many=k_many, many_large=k_many_large)
PLAN = dict(quick=dict(orientable=1440, lowdim=480, high=40, many=6, many_large=1), thorough=dict(orientable=3000, lowdim=600, high=200, many=40, many_large=6))
