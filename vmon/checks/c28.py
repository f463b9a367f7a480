"""C28 stencil systems"""
import numpy as np
from vmon.checks.c26 import Ground, rows
from vmon.checks.c27 import flat, link

PROP = 'C28'
RULE = ('canonical first order systems of periodic grids of 1 to 3 dimensions with random scales, with entries overwritten by zeros, ones, random coefficient fields or products of these, sliced by ranges and lists of rows '
        'and columns, turned into normal equations of either kind; all compared with the dense block matrices; a state is one system')
REQUIRED = {'canonical': 40, 'symmetric': 40, 'slice': 60, 'copy': 60, 'normal': 60, 'definite': 40, 'equivalent': 30, 'allocate': 60, 'restrict': 60, 'labels': 60}


def offsets(spaces):
    return np.cumsum([0] + [int(np.prod(s)) for s in spaces])


def take(M, ro, co, r, c):
    """block rows r and columns c of a dense block matrix"""
    ri = np.concatenate([np.arange(ro[k], ro[k + 1]) for k in r])
    ci = np.concatenate([np.arange(co[k], co[k + 1]) for k in c])
    return M[np.ix_(ri, ci)]


def close(mon, oracle, got, want, size, **kw):
    got = np.asarray(got, float)
    mon.check(oracle, got.shape == want.shape and bool(rows(got, want, size + 1e-12).all()), got=got, want=want, **kw)


def item(rng, n):
    """a slice or list of block rows, with their numbers"""
    if rng.random() < .5:
        a, b = sorted(int(v) for v in rng.choice(n + 1, size=2, replace=False))
        return slice(a, b), list(range(a, b))
    k = [int(v) for v in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False)]
    k = sorted(k) if rng.random() < .5 else k
    return (k if rng.random() < .7 else np.array(k)), k


def case_system(mon, rng, i):
    from pycomplex.stencil.block import BlockArray
    from pycomplex.stencil.linear_system import System
    G = Ground(rng, (1., 2., .5, .25))
    G.levels = G.levels[:1]
    c, N = G.levels[0], G.N
    S = System.canonical(c)
    K = N + 1
    spaces = [tuple(s) for s in c.n_elements]
    o = offsets(spaces)
    at = lambda r, q: np.s_[o[r]:o[r + 1], o[q]:o[q + 1]]
    h = [c.scale ** (N - 2. * n) for n in range(K)]
    M = np.zeros((o[-1], o[-1]))
    for n in range(K):
        M[at(n, n)] = np.eye(o[n + 1] - o[n]) * h[n]
        if n < N:
            D = G.dense('d', c.topology.primal[n], (0, n + 1))
            M[at(n + 1, n)] = h[n + 1] * D
            M[at(n, n + 1)] = h[n + 1] * D.T
    close(mon, 'canonical', S.A.to_dense(), M, np.abs(M))
    close(mon, 'canonical', S.B.to_dense(), np.eye(len(M)), np.eye(len(M)))
    A = np.asarray(S.A.to_dense(), float)
    mon.close('symmetric', A, A.T, rtol=1e-6, atol=1e-6)
    mon.check('labels', list(S.L) == list(range(K)) and list(S.R) == list(range(K)) and S.complex is c)
    # overwrite some entries
    text = []
    for _ in range(int(rng.integers(0, 4))):
        r = int(rng.integers(K))
        q = int(np.clip(r + rng.integers(-1, 2), 0, N))
        how = rng.choice(['zero', 'one', 'link'])
        if how == 'one' and r == q:
            S.A[r, q] = 1
            M[at(r, q)] = np.eye(o[r + 1] - o[r])
        elif how == 'link':
            op, m, _s = link(G, rng, (0, r), (0, q))
            S.A[r, q] = op
            M[at(r, q)] = m
        else:
            S.A[r, q] = 0
            M[at(r, q)] = 0
        text.append((r, q, str(how)))
    mon.state(G.shape, c.scale, M)
    mon.note(shape=G.shape, scale=c.scale, edits=text)
    close(mon, 'canonical', S.A.to_dense(), M, np.abs(M), what='edited')

    it, r = item(rng, K)
    jt, q = item(rng, K)
    if not isinstance(it, slice) and not isinstance(jt, slice):
        it = slice(min(r), max(r) + 1)
        r = list(range(min(r), max(r) + 1))
    T = S[it, jt]
    P, E = take(M, o, o, r, q), np.eye(sum(o[k + 1] - o[k] for k in r))
    close(mon, 'slice', T.A.to_dense(), P, np.abs(P), rows=r, cols=q)
    mon.check('slice', T.B.block.shape == (len(r), len(r)), got=T.B.block.shape, rows=r, how=type(it).__name__)
    close(mon, 'slice', T.B.to_dense(), E, E)
    mon.check('labels', list(T.L) == r and list(T.R) == q and T.complex is c, L=T.L, R=T.R, rows=r, cols=q)
    mon.eq('allocate', [b.shape for b in T.allocate_x().block], [spaces[k] for k in q])
    mon.eq('allocate', [b.shape for b in T.allocate_y().block], [spaces[k] for k in r])
    mon.check('allocate', not T.allocate_x().to_dense().any() and not T.allocate_y().to_dense().any())
    mon.eq('allocate', (T.A * T.allocate_x()).to_dense().shape, T.allocate_y().to_dense().shape)
    T.A[0, 0] = 0
    T.B[0, 0] = 0
    close(mon, 'copy', S.A.to_dense(), M, np.abs(M), what='writing a slice')
    close(mon, 'copy', S.B.to_dense(), np.eye(len(M)), np.eye(len(M)), what='writing a slice')
    P = P.copy()
    E = E.copy()
    P[:o[r[0] + 1] - o[r[0]], :o[q[0] + 1] - o[q[0]]] = 0
    E[:o[r[0] + 1] - o[r[0]]] = 0
    close(mon, 'copy', T.A.to_dense(), P, np.abs(P), what='the slice')
    # a slice of a slice
    it2, r2 = item(rng, len(r))
    U = T[it2, 0:len(q)]
    ro = offsets([spaces[k] for k in r])
    P2 = take(P, ro, offsets([spaces[k] for k in q]), r2, list(range(len(q))))
    close(mon, 'slice', U.A.to_dense(), P2, np.abs(P2), what='again')
    mon.check('labels', list(U.L) == [r[k] for k in r2] and list(U.R) == q)

    T = S[it, jt]
    P, E = take(M, o, o, r, q), np.eye(len(P))
    X = T.normal()
    close(mon, 'normal', X.A.to_dense(), P.T.dot(P), np.abs(P.T).dot(np.abs(P)))
    close(mon, 'normal', X.B.to_dense(), P.T, np.abs(P.T), what='right')
    mon.check('labels', list(X.L) == q and list(X.R) == q)
    Y = T.normal_ne()
    close(mon, 'normal', Y.A.to_dense(), P.dot(P.T), np.abs(P).dot(np.abs(P.T)), what='second kind')
    close(mon, 'normal', Y.B.to_dense(), E, E, what='second kind')
    mon.check('labels', list(Y.L) == r and list(Y.R) == r)
    close(mon, 'copy', T.A.to_dense(), P, np.abs(P), what='normal leaves the system')
    for Z in (X, Y):
        D = np.asarray(Z.A.to_dense(), float)
        scale = np.abs(D).max() + 1e-12
        mon.close('definite', D, D.T, rtol=0, atol=1e-5 * scale)
        mon.check('definite', bool(np.linalg.eigvalsh((D + D.T) / 2).min() > -1e-5 * scale))
    x = [rng.integers(-4, 5, size=spaces[k]).astype(float) for k in q]
    V = BlockArray(x, ndim=1)
    y = T.A * V
    size = np.abs(P.T).dot(np.abs(P)).dot(np.abs(flat(x)))
    close(mon, 'equivalent', (X.A * V).to_dense(), (X.B * y).to_dense(), size, what='a solution solves the normal equations')
    z = BlockArray([rng.integers(-4, 5, size=spaces[k]).astype(float) for k in r], ndim=1)
    w = T.A.transpose() * z
    size = np.abs(P).dot(np.abs(P.T)).dot(np.abs(z.to_dense()))
    close(mon, 'equivalent', (T.A * w).to_dense(), (Y.A * z).to_dense(), size, what='transposed solution')


def case_restrict(mon, rng, i):
    from pycomplex.stencil.block import BlockArray
    from pycomplex.stencil.linear_system import System
    from vmon.checks.c29 import setup, reference_coarsen
    c, N, shape = setup(rng)
    S = System.canonical(c)
    it, r = item(rng, N + 1)
    T = S[it, 0:N + 1] if rng.random() < .5 else S[0:N + 1, it]
    mon.note(shape=shape, scale=c.scale, rows=r)
    y = [rng.normal(size=c.n_elements[k]) for k in T.L]
    x = [rng.normal(size=c.n_elements[k]) for k in T.R]
    mon.state(shape, c.scale, list(T.L), list(T.R), flat(y))
    d, p = T.restrict_dual(BlockArray(y, ndim=1)), T.restrict_primal(BlockArray(x, ndim=1))
    for k, a, b in zip(T.L, y, d.block):
        w = reference_coarsen(a, N, k) * 2. ** (N - 2 * k)
        mon.close('restrict', b, w, rtol=0, atol=1e-5 * np.abs(w).max() + 1e-9, degree=k)
    for k, a, b in zip(T.R, x, p.block):
        mon.close('restrict', b, reference_coarsen(a, N, k), rtol=0, atol=1e-5 * np.abs(a).max(), degree=k)
    mon.eq('restrict', (len(d.block), len(p.block)), (len(y), len(x)))


CASES = dict(system=case_system, restrict=case_restrict)
PLAN = dict(quick=dict(system=720, restrict=480), thorough=dict(system=2000, restrict=1500))
