"""C31 block vectors and matrices"""
import numpy as np
import scipy.sparse as sp

PROP = 'C31'
RULE = ('random block vectors, block columns with several right hand sides, two dimensional dense block arrays and block matrices of sparse blocks in mixed formats, with equal, unequal, unit and single blocks; '
        'every operation is compared with the merged dense array; the same block object in several places, three axes of blocks, and blocks of up to 400 entries; a state is one layout with its values')
REQUIRED = {'vector': 200, 'merge': 100, 'split': 100, 'product': 80, 'transpose': 60, 'diagonal': 40, 'diags': 40, 'norm': 80, 'shape': 60, 'slice': 60, 'dense': 60, 'copy': 40, 'balance': 30, 'normal': 30}


def sizes(rng):
    n = int(rng.integers(1, 5))
    how = rng.choice(['equal', 'mixed', 'ones'])
    if how == 'equal':
        return [int(rng.integers(1, 5))] * n
    if how == 'ones':
        return [1] * n
    return [int(v) for v in rng.integers(1, 6, size=n)]


def values(rng, shape, kind):
    v = rng.integers(-4, 5, size=shape)
    return v if kind == 'int' else v * rng.choice([1., .5, 3.], size=shape)


def sparse(rng, shape, kind='any'):
    M = values(rng, shape, rng.choice(['int', 'float'])) * (rng.random(shape) < rng.choice([0., .3, 1.]))
    f = rng.choice(['csr', 'csc', 'coo', 'lil', 'dia', 'zeros'])
    if f == 'zeros':
        from pycomplex.sparse import sparse_zeros
        return sparse_zeros(shape), np.zeros(shape)
    return sp.csr_matrix(M).asformat(f), np.asarray(M, float)


def case_vector(mon, rng, i):
    from pycomplex.block import DenseBlockArray
    n = sizes(rng)
    kind = rng.choice(['int', 'float'])
    draw = lambda: [values(rng, m, kind) for m in n]
    a, b = draw(), draw()
    A, B = DenseBlockArray(list(a)), DenseBlockArray(list(b))
    mon.state(n, a, b)
    mon.note(sizes=n)
    fa, fb = np.concatenate(a), np.concatenate(b)

    def same(X, want, what, oracle='vector'):
        ok = isinstance(X, DenseBlockArray) and X.block.shape == (len(n),) and [np.shape(x) for x in X.block] == [(m,) for m in n]
        mon.check(oracle, ok and np.allclose(np.concatenate(list(X.block)), want, rtol=1e-12, atol=0, equal_nan=True), what=what, sizes=n, got=X.block, want=want)

    same(A, fa, 'construct')
    same(A + B, fa + fb, 'add')
    same(A * B, fa * fb, 'mul')
    same(A / (B * B + 1), fa / (fb * fb + 1), 'div')
    same(A * 3, fa * 3, 'scale')
    same(A + 2, fa + 2, 'shift')
    same(1. / (A * A + 1), 1 / (fa * fa + 1.), 'reciprocal')
    same(A.apply(lambda x: x * x), fa * fa, 'apply')
    same(A.transpose(), fa, 'transpose')
    same(A.copy(), fa, 'copy', 'copy')
    mon.eq('merge', A.merge(), fa)
    mon.eq('merge', A.transpose().merge(), fa)
    mon.eq('shape', [list(s) for s in A.shape], [n])
    v = rng.normal(size=sum(n))
    S = A.split(v)
    same(S, v, 'split', 'split')
    mon.eq('split', S.merge(), v)
    mon.eq('split', A.split(A.merge()).merge(), fa)
    lo, hi = sorted(int(q) for q in rng.choice(len(n) + 1, size=2, replace=False))
    off = np.cumsum([0] + n)
    mon.eq('slice', A[lo:hi].merge(), fa[off[lo]:off[hi]])
    C = A.copy()
    C.block[0] = C.block[0] + 1
    mon.eq('copy', A.merge(), fa)
    # a two dimensional dense block array
    m = sizes(rng)
    D = [[values(rng, (p, q), 'float') for q in m] for p in n]
    X = DenseBlockArray(D)
    M = np.block(D)
    mon.eq('dense', X.block.shape, (len(n), len(m)))
    mon.eq('dense', X.merge(), M)
    mon.eq('dense', X.transpose().merge(), M.T)
    mon.eq('dense', (X + X * 2).merge(), 3 * M)
    mon.eq('shape', [list(s) for s in X.shape], [n, m])
    W = rng.normal(size=M.shape)
    Y = X.split(W)
    mon.eq('split', Y.merge(), W)
    mon.check('split', all(np.shape(Y.block[p, q]) == (n[p], m[q]) for p in range(len(n)) for q in range(len(m))))


def case_matrix(mon, rng, i):
    from pycomplex.block import DenseBlockArray, SparseBlockMatrix, BlockMatrix
    n, m, k = sizes(rng), sizes(rng), sizes(rng)
    if rng.random() < .4:
        m = list(n)

    def matrix(n, m):
        cells = [[sparse(rng, (p, q)) for q in m] for p in n]
        return SparseBlockMatrix([[c[0] for c in row] for row in cells]), np.block([[c[1] for c in row] for row in cells])
    A, P = matrix(n, m)
    B, Q = matrix(m, k)
    A2, P2 = matrix(n, m)
    mon.state(n, m, k, P)
    mon.note(rows=n, cols=m, inner=k)
    dense = lambda X: np.asarray(X.merge().todense(), float)
    mon.close('merge', dense(A), P, rtol=1e-12)
    mon.eq('shape', [list(s) for s in A.shape], [n, m])
    mon.eq('shape', (A.rows, A.cols), (len(n), len(m)))
    mon.eq('shape', bool(A.square), n == m)
    mon.close('product', dense(A * B), P.dot(Q), rtol=1e-12)
    mon.check('product', isinstance(A * B, SparseBlockMatrix))
    mon.close('transpose', dense(A.transpose()), P.T, rtol=1e-12)
    mon.close('transpose', dense((A * B).transpose()), Q.T.dot(P.T), rtol=1e-12)
    mon.close('normal', dense(A.transpose() * A), P.T.dot(P), rtol=1e-12)
    mon.close('merge', dense(A + A2), P + P2, rtol=1e-12, what='sum')
    x = [values(rng, q, 'float') for q in m]
    X = DenseBlockArray(list(x))
    y = A * X
    ok = isinstance(y, DenseBlockArray) and [np.shape(v) for v in y.block] == [(p,) for p in n]
    mon.check('product', ok and np.allclose(y.merge(), P.dot(np.concatenate(x)), rtol=1e-12, atol=1e-12), what='vector', got=y.block)
    mon.close('product', (A.transpose() * y).merge(), P.T.dot(P.dot(np.concatenate(x))), rtol=1e-12, atol=1e-12, what='normal')
    r = [int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 3)))]
    cols = [[values(rng, (q, c), 'float') for c in r] for q in m]
    mon.close('product', (A * DenseBlockArray(cols)).merge(), P.dot(np.block(cols)), rtol=1e-12, atol=1e-12, what='several right hand sides')
    off, offm = np.cumsum([0] + n), np.cumsum([0] + m)
    i0, i1 = sorted(int(q) for q in rng.choice(len(n) + 1, size=2, replace=False))
    j0, j1 = sorted(int(q) for q in rng.choice(len(m) + 1, size=2, replace=False))
    mon.close('slice', dense(A[i0:i1, j0:j1]), P[off[i0]:off[i1], offm[j0]:offm[j1]], rtol=1e-12)
    for axis in (0, 1):
        N = A.norm_l1(axis=axis)
        want = np.abs(P).sum(axis=axis)
        mon.check('norm', isinstance(N, DenseBlockArray) and [np.shape(v) for v in N.block] == [(q,) for q in (m, n)[axis]] and np.allclose(N.merge(), want, rtol=1e-12, atol=0), axis=axis, got=N.block, want=want)
    C = A.copy()
    C.block[0, 0] = C.block[0, 0] * 2
    mon.close('copy', dense(A), P, rtol=1e-12)
    S, T = matrix(n, n)
    d = S.diagonal()
    mon.check('diagonal', [np.shape(v) for v in d.block] == [(q,) for q in n] and np.allclose(d.merge(), np.diag(T), rtol=1e-12), got=d.block, want=np.diag(T))
    for how in (SparseBlockMatrix.diags, SparseBlockMatrix.as_diagonal):
        D = how(d)
        mon.check('diags', isinstance(D, SparseBlockMatrix))
        mon.close('diags', dense(D), np.diag(np.diag(T)), rtol=1e-12)
        mon.close('diags', dense(D * A), np.diag(np.diag(T)).dot(P), rtol=1e-12)
        mon.close('diags', (D * d).merge(), np.diag(T) ** 2, rtol=1e-12)
    bal = 1. / (A.norm_l1(axis=1) + .5)
    mon.close('balance', dense(SparseBlockMatrix.as_diagonal(bal) * A), P / (np.abs(P).sum(axis=1) + .5)[:, None], rtol=1e-12)


def case_shared(mon, rng, i):
    """the same object in several places, deeper blockings and long blocks"""
    from pycomplex.block import DenseBlockArray, SparseBlockMatrix
    k, m = int(rng.integers(2, 5)), int(rng.integers(1, 5))
    v = values(rng, m, 'float')
    M, P = sparse(rng, (m, m))
    mon.state('shared', k, m, P, v)
    mon.note(blocks=k, size=m)
    D = DenseBlockArray([v] * k)
    fv = np.concatenate([v] * k)
    keep = v.copy()
    dense = lambda X: np.asarray(X.merge().todense(), float)
    mon.close('diags', dense(SparseBlockMatrix.as_diagonal(D)), np.diag(fv), rtol=1e-12, what='one block in every place')
    A = SparseBlockMatrix([[M] * k] * 2)
    F = np.tile(P, (2, k))
    mon.close('merge', dense(A), F, rtol=1e-12, what='one block in every place')
    mon.close('product', (A * D).merge(), F.dot(fv), rtol=1e-12, atol=1e-12, what='one block in every place')
    mon.close('normal', dense(A.transpose() * A), F.T.dot(F), rtol=1e-12, what='one block in every place')
    mon.close('norm', A.norm_l1(axis=0).merge(), np.abs(F).sum(axis=0), rtol=1e-12, what='one block in every place')
    E = (D + D) * D
    mon.eq('vector', E.merge(), 2 * fv * fv)
    E.block[0] = E.block[0] + 1
    C = D.copy()
    C.block[-1] = C.block[-1] * 3 + 1
    mon.eq('copy', D.merge(), fv, what='one block in every place')
    mon.check('copy', np.array_equal(v, keep))
    # three axes of blocks
    n = [sizes(rng) for _ in range(3)]
    cells = [[[values(rng, (p, q, r), 'float') for r in n[2]] for q in n[1]] for p in n[0]]
    X, W = DenseBlockArray(cells), np.block(cells)
    mon.state('three', n, W)
    mon.eq('dense', X.merge(), W, what='three axes')
    mon.eq('shape', [list(s) for s in X.shape], n, what='three axes')
    mon.eq('dense', X.transpose().merge(), W.T, what='three axes')
    Z = rng.normal(size=W.shape)
    S = X.split(Z)
    mon.eq('split', S.merge(), Z, what='three axes')
    mon.check('split', all(np.shape(S.block[a, b, c]) == (n[0][a], n[1][b], n[2][c]) for a in range(len(n[0])) for b in range(len(n[1])) for c in range(len(n[2]))), what='three axes')
    mon.eq('vector', ((X * 2 + X) / 2).merge(), (W * 2 + W) / 2, what='three axes')
    # long blocks
    n = [int(q) for q in rng.choice([1, 90, 127, 128, 200, 256, 400], size=int(rng.integers(2, 5)))]
    x = [values(rng, q, 'float') for q in n]
    L, f = DenseBlockArray(list(x)), np.concatenate(x)
    mon.state('long', n, f[:20])
    z = rng.normal(size=len(f))
    mon.eq('split', [np.shape(b) for b in L.split(z).block], [(q,) for q in n], what='long')
    mon.eq('split', L.split(z).merge(), z, what='long')
    T = SparseBlockMatrix([[sp.random(p, q, .02, 'csr', random_state=int(rng.integers(1 << 30))) for q in n] for p in n])
    Y = dense(T)
    mon.close('product', (T * L).merge(), Y.dot(f), rtol=1e-12, atol=1e-12, what='long')
    mon.close('diags', dense(SparseBlockMatrix.as_diagonal(L)), np.diag(f), rtol=1e-12, what='long')
    mon.close('diagonal', T.diagonal().merge(), np.diag(Y), rtol=1e-12, what='long')


CASES = dict(vector=case_vector, matrix=case_matrix, shared=case_shared)
PLAN = dict(quick=dict(vector=800, matrix=600, shared=240), thorough=dict(vector=20000, matrix=15000, shared=4000))
