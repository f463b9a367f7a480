"""C35: sparse utilities act as their dense counterparts"""
import warnings
import numpy as np
import scipy.sparse

PROP = 'C35'
RULE = ('sparse matrices of every format and dtype with random, empty, single, full and duplicated patterns, labels that are permuted, shifted, one-sided or disjoint; diagonals over 12 decades; key arrays with any multiplicities; '
        'a state is one distinct pattern with its values')
REQUIRED = {'ones': 60, 'l1': 60, 'inv-diag': 40, 'zeros': 60, 'pairs': 100, 'add': 60, 'mul': 60, 'scale': 60, 'dot': 60, 'matvec': 30, 'transpose': 60, 'filter': 60, 'dense': 60, 'type': 60, 'reject': 40, 'pure': 60}


def matrix(rng, shape=None):
    shape = shape or tuple(int(v) for v in rng.integers(1, 7, size=2))
    how = rng.choice(['random', 'sparse', 'one', 'full', 'empty'], p=[.4, .3, .1, .15, .05])
    d = rng.integers(-4, 5, size=shape) if rng.random() < .5 else rng.normal(size=shape)
    p = {'random': .5, 'sparse': .2, 'one': 0, 'full': 1, 'empty': 0}[str(how)]
    m = rng.random(shape) < p
    if how == 'one':
        m.flat[rng.integers(m.size)] = True
    if how == 'full':
        d = np.where(d == 0, 1, d)
    return np.where(m, d, 0)


def case_helpers(mon, rng, i):
    from pycomplex import sparse
    d = matrix(rng)
    fmt = str(rng.choice(['csr', 'csc', 'coo', 'bsr']))
    A = scipy.sparse.csr_matrix(d).asformat(fmt)
    if rng.random() < .3 and np.issubdtype(d.dtype, np.integer):
        A = A.astype(np.int8)
    mon.state('matrix', d.tobytes(), d.shape, fmt)
    before = A.toarray()
    with mon.calling('ones_like', d=d, format=fmt):
        O = sparse.ones_like(A)
    if fmt != 'bsr':
        mon.check('ones', O.shape == d.shape and np.array_equal(O.toarray(), (d != 0).astype(float)), d=d, format=fmt)
    mon.check('pure', np.array_equal(A.toarray(), before))
    for axis in (0, 1):
        s = np.abs(d).sum(axis=axis)
        if np.all(s > 0):
            with mon.calling('normalize_l1', d=d, axis=axis):
                N = sparse.normalize_l1(A, axis=axis) if axis == 0 or rng.integers(2) else sparse.normalize_l1(A)
            mon.close('l1', N.toarray(), d / (s[None] if axis == 0 else s[:, None]), 1e-12, axis=axis, d=d)
            mon.check('pure', np.array_equal(A.toarray(), before))
    n = int(rng.integers(1, 8))
    v = rng.choice([-1, 1], size=n) * 10. ** rng.uniform(-6, 6, size=n)
    D = scipy.sparse.diags(v)
    with mon.calling('inv_diag', v=v):
        I = sparse.inv_diag(D)
    mon.close('inv-diag', (I * D).toarray(), np.eye(n), 1e-12, v=v)
    mon.check('inv-diag', isinstance(I, scipy.sparse.dia_matrix) and np.array_equal(D.toarray(), np.diag(v)))
    bad = scipy.sparse.diags(np.ones(n), offsets=1) if rng.integers(2) else D.tocsr()
    mon.raises('reject', AssertionError, lambda: sparse.inv_diag(bad))
    shape = tuple(int(v) for v in rng.integers(1, 9, size=2))
    with mon.calling('sparse_zeros', shape=shape):
        Z, Y, W = sparse.sparse_zeros(shape), sparse.zeros_like(A), sparse.zeros_like(before)
    mon.check('zeros', Z.shape == shape and Z.nnz == 0 and not Z.toarray().any() and scipy.sparse.issparse(Z))
    mon.check('zeros', Y.shape == d.shape and Y.nnz == 0 and W.shape == d.shape and W.nnz == 0, d=d)
    mon.check('zeros', np.array_equal((A.tocsr() + Y).toarray(), before), d=d)


def case_indices(mon, rng, i):
    from pycomplex.sparse import multi_indices
    n, m = (int(v) for v in rng.integers(1, 14, size=2))
    top, shift = int(rng.integers(1, 12)), int(rng.choice([0, 0, 2, 20]))
    a, b = rng.integers(0, top, size=n), rng.integers(0, top, size=m) + shift
    if rng.random() < .2:
        a, b = np.array(list('abcdefghijklmnopqrstuvwxyz'))[a], np.array(list('abcdefghijklmnopqrstuvwxyz' * 2))[b]
    mon.state('keys', a.tobytes(), b.tobytes())
    keep = a.copy(), b.copy()
    with mon.calling('multi_indices', this=a, that=b):
        p, q = multi_indices(a, b)
    want = sorted((x, y) for x in range(n) for y in range(m) if a[x] == b[y])
    mon.eq('pairs', sorted(zip(p.tolist(), q.tolist())), want, this=a, that=b)
    mon.check('pure', np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]))


def labelled(rng, d, labels, extra=0):
    """Sparse of a dense array, its nonzeros in random order with the given labels"""
    from pycomplex.sparse import Sparse
    idx = np.argwhere(d)
    if extra:   # explicit zeros
        idx = np.unique(np.concatenate((idx, np.array([rng.integers(0, s, size=extra) for s in d.shape]).T)), axis=0)
    idx = idx[rng.permutation(len(idx))]
    return Sparse([l[k] for l, k in zip(labels, idx.T)], d[tuple(idx.T)])


def scatter(S, labels):
    """dense array of a Sparse over the given labels, duplicates summed"""
    out = np.zeros([len(l) for l in labels])
    where = [np.array([list(l).index(v) for v in a], int) for l, a in zip(labels, S.axes)]
    np.add.at(out, tuple(where), S.data)
    return out


def unique(S):
    k = list(zip(*[a.tolist() for a in S.axes]))
    return len(k) == len(set(k))


def case_labelled(mon, rng, i):
    from pycomplex.sparse import Sparse
    n, m, k = (int(v) for v in rng.integers(1, 7, size=3))
    L = [rng.permutation(30)[:s] for s in (n, m, k)] if rng.random() < .6 else [np.arange(s) for s in (n, m, k)]
    a, b, c = matrix(rng, (n, m)), matrix(rng, (n, m)), matrix(rng, (m, k))
    A, B, C = labelled(rng, a, L[:2], int(rng.integers(0, 3))), labelled(rng, b, L[:2]), labelled(rng, c, L[1:])
    mon.state('labelled', a.tobytes(), b.tobytes(), c.tobytes())
    state = [[x.copy() for x in s.axes] + [s.data.copy()] for s in (A, B, C)]
    mon.check('dense', np.array_equal(scatter(A, L[:2]), a) and A.ndim == 2 and A.nnz == len(A.data))
    if A.nnz and B.nnz:
        with mon.calling('__add__', a=a, b=b):
            S = A + B
        mon.close('add', scatter(S, L[:2]), a + b, 1e-12, 1e-12, a=a, b=b)
        mon.check('add', unique(S))
        with mon.calling('__mul__', a=a, b=b):
            M = A * B
        mon.close('mul', scatter(M, L[:2]), a * b, 1e-12, 1e-12, a=a, b=b)
        mon.check('mul', unique(M) and set(zip(*[x.tolist() for x in M.axes])) <= set(zip(*[x.tolist() for x in B.axes])))
        J = A.concatenate(B)
        mon.check('add', J.nnz == A.nnz + B.nnz and np.allclose(scatter(J, L[:2]), a + b))
    t = float(rng.normal()) if rng.integers(2) else int(rng.integers(-3, 4))
    with mon.calling('__mul__', t=t):
        mon.close('scale', scatter(A * t, L[:2]), a * t, 1e-12, 1e-12)
    with mon.calling('dot', a=a, c=c, labels=L):
        P = A.dot(C)
    mon.close('dot', scatter(P, [L[0], L[2]]), a @ c, 1e-10, 1e-12, a=a, c=c)
    mon.check('dot', unique(P) and P.ndim == 2)
    one_sided = rng.permutation(np.arange(100, 130))[:m]     # some labels that are unknown to the other side
    keep = rng.random(m) < .5
    L1 = np.where(keep, L[1], one_sided)
    C2 = labelled(rng, c, [L1, L[2]])
    with mon.calling('dot', a=a, c=c, keep=keep):
        P = A.dot(C2)
    mon.close('dot', scatter(P, [L[0], L[2]]), a[:, keep] @ c[keep], 1e-10, 1e-12, a=a, c=c, keep=keep)
    x = rng.normal(size=m)
    X = Sparse([L[1]], x)
    with mon.calling('dot', a=a, x=x):
        y = A.dot(X)
    mon.close('matvec', scatter(y, L[:1]), a @ x, 1e-10, 1e-12, a=a, x=x)
    z = rng.normal(size=n)
    with mon.calling('dot', a=a, z=z):
        y = Sparse([L[0]], z).dot(A)
    mon.close('matvec', scatter(y, L[1:2]), z @ a, 1e-10, 1e-12, a=a, z=z)
    mon.check('transpose', np.array_equal(scatter(A.T, L[:2][::-1]), a.T) and np.array_equal(scatter(A.T.T, L[:2]), a))
    mon.check('filter', np.array_equal(scatter(A.filter(lambda d: d > 0), L[:2]), np.where(a > 0, a, 0)), a=a)
    F = A.filter(lambda d: d != 0)
    mon.check('filter', F.nnz == np.count_nonzero(a) and np.all(F.data != 0))
    T = A.astype(np.float32)
    mon.check('type', T.data.dtype == np.float32 and np.allclose(scatter(T, L[:2]), a, 1e-6))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with mon.calling('fromdense', a=a):
            D = Sparse.fromdense(a)
            labels, table = D.todense()
        mon.check('dense', np.array_equal(table, a) and [l.tolist() for l in labels] == [list(range(s)) for s in a.shape], a=a, table=table)
        if A.nnz:
            with mon.calling('todense', a=a):
                labels, table = A.todense()
            rows, cols = [np.unique(x) for x in A.axes]
            at = [[list(l).index(v) for v in r] for l, r in zip(L, (rows, cols))]
            mon.check('dense', np.array_equal(labels[0], rows) and np.array_equal(labels[1], cols) and np.array_equal(np.nan_to_num(table), a[np.ix_(*at)]), a=a, table=table)
    mon.raises('reject', ValueError, lambda: Sparse([L[0], np.arange(n + 1)], np.ones(n)))
    for s, st in zip((A, B, C), state):
        mon.check('pure', all(np.array_equal(p, q) for p, q in zip(list(s.axes) + [s.data], st)))


def case_many(mon, rng, i):
    """keys that occur hundreds of times, and arrays with one or three axes"""
    from pycomplex.sparse import multi_indices, Sparse
    top = int(rng.integers(1, 6))
    a, b = (np.repeat(np.arange(top), rng.choice([0, 1, 3, 127, 128, 130, 256, 300], size=top)) for _ in range(2))
    a, b = np.concatenate((a, [top])), np.concatenate((b, [top]))
    a, b = rng.permutation(a), rng.permutation(b)
    mon.state('many', a.tobytes(), b.tobytes())
    with mon.calling('multi_indices', this=a, that=b):
        p, q = multi_indices(a, b)
    P = np.zeros((len(a), len(b)), int)
    np.add.at(P, (p, q), 1)
    mon.check('pairs', np.array_equal(P, a[:, None] == b[None]), counts=[np.bincount(a), np.bincount(b)])
    # row sums and products of wide arrays
    n, k = int(rng.integers(1, 4)), int(rng.choice([20, 127, 128, 260]))
    d, e = (rng.random((n, k)) < .8) * rng.integers(1, 5, size=(n, k)), (rng.random((k, n)) < .8) * rng.integers(1, 5, size=(k, n))
    L = [np.arange(n), rng.permutation(400)[:k]]
    S = labelled(rng, d, L).dot(labelled(rng, e, L[::-1]))
    mon.close('dot', scatter(S, [L[0], L[0]]), d @ e, 1e-12, what='wide')
    for shape in ((int(rng.integers(1, 9)),), tuple(int(v) for v in rng.integers(1, 5, size=3))):
        x, y = matrix(rng, shape), matrix(rng, shape)
        L = [rng.permutation(30)[:s] for s in shape]
        X, Y = labelled(rng, x, L, 2), labelled(rng, y, L)
        mon.state('axes', x.tobytes(), y.tobytes(), shape)
        mon.check('dense', X.ndim == len(shape) and np.array_equal(scatter(X, L), x), axes=len(shape))
        mon.check('transpose', np.array_equal(scatter(X.T, L[::-1]), x.T), axes=len(shape))
        mon.check('filter', X.filter(lambda v: v == 0).nnz == X.nnz - np.count_nonzero(x) and X.filter(lambda v: v > -99).nnz == X.nnz, axes=len(shape), what='explicit zeros')
        mon.close('scale', scatter(X * 2.5, L), x * 2.5, 1e-12)
        if X.nnz and Y.nnz:
            mon.close('add', scatter(X + Y, L), x + y, 1e-12, 1e-12, axes=len(shape))
            # what is stored in both is stored in the sum
            pat = lambda S: set(zip(*[v.tolist() for v in S.axes]))
            mon.check('add', pat(X + Y) == pat(X) | pat(Y) and unique(X + Y), axes=len(shape), what='pattern')
            if len(shape) > 1:
                mon.close('mul', scatter(X * Y, L), x * y, 1e-12, 1e-12, axes=len(shape))


CASES = dict(many=case_many, helpers=case_helpers, indices=case_indices, labelled=case_labelled)
PLAN = dict(quick=dict(many=640, helpers=4800, indices=4800, labelled=2400), thorough=dict(many=3000, helpers=20000, indices=20000, labelled=10000))
