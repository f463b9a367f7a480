"""C27 stencil block arrays and block operators"""
import numpy as np
from vmon.checks.c26 import Ground, rows

PROP = 'C27'
RULE = ('random block arrays (equal and unequal shapes, one block, one element) and block operators with random form degrees on rows and columns of small periodic grids of 1 to 3 dimensions, entries being zeros, identities, '
        'diagonals, derivatives, duals, products and sums of these; every operation is compared with the dense block matrix or the concatenated vector; a state is one layout with its values')
REQUIRED = {'array': 300, 'dense': 60, 'split': 60, 'copy': 40, 'apply': 100, 'product': 60, 'transpose': 60, 'sum': 40, 'simplify': 40, 'flat': 100, 'diagonal': 60, 'assign': 100, 'shape': 60, 'rejects': 60, 'unit': 60}


def random_shapes(rng):
    n = int(rng.integers(1, 5))
    kind = rng.choice(['equal', 'mixed', 'ones'])
    dim = int(rng.integers(1, 4))
    one = tuple(int(v) for v in rng.integers(1, 4, size=dim))
    if kind == 'equal':
        return [one] * n
    if kind == 'ones':
        return [(1,) * int(rng.integers(1, 4)) for _ in range(n)]
    return [tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 4)))) for _ in range(n)]


def flat(blocks):
    return np.concatenate([np.ravel(b) for b in blocks])


def case_array(mon, rng, i):
    from pycomplex.stencil.block import BlockArray
    shapes = random_shapes(rng)
    draw = lambda: [rng.integers(1, 9, size=s) * rng.choice([-1., 1., .5], size=s) for s in shapes]
    a, b = draw(), draw()
    make = (lambda v: BlockArray(list(v), ndim=1)) if rng.random() < .5 else (lambda v: BlockArray(list(v)))
    A, B = make(a), make(b)
    mon.state(shapes, a)
    mon.note(shapes=shapes)
    s = float(rng.choice([0, 1, -2, .25]))

    def same(X, want, what):
        ok = len(X.block) == len(want) and X.block.shape == (len(want),)
        ok = ok and all(np.shape(x) == np.shape(w) for x, w in zip(X.block, want)) and all(np.allclose(x, w, rtol=1e-12, atol=0) for x, w in zip(X.block, want))
        mon.check('array', ok, what=what, got=list(X.block) if not ok else None, want=want if not ok else None, shapes=shapes)

    same(A, a, 'construct')
    same(A + B, [x + y for x, y in zip(a, b)], 'add')
    same(A - B, [x - y for x, y in zip(a, b)], 'sub')
    same(A * B, [x * y for x, y in zip(a, b)], 'mul')
    same(A * s, [x * s for x in a], 'scale')
    same(A + s, [x + s for x in a], 'shift')
    same(A - s, [x - s for x in a], 'unshift')
    same(A.abs(), [np.abs(x) for x in a], 'abs')
    same(A.invert(), [1 / x for x in a], 'invert')
    same(A.apply(lambda x: x * x + 1), [x * x + 1 for x in a], 'apply')
    same(A.apply(lambda x: x.sum(axis=0)), [x.sum(axis=0) for x in a], 'apply')
    same(A.transpose(), [x.T for x in a], 'transpose')
    same(A.copy(), a, 'copy')
    mon.close('array', A.sum(), flat(a).sum(), rtol=1e-12, atol=1e-12, what='sum')
    mon.eq('array', A.ndim, 1)
    mon.eq('dense', A.to_dense(), flat(a))
    v = rng.integers(-9, 9, size=flat(a).size).astype(float)
    C = A.from_dense(v)
    cuts = np.split(v, np.cumsum([x.size for x in a])[:-1])
    mon.check('split', len(C.block) == len(a) and all(c.shape == x.shape and np.array_equal(c, w.reshape(x.shape)) for c, w, x in zip(C.block, cuts, a)), shapes=shapes)
    mon.eq('split', C.to_dense(), v)
    # the template decides the shapes, and nothing else
    v = rng.normal(size=v.size)
    for kind in (np.float32, np.int32, bool):
        T = BlockArray([np.zeros(s, kind) for s in shapes], ndim=1)
        mon.eq('split', T.from_dense(v).to_dense(), v, template=kind.__name__)
    mon.raises('rejects', Exception, lambda: A.from_dense(np.zeros(v.size + 1)))
    j = int(rng.integers(len(a)))
    mon.eq('array', A[j], a[j])
    C = A.copy()
    keep = [x.copy() for x in a]
    new = rng.normal(size=shapes[j])
    if new.size > 1:
        C[j] = new
        mon.check('assign', np.array_equal(C[j], new) and all(np.array_equal(x, y) for k, (x, y) in enumerate(zip(C.block, keep)) if k != j))
        mon.raises('rejects', Exception, lambda: C.__setitem__(j, rng.normal(size=shapes[j] + (2,))))
    mon.check('copy', all(np.array_equal(x, y) for x, y in zip(A.block, keep)), what='writing a copy')
    lo, hi = sorted(int(v) for v in rng.integers(0, len(a) + 1, size=2))
    if hi > lo:
        same(A.__getslice__(slice(lo, hi)), a[lo:hi], 'slice')


def link(G, rng, to, arg, depth=1):
    """(operator, matrix, magnitudes) between two form types"""
    A, B = G.space(to), G.space(arg)
    k, m = to[1], arg[1]
    if abs(k - m) > 1 or rng.random() < .2:
        o, M = G.leaf('zero', to, arg)
    elif k == m:
        how = rng.choice(['identity', 'diag', 'hodge', 'unhodge', 'laplace'])
        if how == 'laplace':
            o, M, S = None, 0, 0
            t = (0, k + 1) if k < G.N and (k == 0 or rng.random() < .5) else (0, k - 1)
            a, P = G.leaf('delta' if t[1] > k else 'd', to, t)
            h, H = G.leaf('diag' if rng.random() < .5 else 'hodge', t, t)
            b, Q = G.leaf('d' if t[1] > k else 'delta', t, arg)
            o, M, S = a * h * b, P.dot(H).dot(Q), np.abs(P).dot(np.abs(H)).dot(np.abs(Q))
            return o, M, S
        o, M = G.leaf(how, to, arg)
    else:
        o, M = G.leaf('d' if k > m else 'delta', to, arg)
        if rng.random() < .6:
            h, H = G.leaf(rng.choice(['diag', 'hodge', 'unhodge']), to, to)
            o, M = h * o, H.dot(M)
        if rng.random() < .3:
            h, H = G.leaf(rng.choice(['diag', 'hodge', 'unhodge']), arg, arg)
            o, M = o * h, M.dot(H)
    S = np.abs(M)
    if depth and rng.random() < .25:
        b, Q, T = link(G, rng, to, arg, depth - 1)
        o, M, S = o + b, M + Q, S + T
    return o, M, S


def system(G, rng, L, R):
    from pycomplex.stencil.block import BlockOperator
    cells = [[link(G, rng, (0, l), (0, r)) for r in R] for l in L]
    O = BlockOperator([[c[0] for c in row] for row in cells], ndim=2)
    return O, np.block([[c[1] for c in row] for row in cells]), np.block([[c[2] for c in row] for row in cells])


def case_operator(mon, rng, i):
    from pycomplex.stencil import operator as op
    from pycomplex.stencil.block import BlockOperator, BlockArray
    G = Ground(rng, (1., 2., .5, .1))
    G.levels = G.levels[:1]
    pickk = lambda: [int(v) for v in rng.integers(G.N + 1, size=int(rng.choice([1, 2, 3, 4, 6], p=[.25, .25, .25, .15, .1])))]
    L, R, K = pickk(), pickk(), pickk()
    if rng.random() < .4:
        R = list(L)
    sp = lambda ks: [G.space((0, k)) for k in ks]
    A, M, S = system(G, rng, L, R)
    C, N, T = system(G, rng, R, K)
    mon.state(G.shape, L, R, K, M)
    mon.note(shape=G.shape, L=L, R=R, K=K)
    draw = lambda ks: [rng.integers(-4, 5, size=s).astype(float) for s in sp(ks)]
    x, y = draw(R), draw(L)
    X, Y = BlockArray(x, ndim=1), BlockArray(y, ndim=1)

    def mat(oracle, O, want, size, what):
        got = np.asarray(O.to_dense(), float)
        mon.check(oracle, got.shape == want.shape and bool(rows(got, want, size).all()), what=what, got=got, want=want)

    def vec(oracle, V, want, size, ks, what):
        ok = [b.shape for b in V.block] == sp(ks)
        mon.check(oracle, ok and bool(rows(flat(V.block), want, size).all()), what=what, got=flat(V.block) if ok else [b.shape for b in V.block], want=want)

    mat('dense', A, M, S, 'operator')
    mon.eq('shape', [list(map(tuple, s)) for s in A.shape], [sp(L), sp(R)])
    mon.eq('shape', bool(A.is_square), sp(L) == sp(R))
    mon.eq('shape', (A.rows, A.cols), (len(L), len(R)))
    fx, fy = flat(x), flat(y)
    vec('apply', A * X, M.dot(fx), S.dot(np.abs(fx)), L, 'apply')
    vec('apply', A.simplify() * X, M.dot(fx), S.dot(np.abs(fx)), L, 'simplified apply')
    vec('apply', A.transpose() * Y, M.T.dot(fy), S.T.dot(np.abs(fy)), R, 'transposed apply')
    mon.check('apply', np.array_equal(flat(X.block), fx), what='pure')
    mat('product', A * C, M.dot(N), S.dot(T), 'product')
    vec('apply', (A * C) * BlockArray(draw(K), ndim=1) * 0, np.zeros(M.shape[0]), np.zeros(M.shape[0]), L, 'shape of product')
    mat('transpose', A.transpose(), M.T, S.T, 'transpose')
    mat('transpose', A.transpose().transpose(), M, S, 'twice')
    mat('transpose', (A * C).transpose(), N.T.dot(M.T), T.T.dot(S.T), 'product')
    A2, M2, S2 = system(G, rng, L, R)
    mat('sum', A + A2, M + M2, S + S2, 'sum')
    mat('simplify', A.simplify(), M, S, 'simplify')
    mat('simplify', (A.transpose() * A).simplify(), M.T.dot(M), S.T.dot(S), 'normal')
    P = A.aslinearoperator()
    mon.eq('flat', tuple(P.shape), M.shape)
    for name, f, want, size in (('matvec', lambda: P.matvec(fx), M.dot(fx), S.dot(np.abs(fx))), ('rmatvec', lambda: P.rmatvec(fy), M.T.dot(fy), S.T.dot(np.abs(fy))),
                                ('column', lambda: P.matvec(fx[:, None])[:, 0], M.dot(fx), S.dot(np.abs(fx))), ('adjoint', lambda: P.H.matvec(fy), M.T.dot(fy), S.T.dot(np.abs(fy)))):
        got = np.asarray(f())
        mon.check('flat', got.shape == want.shape and bool(rows(got, want, size).all()), what=name, got=got, want=want)
    # zeros, identity, assignment
    Z, I = BlockOperator.zeros(sp(L), sp(R)), BlockOperator.identity(sp(L))
    mon.check('unit', Z.to_dense().shape == M.shape and not Z.to_dense().any(), what='zeros')
    mon.eq('unit', I.to_dense(), np.eye(M.shape[0]))
    vec('unit', I * Y, fy, np.abs(fy), L, 'identity')
    mat('unit', I * A, M, S, 'identity')
    r, c = int(rng.integers(len(L))), int(rng.integers(len(R)))
    W = A.copy()
    value = rng.choice(['zero', 'one', 'operator'])
    off = np.cumsum([0] + [int(np.prod(s)) for s in sp(L)]), np.cumsum([0] + [int(np.prod(s)) for s in sp(R)])
    want, size = M.copy(), S.copy()
    at = np.s_[off[0][r]:off[0][r + 1], off[1][c]:off[1][c + 1]]
    if value == 'one' and L[r] != R[c]:
        value = 'zero'
    if value == 'zero':
        W[r, c] = 0
        want[at] = 0
    elif value == 'one':
        W[r, c] = 1
        want[at], size[at] = np.eye(*want[at].shape), np.eye(*want[at].shape)
    else:
        o, Q, s = link(G, rng, (0, L[r]), (0, R[c]))
        W[r, c] = o
        want[at], size[at] = Q, s
    mat('assign', W, want, size, value)
    mat('copy', A, M, S, 'untouched by writing a copy')
    bad = op.ZeroOperator((sp(L)[r], sp(R)[c] + (2,)))
    mon.raises('rejects', Exception, lambda: W.__setitem__((r, c), bad))
    if sp(L)[r] != sp(R)[c]:
        mon.raises('rejects', Exception, lambda: W.__setitem__((r, c), 1))
    mat('assign', W, want, size, 'after a rejected write')
    i0, i1 = sorted(int(v) for v in rng.choice(len(L) + 1, size=2, replace=False))
    j0, j1 = sorted(int(v) for v in rng.choice(len(R) + 1, size=2, replace=False))
    sub = A.__getslice__((slice(i0, i1), slice(j0, j1)))
    box = np.s_[off[0][i0]:off[0][i1], off[1][j0]:off[1][j1]]
    mat('dense', sub, M[box], S[box], 'slice')


def case_diagonal(mon, rng, i):
    """normal equations of first order systems with arbitrary positive or zero coefficients"""
    from pycomplex.stencil.block import BlockOperator
    from pycomplex.stencil.operator import DiagonalOperator
    G = Ground(rng, (1., 2., .5, .1))
    G.levels = G.levels[:1]
    c, N = G.levels[0], G.N
    A = BlockOperator.zeros(c.n_elements, c.n_elements)
    w = lambda k: DiagonalOperator(rng.integers(0, 4, size=c.n_elements[k]).astype(float), c.n_elements[k])
    for k in range(N + 1):
        if rng.random() < .8:
            A[k, k] = w(k)
        if k < N:
            A[k + 1, k] = w(k + 1) * c.topology.primal[k] * w(k)
            A[k, k + 1] = w(k) * c.topology.dual[k] * w(k + 1)
    i0, i1 = sorted(int(v) for v in rng.choice(N + 2, size=2, replace=False))
    B = A.__getslice__((slice(None), slice(i0, i1)))
    n = B.transpose() * B
    M = n.to_dense()
    D = n.diagonal()
    mon.state(G.shape, i0, i1, M)
    mon.note(shape=G.shape, cols=(i0, i1))
    mon.eq('shape', [b.shape for b in D.block], [tuple(s) for s in c.n_elements[i0:i1]])
    mon.close('diagonal', D.to_dense(), np.diag(M), rtol=1e-6, atol=1e-6)
    S = n.simplify()
    mon.close('diagonal', S.diagonal().to_dense(), np.diag(M), rtol=1e-6, atol=1e-6, what='simplified')
    mon.close('diagonal', M, M.T, rtol=1e-6, atol=1e-6, what='symmetric')


CASES = dict(array=case_array, operator=case_operator, diagonal=case_diagonal)
PLAN = dict(quick=dict(array=960, operator=840, diagonal=480), thorough=dict(array=2000, operator=1500, diagonal=600))
