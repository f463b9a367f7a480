"""C34: permutation parity tables, combinatorial enumerations and index utilities"""
import itertools
import numpy as np
import scipy.sparse

PROP = 'C34'
RULE = ('permutations and combinations of up to 6 labels of any type; the permutation maps of simplices up to dimension 5 and of cubes up to dimension 4, relabelled in random batches and broken at random; '
        'index arrays of up to 5 axes, random sorted and unsorted element tables, boolean and integer masks, regular and irregular incidence matrices, few rows or some 66000; a state is one distinct input')
REQUIRED = {'large': 60, 'permutations': 60, 'parity': 60, 'combinations': 60, 'simplex-map': 6, 'cube-map': 6, 'simplex-parity': 40, 'cube-parity': 40, 'not-a-cube': 20, 'group': 40, 'indices': 40, 'sort': 40,
            'relative': 40, 'select': 40, 'transfer': 40, 'topology': 40, 'elements': 40, 'irregular': 20, 'lookup': 40, 'missing': 20, 'pairs': 40, 'accumulate': 40, 'grid': 40, 'pure': 40}


def sign(p):
    """parity of a permutation, by counting cycles"""
    p = list(p)
    seen, par = set(), 0
    for i in range(len(p)):
        n = 0
        while i not in seen:
            seen.add(i)
            i = p[i]
            n += 1
        par += max(0, n - 1)
    return par % 2


def labels(rng, n):
    how = int(rng.integers(4))
    if how == 0:
        return [int(v) for v in rng.permutation(50)[:n]]
    if how == 1:
        return [chr(97 + int(v)) for v in rng.permutation(26)[:n]]
    if how == 2:
        return [float(v) for v in rng.normal(size=n)]
    return list(range(n))


def case_enumerate(mon, rng, i):
    from pycomplex.math.combinatorial import combinations, permutations
    n = int(rng.integers(1, 7))
    L = labels(rng, n)
    mon.state('labels', repr(L))
    keep = list(L)
    with mon.calling('permutations', labels=L):
        got = [(int(p), tuple(t)) for p, t in permutations(L)]
    mon.check('permutations', len(got) == len(set(t for _, t in got)) and set(t for _, t in got) == set(itertools.permutations(L)), labels=L)
    bad = [(p, t) for p, t in got if sorted(map(repr, t)) == sorted(map(repr, L)) and sign([L.index(v) for v in t]) != p]
    mon.check('parity', not bad, labels=L, wrong=bad[:3])
    k = int(rng.integers(1, n + 1))
    with mon.calling('combinations', labels=L, k=k):
        got = [(int(p), tuple(t)) for p, t in combinations(L, k)]
    mon.eq('combinations', [t for _, t in got], [tuple(t) for t in itertools.combinations(L, k)], labels=L, k=k)
    with mon.calling('combinations', labels=L, k=1):
        got = [int(p) for p, t in combinations(L, 1)]
    mon.eq('combinations', got, [j % 2 for j in range(n)], labels=L, k='1, parity')
    for j in (0, n + 1, n + 2, n + 5):
        mon.eq('combinations', [(int(p), list(t)) for p, t in combinations(L, j)], [(0, [])], labels=L, k=j)
    mon.eq('pure', L, keep)


def cube_symmetry(rng, n):
    """random symmetry of the n-cube: corner table and parity"""
    perm, flip = rng.permutation(n), rng.integers(0, 2, size=n)
    corner = np.indices((2,) * n).reshape(n, -1)
    image = np.empty_like(corner)
    image = corner[perm] ^ flip[:, None]
    return np.ravel_multi_index(tuple(image), (2,) * n), (sign(perm) + int(flip.sum())) % 2


def affine_parity(row, n):
    """(is a symmetry of the cube, parity), from the images of the corners"""
    corner = np.indices((2,) * n).reshape(n, -1).T
    image = corner[row]
    origin = image[0]
    axes = np.array([image[1 << (n - 1 - d)] - origin for d in range(n)])
    ok = sorted(row) == list(range(2 ** n)) and np.array_equal(image, origin + corner @ axes)
    return ok, (0 if np.linalg.det(axes) > 0 else 1)


def case_maps(mon, rng, i):
    from pycomplex.topology import simplicial, cubical
    n = int(rng.integers(0, 6))
    mon.state('simplex', n)
    with mon.calling('simplicial.permutation_map', n=n):
        par, perm = simplicial.permutation_map(n)
    mon.check('simplex-map', set(map(tuple, perm.tolist())) == set(itertools.permutations(range(n + 1))) and len(perm) == len(set(map(tuple, perm.tolist())))
              and [sign(r) for r in perm.tolist()] == par.tolist(), n=n)
    n, rotations = int(rng.integers(1, 5)), bool(rng.integers(2))
    mon.state('cube', n, rotations)
    with mon.calling('cubical.permutation_map', n=n, rotations=rotations):
        par, perm = cubical.permutation_map(n, rotations=rotations)
    rows = perm.tolist()
    want = [affine_parity(r, n) for r in rows]
    size = 2 ** n * (int(np.prod(range(1, n + 1))) if rotations else 1)
    mon.check('cube-map', len(set(map(tuple, rows))) == len(rows) == size and all(w[0] for w in want) and [w[1] for w in want] == par.tolist(), n=n, rotations=rotations, size=len(rows))


def case_parity(mon, rng, i):
    from pycomplex.topology.simplicial import relative_simplex_parity
    from pycomplex.topology.cubical import relative_cube_parity
    n, m = int(rng.integers(0, 6)), int(rng.integers(1, 12))
    P = np.array([rng.permutation(n + 1) for _ in range(m)]).astype(rng.choice(['int8', 'int32', 'int64']))
    mon.state('simplices', P.tobytes(), n)
    keep = P.copy()
    with mon.calling('relative_simplex_parity', P=P):
        got = relative_simplex_parity(P)
    mon.eq('simplex-parity', got.tolist(), [sign(r) for r in P.tolist()])
    Q = np.array([rng.permutation(n + 1) for _ in range(m)])
    mon.eq('group', ((relative_simplex_parity(np.take_along_axis(P, Q, 1))) % 2).tolist(), ((got + relative_simplex_parity(Q)) % 2).tolist())
    mon.eq('pure', P.tolist(), keep.tolist())
    n = int(rng.integers(1, 5))
    C, want = zip(*[cube_symmetry(rng, n) for _ in range(m)])
    C = np.array(C)
    mon.state('cubes', C.tobytes(), n)
    with mon.calling('relative_cube_parity', C=C):
        got = relative_cube_parity(C.reshape((m,) + (2,) * n))
    mon.eq('cube-parity', got.tolist(), list(want), n=n)
    if n > 1:
        r = int(rng.integers(m))
        B = C.copy()
        a, b = rng.permutation(2 ** n)[:2]
        B[r, [a, b]] = B[r, [b, a]]
        if not affine_parity(B[r], n)[0]:
            mon.raises('not-a-cube', ValueError, lambda: relative_cube_parity(B.reshape((m,) + (2,) * n)))


def case_index(mon, rng, i):
    from pycomplex.topology import util
    shape = tuple(int(v) for v in rng.integers(1, 5, size=int(rng.integers(1, 6))))
    dtype = rng.choice(['int8', 'int32', 'int64'])
    with mon.calling('indices', shape=shape):
        got = util.indices(shape, dtype=np.dtype(dtype)) if rng.integers(2) else util.indices(shape)
    want = np.indices(shape)
    mon.state('indices', shape)
    mon.check('indices', len(got) == len(shape) and all(g.shape == shape and np.array_equal(g, w) for g, w in zip(got, want)), shape=shape)
    arr = rng.integers(0, 9, size=shape) if rng.integers(2) else rng.normal(size=shape)
    axis = int(rng.integers(len(shape)))
    keep = arr.copy()
    mon.state('sort', arr.tobytes(), axis)
    with mon.calling('sort_and_argsort', arr=arr, axis=axis):
        s, a = util.sort_and_argsort(arr, axis)
    mon.check('sort', np.array_equal(s, np.sort(arr, axis=axis)) and np.array_equal(np.take_along_axis(arr, a, axis), s)
              and np.array_equal(np.sort(a, axis=axis), want[axis]), arr=arr, axis=axis)
    mon.check('pure', np.array_equal(arr, keep))
    n, m = int(rng.integers(1, 8)), int(rng.integers(1, 6))
    P, Q = (np.array([rng.permutation(m) for _ in range(n)]) for _ in range(2))
    with mon.calling('relative_permutations', P=P, Q=Q):
        R = util.relative_permutations(P, Q)
    mon.check('relative', R.shape == P.shape and np.array_equal(np.take_along_axis(R, Q, 1), P), P=P, Q=Q, R=R)


def case_matrix(mon, rng, i):
    from pycomplex.topology import util
    n = int(rng.integers(1, 12))
    mask = rng.integers(0, 2, size=n)
    if rng.integers(2):
        mask = mask.astype(bool)
    elif rng.integers(2):
        mask = mask * rng.normal(size=n)
    mon.state('mask', mask.tobytes())
    x = rng.normal(size=n)
    with mon.calling('selection_matrix', mask=mask):
        S = util.selection_matrix(mask)
    mon.eq('select', (S * x).tolist(), x[np.asarray(mask) != 0].tolist(), mask=mask)
    mon.eq('select', list(S.shape), [int(np.count_nonzero(mask)), n])
    R, C, k = int(rng.integers(1, 9)), int(rng.integers(1, 9)), int(rng.integers(0, 12))
    pos = rng.permutation(R * C)[:k]
    r, c = pos // C, pos % C
    with mon.calling('transfer_matrix', r=r, c=c):
        T = util.transfer_matrix(r, c, (R, C))
    want = np.zeros((R, C))
    want[r, c] = 1
    mon.state('transfer', want.tobytes(), R)
    mon.check('transfer', T.shape == (R, C) and np.array_equal(T.toarray(), want), r=r, c=c)
    ne, nb, N = int(rng.integers(1, 7)), int(rng.integers(1, 5)), int(rng.integers(5, 9))
    el = np.array([rng.permutation(N)[:nb] for _ in range(ne)])
    sg = rng.choice([-1, 1], size=el.shape)
    want = np.zeros((el.max() + 1, ne))
    for e in range(ne):
        want[el[e], e] += sg[e]
    mon.state('topology', el.tobytes(), sg.tobytes())
    multi = nb % 2 == 0 and rng.integers(2)
    shape = (ne, nb // 2, 2) if multi else (ne, nb)
    with mon.calling('topology_matrix', el=el, sg=sg):
        T = util.topology_matrix(el.reshape(shape), sg.reshape(shape))
    mon.check('topology', T.shape == want.shape and np.array_equal(T.toarray(), want), el=el, sg=sg)
    with mon.calling('sparse_to_elements', el=el):
        E = util.sparse_to_elements(T.T.tocsr() if rng.integers(2) else scipy.sparse.coo_matrix(T.T))
    mon.eq('elements', np.sort(E, axis=1).tolist(), np.sort(el, axis=1).tolist())
    if ne > 1 and nb > 1:
        D = T.T.toarray()
        D[0, el[0, 0]] = 0
        mon.raises('irregular', ValueError, lambda: util.sparse_to_elements(scipy.sparse.csr_matrix(D)))


def case_lookup(mon, rng, i):
    from pycomplex.topology import util
    N, nc = int(rng.integers(6, 12)), int(rng.choice([1, 2, 3, 4]))
    pool = np.array(list(itertools.combinations(range(N), nc)))
    pool = pool[rng.permutation(len(pool))]
    n = int(rng.integers(1, min(len(pool), 12)))
    this = np.array([rng.permutation(r) for r in pool[:n]])
    cube = nc == 4 and rng.integers(2)
    want = rng.integers(0, n, size=tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 3)))))
    that = this[want]
    that = np.array([rng.permutation(r) for r in that.reshape(-1, nc)]).reshape(that.shape)
    mon.state('lookup', this.tobytes(), that.tobytes())
    a, b = (this.reshape(n, 2, 2), that.reshape(want.shape + (2, 2))) if cube else (this, that)
    keep = a.copy(), b.copy()
    with mon.calling('element_indices', this=a, that=b):
        got = util.element_indices(a, b)
    mon.check('lookup', got.shape == want.shape and np.array_equal(got, want), got=got, want=want)
    mon.check('pure', np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]))
    if nc > 1:
        other = pool[n:n + 1].reshape((1,) + a.shape[1:])
        mon.raises('missing', KeyError, lambda: util.element_indices(a, np.concatenate((a[:1], other))))


def case_iter(mon, rng, i):
    from pycomplex import util
    from pycomplex.stencil import util as su
    L = labels(rng, int(rng.integers(0, 7)))
    mon.state('iter', repr(L))
    src = (lambda: iter(L)) if rng.integers(2) else (lambda: L)
    for name, f in (('pairs', util.pairs), ('adjecent_pairs', su.adjecent_pairs)):
        with mon.calling(name, L=L):
            got = list(f(src()))
        mon.eq('pairs', got, list(zip(L[:-1], L[1:])), function=name)
    import operator
    func = [operator.add, max][int(rng.integers(2))]
    with mon.calling('accumulate', L=L):
        got = list(util.accumulate(src(), func))
        first = list(util.accumulate(src()))
    mon.eq('accumulate', got, list(itertools.accumulate(L, func)))
    mon.eq('accumulate', first, list(itertools.accumulate(L)))
    shape = tuple(int(v) for v in rng.integers(1, 5, size=int(rng.integers(1, 4))))
    X = np.indices(shape)
    mon.state('grid', shape)
    with mon.calling('checkerboard', shape=shape):
        mon.check('grid', np.array_equal(su.checkerboard(shape), X.sum(axis=0) % 2), shape=shape)
        boards = [su.checkerboard_2(shape, o) for o in range(2 ** len(shape))]
    # the boards partition the grid, and no board holds two neighbours
    mon.check('grid', np.array_equal(np.sum(boards, axis=0), np.ones(shape)), shape=shape)
    for b in boards:
        p = np.argwhere(b)
        mon.check('grid', len(p) == 0 or not np.any((p - p[0]) % 2), shape=shape)
    steps = tuple(int(v) for v in rng.integers(1, 4, size=len(shape)))
    arr = rng.normal(size=shape)
    with mon.calling('binning', shape=shape, steps=steps):
        mon.check('grid', np.allclose(su.binning(np.kron(arr, np.ones(steps)), steps), arr), shape=shape, steps=steps)
    n = int(rng.integers(1, 4))
    with mon.calling('smoother', n=n):
        S = su.smoother(n)
    k = np.array([1, 2, 1]) / 4
    want = k
    for _ in range(n - 1):
        want = np.multiply.outer(want, k)
    mon.check('grid', S.shape == (3,) * n and np.allclose(S, want), n=n)


def case_large(mon, rng, i):
    """more rows than small integers count"""
    from pycomplex.topology import util
    n = 66000 + int(rng.integers(1000)) if i < 2 else int(rng.integers(1100, 4000))
    b = int(rng.integers(2, 6))
    mon.note(rows=n, columns=b)
    # n distinct tuples of distinct labels: combinations of a permuted range, or neighbours on a line
    N = n + b - 1
    name = rng.permutation(N) if rng.random() < .7 else np.arange(N)
    el = name[np.arange(n)[:, None] + np.arange(b)]
    el = el[rng.permutation(n)]
    el = np.take_along_axis(el, rng.random(el.shape).argsort(axis=1), axis=1)
    sg = rng.choice([-1, 1], size=el.shape)
    mon.state('large', el.tobytes(), sg.tobytes())
    T = util.topology_matrix(el, sg)
    want = scipy.sparse.coo_matrix((sg.ravel(), (el.ravel(), np.repeat(np.arange(n), b))), shape=(N, n)).tocsr()
    mon.check('large', T.shape == (el.max() + 1, n) and abs(T - want[:T.shape[0]]).nnz == 0 and el.max() == N - 1, what='topology_matrix')
    mon.eq('large', np.sort(util.sparse_to_elements(want.T), axis=1), np.sort(el, axis=1), what='sparse_to_elements')
    mask = rng.random(n) < .7
    mask[-1] = rng.random() < .7
    S = util.selection_matrix(mask)
    x = rng.normal(size=n)
    mon.eq('large', S * x, x[mask], what='selection_matrix')
    r, c = rng.permutation(N)[:n], rng.integers(0, N, n)
    y = rng.normal(size=N)
    out = np.zeros(N)
    out[r] = y[c]
    mon.eq('large', util.transfer_matrix(r, c, (N, N)) * y, out, what='transfer_matrix')
    at = rng.integers(0, n, n + 500)
    at[-1] = n - 1
    that = np.take_along_axis(el[at], rng.random((len(at), b)).argsort(axis=1), axis=1)
    mon.eq('large', util.element_indices(el, that), at, what='element_indices')
    s, a = util.sort_and_argsort(el, 1)
    mon.check('large', np.array_equal(s, np.sort(el, axis=1)) and np.array_equal(np.take_along_axis(el, a, 1), s), what='sort_and_argsort')
    P, Q = rng.random((n, b)).argsort(axis=1), rng.random((n, b)).argsort(axis=1)
    R = util.relative_permutations(P, Q)
    mon.check('large', R.shape == P.shape and np.array_equal(np.take_along_axis(R, Q, 1), P), what='relative_permutations')
    parity = lambda p: (p[:, :, None] > p[:, None, :])[:, np.triu(np.ones((b, b), bool), 1)].sum(axis=1) % 2
    from pycomplex.topology.simplicial import relative_simplex_parity
    mon.eq('large', np.asarray(relative_simplex_parity(P)).astype(int) % 2, parity(P), what='relative_simplex_parity')
    shape = (n, b) if rng.random() < .5 else (b, n)
    I = util.indices(shape)
    mon.check('large', np.array_equal(I[0], np.broadcast_to(np.arange(shape[0])[:, None], shape)) and np.array_equal(I[1], np.broadcast_to(np.arange(shape[1]), shape)), what='indices')


CASES = dict(large=case_large, enumerate=case_enumerate, maps=case_maps, parity=case_parity, index=case_index, matrix=case_matrix, lookup=case_lookup, iter=case_iter)
PLAN = dict(quick=dict(large=10, enumerate=1800, maps=480, parity=4800, index=6000, matrix=6000, lookup=6000, iter=4800),
            thorough=dict(large=100, enumerate=2000, maps=300, parity=10000, index=20000, matrix=20000, lookup=20000, iter=10000))
