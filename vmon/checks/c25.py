"""C25 stencil topology"""
import itertools
import numpy as np

PROP = 'C25'
RULE = ('periodic grids of one to four dimensions with sides down to one; every operator is applied to integer valued random forms and compared with differences, averages and sums written out with rolled '
        'arrays, and as dense matrices on small grids; a state is one (shape, form)')
REQUIRED = {'symbols': 20, 'orientation': 50, 'derivative': 100, 'closed': 30, 'adjoint': 60, 'dense': 30, 'average': 60, 'endpoints': 30, 'transfer': 40, 'transfer-chain': 30, 'levels': 30, 'form': 30, 'rejects': 10}


def shape_for(rng, even=False, big=False):
    n = int(rng.choice([1, 2, 3, 4], p=[.2, .35, .3, .15]))
    top = {1: 9, 2: 6, 3: 4, 4: 3}[n] * (2 if big else 1)
    s = rng.integers(1, top + 1, size=n)
    if even:
        s = 2 * ((s + 1) // 2)
    return tuple(int(v) for v in s)


def integers(rng, shape, dtype=None):
    f = rng.integers(-9, 10, size=shape)
    dtype = dtype or rng.choice([np.float32, np.float64])
    f = f.astype(dtype)
    how = rng.integers(3)
    if how == 1:
        f = np.asfortranarray(f)
    elif how == 2:
        f = np.repeat(f, 2, axis=-1)[..., ::2]                   # not contiguous
    return f


def next_to(f, axis):
    """value one step further along a grid axis"""
    return np.roll(f, -1, axis=axis)


def derivative(sym, n, f, signs):
    out = np.zeros((len(sym[n + 1]),) + f.shape[1:])
    for b, B in enumerate(sym[n + 1]):
        for i in B:
            a = sym[n].index(tuple(j for j in B if j != i))
            out[b] += signs[b, i] * (next_to(f[a], i) - f[a])
    return out


def adjoint(sym, n, g, signs):
    out = np.zeros((len(sym[n]),) + g.shape[1:])
    for b, B in enumerate(sym[n + 1]):
        for i in B:
            a = sym[n].index(tuple(j for j in B if j != i))
            out[a] += signs[b, i] * (np.roll(g[b], 1, axis=i) - g[b])
    return out


def find_signs(T, n):
    """the sign of every term, observed on a grid that is wide enough to tell"""
    from pycomplex.stencil.topology import StencilTopology
    W = StencilTopology((3,) * T.n_dim)
    sym = [tuple(tuple(s) for s in q) for q in W.symbols]
    signs = {}
    for b, B in enumerate(sym[n + 1]):
        for i in B:
            a = sym[n].index(tuple(j for j in B if j != i))
            f = W.form(n)
            f[a][(0,) * T.n_dim] = 1.
            signs[b, i] = -float(np.sign(W.primal[n](f)[b][(0,) * T.n_dim]))
    return signs


def ordered(sym):
    return [tuple(tuple(sorted(s)) for s in q) for q in sym]


def case_derivatives(mon, rng, i, shape=None):
    from pycomplex.stencil.topology import StencilTopology
    shape = shape or shape_for(rng)
    T = StencilTopology(shape)
    N = len(shape)
    mon.state(shape, i)
    mon.note(shape=shape)
    sym = [tuple(tuple(s) for s in q) for q in T.symbols]
    for n in range(N + 1):
        mon.eq('symbols', sorted(sym[n]), sorted(itertools.combinations(range(N), n)), n=n)
        mon.eq('symbols', tuple(T.n_elements[n]), (len(sym[n]),) + shape, n=n)
    if any(sorted(sym[n]) != sorted(itertools.combinations(range(N), n)) for n in range(N + 1)):
        return
    signs = [find_signs(T, n) for n in range(N)]
    mon.check('derivative', len(T.primal) == N and len(T.dual) == N)
    for n in range(N):
        # directions anticommute: each is moved past those after it; up to one sign per degree
        rest = {v * (-1) ** sum(j > k for j in sym[n + 1][b]) for (b, k), v in signs[n].items()}
        mon.check('orientation', len(rest) == 1 and 0 not in rest, n=n, signs=signs[n])
    mon.check('orientation', set(signs[0].values()) == {1.}, what='gradient points to larger values')
    for n in range(N):
        f, g = integers(rng, T.n_elements[n]), integers(rng, T.n_elements[n + 1])
        keep = f.copy(), g.copy()
        df, dg = T.primal[n](f), T.dual[n](g)
        mon.eq('derivative', df.astype(float), derivative(sym, n, f.astype(float), signs[n]), n=n)
        mon.eq('adjoint', dg.astype(float), adjoint(sym, n, g.astype(float), signs[n]), n=n)
        mon.check('adjoint', float((df.astype(float) * g).sum()) == float((dg.astype(float) * f).sum()), n=n, what='inner product')
        mon.eq('derivative', (T.primal[n] * f).astype(float), df.astype(float), what='as a product')
        mon.check('derivative', np.array_equal(f, keep[0]) and np.array_equal(g, keep[1]), what='pure')
        mon.eq('adjoint', np.asarray(T.primal[n].transpose()(g), float), dg.astype(float), what='transpose')
        mon.eq('adjoint', np.asarray(T.dual[n].transpose()(f), float), df.astype(float), what='transposed transpose')
        h = rng.normal(size=f.shape)
        mon.close('derivative', T.primal[n](h), derivative(sym, n, h, signs[n]), rtol=0, atol=1e-5, what='real values')
        if n + 1 < N:
            mon.check('closed', not np.any(T.primal[n + 1](df)), n=n)
            z = T.dual[n](T.dual[n + 1](integers(rng, T.n_elements[n + 2])))
            mon.check('closed', not np.any(z), n=n, what='dual')
        # constants have no derivative
        mon.check('closed', not np.any(T.primal[n](T.form(n, init='ones'))), n=n, what='constant')
        if np.prod(T.n_elements[n]) * np.prod(T.n_elements[n + 1]) <= 2000:
            M = T.primal[n].to_dense()
            mon.eq('dense', M.shape, (int(np.prod(T.n_elements[n + 1])), int(np.prod(T.n_elements[n]))))
            mon.eq('dense', M.dot(np.asarray(f, float).ravel()), df.astype(float).ravel())
            mon.eq('dense', T.dual[n].to_dense(), M.T, what='dual')


def case_averages(mon, rng, i, shape=None):
    from pycomplex.stencil.topology import StencilTopology
    shape = shape or shape_for(rng)
    T = StencilTopology(shape)
    N = len(shape)
    mon.state(shape, i)
    mon.note(shape=shape)
    sym = [tuple(tuple(s) for s in q) for q in T.symbols]
    f = integers(rng, T.n_elements[0], dtype=rng.choice([np.float64, np.float32, np.int64, np.int32, np.int8]))
    keep = f.copy()
    for n in range(N + 1):
        A = T.averaging_operators_0[n]
        got = A(f)
        want = np.empty(T.n_elements[n])
        for b, B in enumerate(sym[n]):
            q = f[0].astype(float)
            for k in B:
                q = (q + next_to(q, k)) / 2
            want[b] = q
        mon.close('average', got, want, rtol=0, atol=1e-5, n=n)
        mon.close('average', A(T.form(0, init='ones')), np.ones(T.n_elements[n]), rtol=0, atol=1e-6, what='constant')
    if N:
        # half the difference to either side of the average are the end points of the edge
        d, a = T.primal[0](f).astype(float), T.averaging_operators_0[1](f)
        s = list(find_signs(T, 0).values())[0]
        for b, (k,) in enumerate(sym[1]):
            mon.close('endpoints', a[b] - s * d[b] / 2, f[0], rtol=0, atol=1e-5)
            mon.close('endpoints', a[b] + s * d[b] / 2, next_to(f[0], k), rtol=0, atol=1e-5)
    mon.check('average', np.array_equal(f, keep), what='pure')
    for n in range(N + 1):
        for init, value in (('zeros', 0), ('ones', 1)):
            for dtype in (np.float32, np.float64, np.int32):
                q = T.form(n, dtype=dtype, init=init)
                mon.check('form', q.shape == tuple(T.n_elements[n]) and q.dtype == dtype and bool(np.all(q == value)), n=n)
        mon.check('form', T.form(n, init='empty').shape == tuple(T.n_elements[n]))
        q = T.form(n)
        q += 1
        mon.check('form', not np.any(T.form(n)), what='fresh')
    mon.raises('rejects', Exception, lambda: T.form(0, init='nonsense'))


def case_transfers(mon, rng, i, shape=None):
    from pycomplex.stencil.topology import StencilTopology
    if shape is None:
        shape = shape_for(rng, even=True, big=True)
        if np.prod(shape) > 3000:
            shape = shape[:2]
    T = StencilTopology(shape)
    N = len(shape)
    mon.state(shape, i)
    mon.note(shape=shape)
    C = T.coarse
    sym = [tuple(tuple(s) for s in q) for q in T.symbols]
    mon.check('levels', bool(T.is_even) and type(C) is type(T) and tuple(C.shape) == tuple(s // 2 for s in shape) and tuple(C.fine.shape) == shape and tuple(T.fine.shape) == tuple(s * 2 for s in shape))
    mon.check('levels', C.boundary == T.boundary and C.symbols == T.symbols)
    odd = tuple(s + int(k == rng.integers(N)) for k, s in enumerate(shape))
    if any(s % 2 for s in odd):
        O = StencilTopology(odd)
        mon.check('levels', not O.is_even)
        mon.raises('rejects', Exception, lambda: O.coarse)
    mon.check('transfer', len(T.transfers) == N + 1)
    fs = []
    for n in range(N + 1):
        f = rng.integers(-9, 10, size=T.n_elements[n]).astype(np.float32) * 16
        c = rng.integers(-9, 10, size=C.n_elements[n]).astype(np.float32)
        keep = f.copy(), c.copy()
        down, up = T.transfers[n](f), T.transfers[n].transpose()(c)
        want_d, want_u = np.zeros(C.n_elements[n]), np.zeros(T.n_elements[n])
        for b, B in enumerate(sym[n]):
            for off in itertools.product(*[(0, 1) if k in B else (0,) for k in range(N)]):
                at = tuple(slice(o, None, 2) for o in off)
                want_d[b] += f[b][at] / 2 ** n
                want_u[b][at] = c[b]
        mon.eq('transfer', np.asarray(down, float), want_d, n=n, what='to coarse')
        mon.eq('transfer', np.asarray(up, float), want_u, n=n, what='to fine')
        mon.eq('transfer', np.asarray(T.transfers[n](up), float), c.astype(float), what='round trip')
        mon.check('transfer', np.array_equal(f, keep[0]) and np.array_equal(c, keep[1]), what='pure')
        if n < N:
            # averages over the children of a coarse element: the derivative spans twice the distance
            mon.eq('transfer-chain', 2 * np.asarray(T.transfers[n + 1](T.primal[n](f)), float), np.asarray(C.primal[n](T.transfers[n](f)), float), n=n)


def case_large(mon, rng, i):
    """more elements, along an axis and in total, than small integers count"""
    shape = [(70000,), (270, 256), (40, 36, 48), (66000, 2)][i % 4]
    shape = tuple(shape[k] for k in rng.permutation(len(shape)))
    case_derivatives(mon, rng, i, shape)
    case_averages(mon, rng, i, shape)
    case_transfers(mon, rng, i, shape)


CASES = dict(large=case_large, derivatives=case_derivatives, averages=case_averages, transfers=case_transfers)
PLAN = dict(quick=dict(large=4, derivatives=720, averages=480, transfers=480), thorough=dict(large=24, derivatives=1500, averages=1000, transfers=1000))
