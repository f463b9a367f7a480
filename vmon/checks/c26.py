"""C26 stencil operator algebra"""
import numpy as np
from vmon.core import CaseAbort

PROP = 'C26'
RULE = ('random expression trees of sums, products, transposes and simplifications over derivatives, duals, hodge stars, diagonals (zero, one, almost zero, almost one, scalar, field), identities, zeros, transfers '
        'and smoothers on small periodic grids, typed by level and degree; every expression is compared as a dense matrix, applied to forms, transposed and as flat linear operator; a state is one tree')
REQUIRED = {'parts': 300, 'chain': 100, 'dense': 150, 'apply': 150, 'transpose': 150, 'simplify': 100, 'flat': 100, 'diagonal': 60, 'inverse': 30, 'shape': 100, 'rejects': 20, 'pairs': 10}


class Ground(object):
    """typed leaf operators with their matrices"""

    def __init__(self, rng, scales=(1., 2., .5, 1e-3, 1e-5, 1e3)):
        from pycomplex.stencil.complex import StencilComplex
        n = int(rng.choice([1, 2, 3], p=[.3, .5, .2]))
        shape = tuple(int(v) for v in 2 * rng.integers(1, {1: 4, 2: 3, 3: 2}[n], size=n))
        self.N = n
        scale = float(rng.choice(scales))
        f = StencilComplex.from_shape(shape, scale=scale)
        self.levels = [f, f.coarse] if rng.random() < .5 else [f]
        self.shape = shape
        self.rng = rng
        self.cache = {}

    def space(self, t):
        return tuple(self.levels[t[0]].n_elements[t[1]])

    def types(self):
        return [(l, k) for l in range(len(self.levels)) for k in range(self.N + 1)]

    def leaves(self, to):
        """(name, type of the argument) of the operators that produce `to`"""
        l, k = to
        out = [('diag', to), ('diag', to), ('identity', to), ('hodge', to), ('unhodge', to)]
        if k > 0:
            out += [('d', (l, k - 1))] * 3
        if k < self.N:
            out += [('delta', (l, k + 1))] * 3
        if len(self.levels) > 1:
            out += [('transfer', (1 - l, k))]
        out += [('zero', to)] if self.rng.random() < .3 else []
        return out

    def leaf(self, name, to, arg):
        from pycomplex.stencil import operator as op
        rng = self.rng
        c = self.levels[to[0]]
        A, B = self.space(to), self.space(arg)
        a, b = int(np.prod(A)), int(np.prod(B))
        if name == 'd':
            return c.topology.primal[arg[1]], self.dense('d', c.topology.primal[arg[1]], to)
        if name == 'delta':
            return c.topology.dual[to[1]], self.dense('delta', c.topology.dual[to[1]], to)
        if name == 'transfer':
            T = self.levels[0].topology.transfers[to[1]]
            T = T if to[0] == 1 else T.transpose()
            return T, self.dense('transfer', T, to)
        if name in ('hodge', 'unhodge'):
            s = c.scale ** (self.N - 2 * to[1])
            h = c.hodge[to[1]]
            return (h, np.eye(a) * s) if name == 'hodge' else (h.inverse(), np.eye(a) / s)
        if name == 'identity':
            return op.IdentityOperator(A), np.eye(a)
        if name == 'zero':
            return op.ZeroOperator((A, B)), np.zeros((a, b))
        how = rng.choice(['field', 'zero', 'one', 'tiny', 'nearly one', 'scalar', 'sparse', 'component'])
        if how == 'field':
            d = rng.integers(1, 5, size=A).astype(float)
        elif how == 'zero':
            d = np.zeros(A)
        elif how == 'one':
            d = np.ones(A)
        elif how == 'tiny':
            d = rng.integers(1, 5, size=A) * 1e-9
        elif how == 'nearly one':
            d = 1 + rng.integers(1, 5, size=A) * 1e-6
        elif how == 'scalar':
            d = float(rng.integers(-3, 4))
        elif how == 'component':
            d = rng.integers(-2, 3, size=(A[0],) + (1,) * self.N).astype(float)
        else:
            d = (rng.random(A) < .3).astype(float)
        D = op.DiagonalOperator(d, A)
        if rng.random() < .5:
            D = D.simplify()
        return D, np.diag((np.ones(A) * d).ravel())

    def dense(self, name, o, to):
        key = name, to
        if key not in self.cache:
            A, B = o.shape
            M = np.empty((int(np.prod(A)), int(np.prod(B))))
            for j in range(M.shape[1]):
                e = np.zeros(M.shape[1])
                e[j] = 1
                M[:, j] = np.asarray(o.right(e.reshape(B)), float).ravel()
            self.cache[key] = M
        return self.cache[key]


def tree(G, rng, to, depth):
    """(operator, matrix, type of the argument, text, magnitude) producing forms of type `to`"""
    if depth == 0 or rng.random() < .15:
        leaves = G.leaves(to)
        name, arg = leaves[rng.integers(len(leaves))]
        o, M = G.leaf(name, to, arg)
        return o, M, arg, name, np.abs(M)
    how = rng.choice(['mul', 'mul', 'add', 'transpose', 'simplify', 'nest'])
    if how == 'mul':
        a, A, t, s, p = tree(G, rng, to, depth - 1)
        b, B, u, v, q = tree(G, rng, t, depth - 1)
        return a * b, A.dot(B), u, '(%s * %s)' % (s, v), p.dot(q)
    if how == 'add':
        a, A, t, s, p = tree(G, rng, to, depth - 1)
        for _ in range(12):
            b, B, u, v, q = tree(G, rng, to, depth - 1)
            if u == t:
                return a + b, A + B, t, '(%s + %s)' % (s, v), p + q
        return a + a, A + A, t, '(%s + itself)' % s, p + p
    if how == 'transpose':
        a, A, t, s, p = tree(G, rng, to, depth - 1)
        if 'transfer' in s:                                      # not the transpose but up to a scale
            return a, A, t, s, p
        return a.transpose().T, A, t, '%s.T.T' % s, p
    if how == 'simplify':
        a, A, t, s, p = tree(G, rng, to, depth - 1)
        return a.simplify(), A, t, 'simplify(%s)' % s, p
    from pycomplex.stencil import operator as op
    a, A, t, s, p = tree(G, rng, to, depth - 1)
    return (op.ComposedOperator([a]) if rng.random() < .5 else op.CombinedOperator([a])), A, t, '[%s]' % s, p


def compare(mon, oracle, got, want, size, text, **kw):
    mon.close(oracle, np.asarray(got, float), want, rtol=0, atol=1e-30 + 3e-6 * np.maximum(size, 1e-30).max() if np.size(size) else 1e-30, expression=text, **kw)


def rows(got, want, size):
    """errors relative to the magnitude of the terms of every entry"""
    return np.abs(np.asarray(got, float) - want) <= 3e-6 * size + 1e-300


def observe(mon, G, rng, o, M, to, arg, text, size):
    s = size[size > 0]
    if s.size and (s.max() > 1e30 or s.min() < 1e-30):
        return mon.skip('beyond single precision')
    A, B = G.space(to), G.space(arg)
    mon.check('shape', tuple(map(tuple, o.shape)) == (A, B), got=o.shape, want=(A, B), expression=text)
    D = np.asarray(o.to_dense(), float)
    if mon.check('shape', D.shape == M.shape, got=D.shape, want=M.shape, expression=text):
        mon.check('dense', bool(rows(D, M, size).all()), got=D, want=M, expression=text)
    x, y = rng.integers(-4, 5, size=B).astype(float), rng.integers(-4, 5, size=A).astype(float)
    keep = x.copy()
    want, mag = M.dot(x.ravel()), size.dot(np.abs(x.ravel()))
    for name, f in (('call', lambda: o(x)), ('product', lambda: o * x), ('simplified', lambda: o.simplify()(x))):
        got = np.asarray(f())
        mon.check('simplify' if name == 'simplified' else 'apply', got.shape == A and bool(rows(got.ravel(), want, mag).all()), got=got.ravel(), want=want, expression=text, how=name)
    mon.check('apply', np.array_equal(x, keep), what='pure', expression=text)
    back, bag = M.T.dot(y.ravel()), size.T.dot(np.abs(y.ravel()))
    if 'transfer' not in text:
        for name, t in (('transpose', lambda: o.transpose()), ('T', lambda: o.T), ('simplified', lambda: o.transpose().simplify())):
            t = t()
            got = np.asarray(t(y))
            mon.check('transpose', got.shape == B and bool(rows(got.ravel(), back, bag).all()), got=got.ravel(), want=back, expression=text, how=name)
            mon.check('transpose', tuple(map(tuple, t.shape)) == (B, A), expression=text)
    L = o.aslinearoperator()
    mon.check('flat', tuple(L.shape) == M.shape, got=L.shape, expression=text)
    got = L.matvec(x.ravel())
    mon.check('flat', got.shape == want.shape and bool(rows(got, want, mag).all()), got=got, want=want, expression=text)
    if 'transfer' not in text:
        got = L.rmatvec(y.ravel())
        mon.check('flat', got.shape == back.shape and bool(rows(got, back, bag).all()), got=got, want=back, expression=text)
    mon.check('shape', isinstance(repr(o), str))


def case_tree(mon, rng, i):
    G = Ground(rng)
    types = G.types()
    to = types[rng.integers(len(types))]
    used, leaf = [], G.leaf

    def remember(*a):
        o, M = leaf(*a)
        used.append((o, M.copy(), a[0], getattr(o, 'diagonal', None)))
        return o, M
    G.leaf = remember
    o, M, arg, text, size = tree(G, rng, to, int(rng.integers(1, 5)))
    mon.state(G.shape, text, M)
    mon.note(shape=G.shape, expression=text)
    observe(mon, G, rng, o, M, to, arg, text, size)
    # what it was built from still acts as it did
    for l, M, name, _ in used:
        mon.check('parts', bool(rows(l.to_dense(), M, np.abs(M)).all()), expression=text, part=name)


def case_laplacian(mon, rng, i):
    """the expressions people write: d * delta + delta * d, weighted or not, of chains that vanish"""
    G = Ground(rng)
    c, N = G.levels[0], G.N
    k = int(rng.integers(N + 1))
    d, s, h = c.topology.primal, c.topology.dual, c.hodge
    D, S = [G.dense('d', d[j], (0, j + 1)) for j in range(N)], [G.dense('delta', s[j], (0, j)) for j in range(N)]
    n = int(np.prod(c.n_elements[k]))
    terms, M, size = [], np.zeros((n, n)), np.zeros((n, n))
    w = rng.random() < .5
    if k < N:
        terms.append(s[k] * h[k + 1] * d[k] if w else s[k] * d[k])
        f = c.scale ** (N - 2 * k - 2) if w else 1.
        M, size = M + f * S[k].dot(D[k]), size + f * np.abs(S[k]).dot(np.abs(D[k]))
    if k > 0:
        terms.append(d[k - 1] * h[k - 1].I * s[k - 1] if w else d[k - 1] * s[k - 1])
        f = c.scale ** -(N - 2 * k + 2.) if w else 1.
        M, size = M + f * D[k - 1].dot(S[k - 1]), size + f * np.abs(D[k - 1]).dot(np.abs(S[k - 1]))
    o = terms[0] if len(terms) == 1 else terms[0] + terms[1]
    mon.state(G.shape, k, w, c.scale)
    mon.note(shape=G.shape, k=k, scale=c.scale)
    observe(mon, G, rng, o, M, (0, k), (0, k), 'laplacian', size)
    L = np.asarray(o.to_dense(), float)
    mon.check('dense', bool(rows(L, L.T, size).all()), what='symmetric')
    if k + 2 <= N:
        z = d[k + 1] * d[k]
        mon.check('dense', not np.any(z.to_dense()), what='closed')
        mon.check('shape', tuple(map(tuple, z.shape)) == (tuple(c.n_elements[k + 2]), tuple(c.n_elements[k])))
        mon.check('dense', not np.any((s[k] * s[k + 1]).to_dense()), what='closed dual')


def case_diagonal(mon, rng, i):
    from pycomplex.stencil import operator as op
    from pycomplex.stencil.util import adjecent_pairs
    shape = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 4))))
    d = rng.integers(1, 9, size=shape) * 10. ** rng.integers(-12, 12) * rng.choice([-1, 1], size=shape)
    D = op.DiagonalOperator(d, shape)
    x = rng.normal(size=shape)
    mon.state(shape, d)
    mon.close('diagonal', D(x), x * d, rtol=1e-12)
    mon.close('diagonal', D.simplify()(x), x * d, rtol=1e-12, what='simplify')
    mon.close('diagonal', (D * D)(x), x * d * d, rtol=1e-12, what='square')
    mon.close('diagonal', (D * D * D).simplify()(x), x * d * d * d, rtol=1e-12, what='cube')
    mon.close('diagonal', (D + D)(x), 2 * x * d, rtol=1e-12, what='sum')
    mon.check('diagonal', D.transpose() is D or np.array_equal(D.transpose()(x), D(x)), what='symmetric')
    mon.close('inverse', D.inverse()(D(x)), x, rtol=1e-12)
    mon.close('inverse', (D.I * D)(x), x, rtol=1e-12)
    mon.close('inverse', D.inverse().inverse()(x), D(x), rtol=1e-12)
    E = d.copy()
    E[tuple(int(rng.integers(s)) for s in shape)] = 0
    mon.raises('rejects', Exception, lambda: op.DiagonalOperator(E, shape).inverse())
    mon.raises('rejects', Exception, lambda: D(np.zeros(shape + (2,))))
    mon.raises('rejects', Exception, lambda: op.ZeroOperator((shape, (7,))) * op.ZeroOperator((shape + (5,), shape)))
    mon.raises('rejects', Exception, lambda: D + op.ZeroOperator((shape, shape + (2,))))
    I = op.IdentityOperator(shape)
    mon.check('inverse', np.array_equal(I.inverse()(x), x))
    s = [int(v) for v in rng.integers(-1, 2, size=int(rng.integers(0, 6)))]
    mon.eq('pairs', list(adjecent_pairs(s)), list(zip(s[:-1], s[1:])))


def case_chain(mon, rng, i):
    """long products and sums, simplified on the way; their parts keep acting as they did"""
    from pycomplex.stencil import operator as op
    shape = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 3))))
    n = int(np.prod(shape))
    parts = []

    def part():
        how = rng.choice(['diagonal', 'scalar', 'plain', 'identity', 'symmetric', 'again'], p=[.4, .1, .2, .1, .1, .1])
        if how == 'again' and parts:
            return parts[int(rng.integers(len(parts)))]
        if how == 'diagonal' or how == 'again':
            d = rng.integers(1, 5, size=shape).astype(float)
            o, M = op.DiagonalOperator(d, shape), np.diag(d.ravel())
        elif how == 'scalar':
            d = float(rng.integers(1, 4))
            o, M = op.DiagonalOperator(d, shape), np.eye(n) * d
        elif how == 'identity':
            o, M = op.IdentityOperator(shape), np.eye(n)
        else:
            M = rng.integers(-2, 3, size=(n, n)).astype(float)
            if how == 'symmetric':
                M = M + M.T
                o = op.SymmetricOperator(lambda x, M=M: M.dot(x.ravel()).reshape(shape), shape)
            else:
                o = op.StencilOperator(right=lambda x, M=M: M.dot(x.ravel()).reshape(shape), left=lambda x, M=M: M.T.dot(x.ravel()).reshape(shape), shape=(shape, shape))
        parts.append((o, M))
        return o, M
    o, M = part()
    text = ''
    for _ in range(int(rng.integers(2, 8))):
        p, P = part()
        how = rng.choice(['right', 'right', 'left', 'add'])
        text += how[0]
        o, M = (o * p, M.dot(P)) if how == 'right' else (p * o, P.dot(M)) if how == 'left' else (o + p, M + P)
        parts.append((o, M))
    mon.state(shape, text, M)
    mon.note(shape=shape, how=text)
    x = rng.integers(-3, 4, size=shape).astype(float)
    for _ in range(2):
        for q, Q in parts:
            mon.close('chain', np.asarray(q(x), float).ravel(), Q.dot(x.ravel()), rtol=1e-12, atol=1e-9, how=text)
            mon.close('chain', np.asarray(q.transpose()(x), float).ravel(), Q.T.dot(x.ravel()), rtol=1e-12, atol=1e-9, how=text)
            mon.close('chain', np.asarray(q.simplify()(x), float).ravel(), Q.dot(x.ravel()), rtol=1e-12, atol=1e-9, how=text)


CASES = dict(chain=case_chain, tree=case_tree, laplacian=case_laplacian, diagonal=case_diagonal)
PLAN = dict(quick=dict(chain=720, tree=3000, laplacian=480, diagonal=720), thorough=dict(chain=2000, tree=6000, laplacian=600, diagonal=1000))
