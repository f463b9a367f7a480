"""C30 stencil equations, smoothers and multigrid"""
import numpy as np

PROP = 'C30'
RULE = ('stencil diffusion problems in potential, flux-only and combined form on periodic grids of 1 to 3 dimensions with random, smooth and partly vanishing coefficient fields, and random right hand sides and starting values; '
        'residuals, smoothers and V and full cycles are compared with a dense re-computation from the block matrices, solutions with a direct solve; a state is one problem')
REQUIRED = {'start': 30, 'formulate': 60, 'residual': 60, 'smoother': 120, 'fixed': 120, 'solve': 60, 'hierarchy': 60, 'transfer': 60, 'cycle': 20, 'linear': 20, 'repeat': 20, 'full': 10, 'converge': 10, 'pure': 60, 'diagonal': 40}


def block_diag(fields):
    return np.diag(np.concatenate([np.ravel(f) for f in fields]))


class Problem(object):
    def __init__(self, rng, kind, smooth=False):
        from pycomplex.stencil.complex import StencilComplex
        from pycomplex.stencil.diffusion import Diffusion
        N = int(rng.choice([2, 3] if kind != 'formulate' else [1, 2, 3], p=[.8, .2] if kind != 'formulate' else [.3, .55, .15]))
        self.N = N
        q = {1: [4, 8, 16], 2: [4, 8], 3: [4]}[N]
        self.shape = tuple(int(v) for v in rng.choice(q, size=N))
        self.c = c = StencilComplex.from_shape(self.shape, scale=float(rng.choice([1, 1, .8])))
        self.kind = kind
        self.rng = rng

        def field(n, lo=.5, hi=1.5, vanish=0.):
            if smooth:
                a, b = rng.uniform(.9, 1.1), rng.uniform(0, .1)
                x = np.indices(self.shape)[0] * 2 * np.pi / self.shape[0]
                return np.broadcast_to(a + b * np.cos(x + rng.uniform(0, 6)), c.n_elements[n]).copy()
            f = rng.uniform(lo, hi, size=c.n_elements[n])
            return np.where(rng.random(f.shape) < vanish, 0., f)
        v = float(rng.choice([0, 0, .2]))
        self.vanish = v
        self.f = dict(constraint=field(0, .3, 1.), conductance=field(1, vanish=v), resistance=field(1, vanish=0 if v else float(rng.choice([0, .1]))))
        if kind == 'formulate' and rng.random() < .4:
            self.f['foo'] = field(1)
        self.q = getattr(Diffusion, kind)(c, {k: w.copy() for k, w in self.f.items()})
        self.A = np.asarray(self.q.system.A.to_dense(), float)
        self.B = np.asarray(self.q.system.B.to_dense(), float)

    def array(self, ks, v=None):
        from pycomplex.stencil.block import BlockArray
        sizes = [int(np.prod(self.c.n_elements[k])) for k in ks]
        v = self.rng.normal(size=sum(sizes)) if v is None else v
        return BlockArray([p.reshape(self.c.n_elements[k]).copy() for p, k in zip(np.split(v, np.cumsum(sizes)[:-1]), ks)], ndim=1)


def matrix(c, f, kind):
    """the documented block matrix"""
    from vmon.checks.c29 import components
    N = c.n_dim
    d = [np.asarray(c.topology.primal[n].to_dense(), float) for n in range(N)]
    h = [c.scale ** (N - 2. * n) for n in range(N + 1)]
    C, R, P = block_diag([f['conductance']]), block_diag([f['resistance']]), block_diag([f['constraint']])
    div, grad = h[1] * d[0].T, h[1] * d[0]
    if kind == 'formulate':
        F = block_diag([f['foo']]) if 'foo' in f else np.eye(len(C))
        return np.block([[-h[0] * P, div.dot(C)], [F.dot(grad), h[1] * R]])
    curl = h[2] * d[1]
    if kind == 'formulate_flux_only':
        return np.block([[div.dot(C)], [curl.dot(R)]])
    Z = np.zeros((len(curl), len(P)))
    return np.block([[-h[0] * P, div.dot(C)], [grad, h[1] * R], [Z, curl.dot(R)]])


def case_equation(mon, rng, i):
    kind = ['formulate', 'formulate', 'formulate_flux_only', 'formulate_all'][int(rng.integers(4))]
    p = Problem(rng, kind)
    q, A, B = p.q, p.A, p.B
    mon.label(kind)
    mon.state(kind, p.shape, p.c.scale, A)
    mon.note(kind=kind, shape=p.shape, scale=p.c.scale, vanish=p.vanish)
    mon.close('formulate', A, matrix(p.c, p.f, kind), rtol=1e-5, atol=1e-6)
    mon.close('formulate', B, np.eye(len(B)), rtol=0, atol=0)
    L, R = list(q.system.L), list(q.system.R)
    x, y = p.array(R), p.array(L)
    fx, fy = x.to_dense(), y.to_dense()
    tol = 2e-5 * (np.abs(A).sum(axis=1).max() + 1)
    mon.close('residual', q.residual(x, y).to_dense(), A.dot(fx) - fy, rtol=0, atol=tol)
    N = A.T.dot(A)
    D = np.diag(N)
    NE = A.dot(A.T)
    mon.close('diagonal', q.normal.system.A.diagonal().to_dense(), D, rtol=1e-5, atol=1e-6)
    mon.close('residual', q.normal.residual(x, y).to_dense(), A.T.dot(A.dot(fx) - fy), rtol=0, atol=tol * np.abs(A).sum(axis=0).max(), what='normal')
    mon.check('pure', np.array_equal(x.to_dense(), fx) and np.array_equal(y.to_dense(), fy), what='residual')
    xs = np.linalg.lstsq(A, fy, rcond=1e-6)[0]
    size = 1 + np.abs(fx).max() + np.abs(xs).max()
    X = x.from_dense(xs)
    if D.min() > .05:
        rel = float(rng.uniform(.3, 2))
        step = lambda v, r: v - (r / 2) * A.T.dot(A.dot(v) - fy) / D
        want = step(step(step(fx, .5), 1.25), 2.)
        cond = (np.abs(N).sum(axis=1) / D).max()
        mon.close('smoother', q.jacobi(x, y, rel).to_dense(), step(fx, rel), rtol=0, atol=1e-4 * cond * size, what='jacobi')
        mon.close('smoother', q.smooth(x, y).to_dense(), want, rtol=0, atol=1e-4 * cond ** 3 * size, what='smooth')
        knots = [float(v) for v in rng.uniform(.2, 1.5, size=int(rng.integers(0, 4)))]
        want = fx
        for r in knots:
            want = step(want, r)
        mon.close('smoother', q.overrelax(x, y, knots).to_dense(), want, rtol=0, atol=1e-4 * cond ** 3 * size, what='overrelax')
        mon.close('fixed', q.jacobi(X, y, rel).to_dense(), xs, rtol=0, atol=1e-4 * cond * size, what='jacobi')
        mon.close('fixed', q.smooth(X, y).to_dense(), xs, rtol=0, atol=1e-4 * cond ** 3 * size, what='smooth')
        # blockwise
        off = np.cumsum([0] + [int(np.prod(p.c.n_elements[k])) for k in R])
        want = fx.copy()
        for k in range(len(R)):
            s = np.s_[off[k]:off[k + 1]]
            want[s] -= .5 * (N.dot(want) - A.T.dot(fy))[s] / D[s]
        mon.close('smoother', q.NR_BLOCK_GS(x, y).to_dense(), want, rtol=0, atol=1e-4 * cond ** 2 * size, what='columns')
        mon.close('fixed', q.NR_BLOCK_GS(X, y).to_dense(), xs, rtol=0, atol=1e-4 * cond * size, what='columns')
        mon.close('diagonal', q.inverse_normal_diagonal.to_dense(), 1 / D, rtol=1e-4)
    E = np.diag(NE)
    if E.min() > .05 and np.linalg.norm(A.dot(xs) - fy) < 1e-4 * np.linalg.norm(fy):
        off = np.cumsum([0] + [int(np.prod(p.c.n_elements[k])) for k in L])
        want = fx.copy()
        for k in range(len(L)):
            s = np.s_[off[k]:off[k + 1]]
            want = want - .5 * A[s].T.dot((A[s].dot(want) - fy[s]) / E[s])
        cond = (np.abs(NE).sum(axis=1) / E).max()
        mon.close('smoother', q.NE_BLOCK_GS(x, y).to_dense(), want, rtol=0, atol=1e-6 * cond ** 2 * size, what='rows')
        mon.close('fixed', q.NE_BLOCK_GS(X, y).to_dense(), xs, rtol=0, atol=1e-4 * cond * size, what='rows')
    mon.check('pure', np.array_equal(x.to_dense(), fx) and np.array_equal(y.to_dense(), fy), what='smoothers')
    s = np.linalg.svd(A, compute_uv=False)
    full = A.shape[0] >= A.shape[1] and s[-1] > s[0] / 30
    if full:
        # accuracy of the default stopping rule and of a tight one
        for name, f, t in (('solve', lambda: q.solve(y), .1), ('guess', lambda: q.solve(y, x), .2), ('tight', lambda: q.solve_minres_normal(y, rtol=1e-9), 2e-3), ('normal', lambda: q.normal.solve(y, rtol=1e-9), 2e-3)):
            got = f()
            mon.eq('solve', [b.shape for b in got.block], [tuple(p.c.n_elements[k]) for k in R])
            mon.close('solve', got.to_dense(), xs, rtol=0, atol=t * np.linalg.norm(xs), what=name)
        # iterations start from the guess
        for name, f in (('solve', lambda k: q.solve(y, X, maxiter=k)), ('normal', lambda k: q.solve_minres_normal(y, X, maxiter=k))):
            mon.close('start', f(1).to_dense(), xs, rtol=0, atol=1e-3 * np.linalg.norm(xs), what=name)
        if kind == 'formulate' and np.allclose(A, A.T):
            mon.close('start', q.solve_minres(y, X, maxiter=1).to_dense(), xs, rtol=0, atol=1e-3 * np.linalg.norm(xs), what='symmetric')
            mon.close('solve', q.solve_minres(y, rtol=1e-9).to_dense(), xs, rtol=0, atol=2e-3 * np.linalg.norm(xs), what='symmetric')
        mon.check('pure', np.array_equal(x.to_dense(), fx) and np.array_equal(y.to_dense(), fy), what='solve')


def dense_cycle(levels, y, x):
    l = levels[-1]
    A = l['A']
    if len(levels) == 1:
        return np.linalg.lstsq(A, y, rcond=1e-9)[0]
    D = np.diag(A.T.dot(A))

    def smooth(v):
        for r in (.5, 1.25, 2.):
            v = v - (r / 2) * A.T.dot(A.dot(v) - y) / D
        return v
    x = smooth(x)
    e = dense_cycle(levels[:-1], l['R'].dot(A.dot(x) - y), np.zeros(levels[-2]['A'].shape[1]))
    return smooth(x - l['P'].dot(e))


def dense_full(levels, y, n):
    l = levels[-1]
    if len(levels) == 1:
        return np.linalg.lstsq(l['A'], y, rcond=1e-9)[0]
    x = l['P'].dot(dense_full(levels[:-1], l['R'].dot(y), n))
    for _ in range(n):
        x = dense_cycle(levels, y, x)
    return x


def case_multigrid(mon, rng, i):
    from pycomplex.stencil import multigrid as mg
    from vmon.checks.c29 import reference_coarsen, reference_refine
    smooth = rng.random() < .5
    p = Problem(rng, 'formulate', smooth)
    q = p.q
    depth = 1 if min(p.shape) == 4 else 2
    h = q.hierarchy(depth)
    mon.state('multigrid', p.shape, p.c.scale, p.A)
    mon.note(shape=p.shape, scale=p.c.scale, smooth=smooth, fields=sorted(p.f))
    mon.check('hierarchy', len(h) == depth + 1 and h[-1] is q and all(a.fine is b for a, b in zip(h[:-1], h[1:])))
    mon.eq('hierarchy', [tuple(e.complex.shape) for e in h], [tuple(s >> (depth - k) for s in p.shape) for k in range(depth + 1)])
    f, dense = p.f, []
    for k, e in enumerate(h[::-1]):
        if k:
            f = {n: reference_coarsen(w, p.N, 0 if n == 'constraint' else 1) for n, w in f.items()}
        for n in f:
            mon.close('hierarchy', e.fields[n], f[n], rtol=1e-4, atol=1e-5, field=n)
        A = matrix(e.complex, f, 'formulate')
        mon.close('hierarchy', np.asarray(e.system.A.to_dense(), float), A, rtol=1e-4, atol=1e-5)
        d = dict(A=A)
        if k < depth:
            N = p.N
            ks = [0, 1]
            spaces = [tuple(e.complex.n_elements[n]) for n in ks]
            small = [tuple(e.complex.coarse.n_elements[n]) for n in ks]
            down = lambda n, v: reference_coarsen(v, N, n).ravel() * 2. ** (N - 2 * n)
            up = lambda n, v: reference_refine(v, N, n).ravel()
            mat = lambda g, n, s: np.array([g(n, u.reshape(s)) for u in np.eye(int(np.prod(s)))]).T
            R, P = [mat(down, n, s) for n, s in zip(ks, spaces)], [mat(up, n, s) for n, s in zip(ks, small)]
            Z = lambda a, b: np.zeros((a.shape[0], b.shape[1]))
            d['R'] = np.block([[R[0], Z(R[0], R[1])], [Z(R[1], R[0]), R[1]]])
            d['P'] = np.block([[P[0], Z(P[0], P[1])], [Z(P[1], P[0]), P[1]]])
            w = [rng.normal(size=s) for s in spaces]
            from pycomplex.stencil.block import BlockArray
            W = BlockArray(w, ndim=1)
            mon.close('transfer', e.restrict(W).to_dense(), d['R'].dot(W.to_dense()), rtol=0, atol=1e-4 * 2 ** N)
            V = BlockArray([rng.normal(size=s) for s in small], ndim=1)
            mon.close('transfer', e.interpolate(V).to_dense(), d['P'].dot(V.to_dense()), rtol=0, atol=1e-4)
        dense.append(d)
    dense = dense[::-1]
    A = p.A
    y, x = p.array([0, 1]), p.array([0, 1])
    fy, fx = y.to_dense(), x.to_dense()
    xs = np.linalg.solve(A, fy)
    sv = [np.linalg.svd(d['A'], compute_uv=False) for d in dense]
    if max(s[0] / s[-1] for s in sv) > 40 or any(np.diag(d['A'].T.dot(d['A'])).min() < .05 for d in dense):
        return mon.skip('ill conditioned')
    one = mg.v_cycle(h, y, x).to_dense()
    want = dense_cycle(dense, fy, fx)
    size = np.linalg.norm(want) + np.linalg.norm(fx) + np.linalg.norm(xs)
    mon.close('cycle', one, want, rtol=0, atol=3e-3 * size)
    mon.close('cycle', mg.v_cycle(h, y).to_dense(), dense_cycle(dense, fy, 0 * fx), rtol=0, atol=3e-3 * size, what='from zero')
    mon.close('cycle', mg.v_cycle(h[:1], h[0].system.allocate_y()).to_dense(), 0 * dense[0]['A'][0], rtol=0, atol=1e-6, what='nothing to solve')
    mon.close('fixed', mg.v_cycle(h, y, y.from_dense(xs)).to_dense(), xs, rtol=0, atol=3e-3 * size, what='cycle')
    mon.close('linear', mg.v_cycle(h, y * 2., x * 2.).to_dense(), 2 * one, rtol=0, atol=6e-3 * size)
    k = int(rng.choice([1, 2, 3, 9, 12]))
    got = mg.solve_v_cycle(h, y, x, iterations=k).to_dense()
    v = x
    for _ in range(k):
        v = mg.v_cycle(h, y, v)
    mon.close('repeat', got, v.to_dense(), rtol=0, atol=1e-6 * size, cycles=k)
    w = dense_full(dense, fy, k)
    mon.close('full', mg.solve_full_cycle(h, y, iterations=k).to_dense(), w, rtol=0, atol=5e-3 * (np.linalg.norm(w) + size), cycles=k)
    mon.check('pure', np.array_equal(x.to_dense(), fx) and np.array_equal(y.to_dense(), fy), what='cycle')
    if smooth and p.N < 3:                                       # the default relaxation is tuned for the plane
        e0 = np.linalg.norm(fx - xs)
        e = np.linalg.norm(mg.solve_v_cycle(h, y, x, iterations=25).to_dense() - xs)
        mon.check('converge', bool(e < .2 * e0), before=e0, after=e)


CASES = dict(equation=case_equation, multigrid=case_multigrid)
PLAN = dict(quick=dict(equation=160, multigrid=80), thorough=dict(equation=1500, multigrid=600))
