"""C29 stencil complex: hierarchy, transfer, metric and sampling"""
import itertools
import numpy as np

PROP = 'C29'
RULE = ('periodic grids of 1 to 4 dimensions with random even shapes, up to 70000 points along an axis, and scales, random real, integer and constant forms of every degree and memory layout; coarsening and refinement are compared with formulas over shifted arrays, '
        'sampling with a written-out multilinear interpolation at grid points, cell interiors, borders and points many periods away; a state is one complex with its form')
REQUIRED = {'hierarchy': 100, 'hodge': 100, 'coarsen': 100, 'refine': 100, 'constants': 100, 'adjoint': 100, 'commute': 60, 'sum': 100, 'position': 30, 'sample': 100, 'periodic': 30, 'interior': 30, 'nodes': 30, 'pure': 100, 'odd': 300}


def components(N, n):
    return list(itertools.combinations(range(N), n))


def reference_coarsen(f, N, n):
    out = []
    for c, s in enumerate(components(N, n)):
        v = np.asarray(f[c], float)
        for a in range(N):
            if a in s:
                v = (np.take(v, np.arange(0, v.shape[a], 2), axis=a) + np.take(v, np.arange(1, v.shape[a], 2), axis=a)) / 2
            else:
                w = np.roll(v, 1, a) / 4 + v / 2 + np.roll(v, -1, a) / 4
                v = np.take(w, np.arange(0, v.shape[a], 2), axis=a)
        out.append(v)
    return np.array(out)


def reference_refine(f, N, n):
    out = []
    for c, s in enumerate(components(N, n)):
        v = np.asarray(f[c], float)
        for a in range(N):
            half = v if a in s else (v + np.roll(v, -1, a)) / 2      # value at the odd places
            v = np.stack([v, half], axis=a + 1).reshape(v.shape[:a] + (2 * v.shape[a],) + v.shape[a + 1:])
        out.append(v)
    return np.array(out)


def multilinear(f, p):
    """periodic, in units of the grid"""
    lo = np.floor(p).astype(int)
    t = p - lo
    total = np.zeros(len(p))
    for corner in itertools.product((0, 1), repeat=p.shape[1]):
        w = np.prod(np.where(np.array(corner), t, 1 - t), axis=1)
        total += w * f[tuple(((lo + corner) % f.shape).T)]
    return total


def setup(rng, lo=1, big=False):
    from pycomplex.stencil.complex import StencilComplex, StencilComplex2D, StencilComplex3D
    N = int(rng.choice([1, 2, 3, 4], p=[.25, .3, .3, .15]))
    shape = tuple(int(v) for v in 2 * rng.integers(lo, {1: 12, 2: 7, 3: 4, 4: 3}[N], size=N))
    if big:
        N = big
        shape = [(70000,), (300, 270), (36, 50, 44)][N - 1]
        shape = tuple(shape[k] for k in rng.permutation(N))
    scale = float(rng.choice([1, 2, .5, .3, 7.25]))
    cls = {2: StencilComplex2D, 3: StencilComplex3D}.get(N, StencilComplex) if rng.random() < .4 else StencilComplex
    return cls.from_shape(shape, scale=scale) if rng.random() < .9 else cls.from_shape(shape), N, shape


def layout(rng, f):
    """the same values, however they are stored"""
    how = rng.integers(5)
    if how == 0:
        return np.asfortranarray(f)
    if how == 1:
        return np.repeat(f, 2, axis=-1)[..., ::2]
    if how == 2:
        return np.ascontiguousarray(f[..., ::-1])[..., ::-1]
    if how == 3:
        return np.ascontiguousarray(np.moveaxis(f, 0, -1))[..., ::-1][..., ::-1].transpose((f.ndim - 1,) + tuple(range(f.ndim - 1)))
    return f


def draw(rng, space, kind=None):
    return layout(rng, values(rng, space, kind))


def values(rng, space, kind=None):
    kind = kind or rng.choice(['real', 'real', 'float32', 'integer', 'spike', 'constant'])
    if kind == 'real':
        return rng.normal(size=space)
    if kind == 'float32':
        return rng.normal(size=space).astype(np.float32)
    if kind == 'integer':
        return rng.integers(-9, 10, size=space)
    if kind == 'constant':
        return np.full(space, rng.normal())
    f = np.zeros(space)
    f[tuple(int(rng.integers(s)) for s in space)] = 1
    return f


def case_hierarchy(mon, rng, i, big=False):
    c, N, shape = setup(rng, big=big)
    mon.note(shape=shape, scale=c.scale)
    K = c.coarse
    F = c.fine
    mon.eq('hierarchy', tuple(K.shape), tuple(s // 2 for s in shape))
    mon.eq('hierarchy', tuple(F.shape), tuple(s * 2 for s in shape))
    mon.close('hierarchy', [K.scale, F.scale], [2 * c.scale, c.scale / 2], rtol=1e-12)
    mon.check('hierarchy', type(K) is type(c) and type(F) is type(c))
    mon.eq('hierarchy', tuple(F.coarse.shape), shape)
    mon.close('hierarchy', F.coarse.scale, c.scale, rtol=1e-12)
    mon.eq('hierarchy', c.n_dim, N)
    for n in range(N + 1):
        space = tuple(c.n_elements[n])
        k = len(components(N, n))
        mon.eq('hierarchy', space, (k,) + shape)
        mon.eq('hierarchy', tuple(K.n_elements[n]), (k,) + tuple(s // 2 for s in shape))
        fine, coarse = draw(rng, space), draw(rng, tuple(K.n_elements[n]))
        mon.state(shape, n, fine, coarse)
        keep, keep2 = fine.copy(), coarse.copy()
        C, R = c.coarsen[n], c.refine[n]
        down, up = np.asarray(C(fine)), np.asarray(R(coarse))
        mon.close('coarsen', down, reference_coarsen(fine, N, n), rtol=3e-6, atol=3e-6 * max(1e-9, np.abs(fine).max()))
        mon.close('refine', up, reference_refine(coarse, N, n), rtol=3e-6, atol=3e-6 * max(1e-9, np.abs(coarse).max()))
        mon.check('pure', np.array_equal(fine, keep) and np.array_equal(coarse, keep2))
        mon.close('constants', C(np.full(space, 3.)), np.full(K.n_elements[n], 3.), rtol=3e-6)
        mon.close('constants', R(np.full(K.n_elements[n], 3.)), np.full(space, 3.), rtol=3e-6)
        scale = np.abs(fine).sum() * np.abs(coarse).max() + 1e-30
        mon.close('adjoint', np.sum(down * coarse) * 2. ** N, np.sum(fine * up), rtol=0, atol=3e-6 * scale)
        mon.close('sum', down.sum() * 2. ** N, np.sum(fine * 1.), rtol=0, atol=3e-6 * np.abs(fine).sum() + 1e-30, what='coarse')
        mon.close('sum', up.sum(), np.sum(coarse * 1.) * 2. ** N, rtol=0, atol=3e-6 * np.abs(up).sum() + 1e-30, what='fine')
        if n < N:
            a, b = c.topology.primal[n](R(coarse)), c.refine[n + 1](K.topology.primal[n](coarse * 1.)) / 2
            mon.close('commute', a, b, rtol=0, atol=1e-5 * (np.abs(coarse).max() + 1e-30), degree=n)
        h = c.scale ** (N - 2. * n)
        H = c.hodge[n]
        mon.close('hodge', H(fine), fine * h, rtol=1e-6)
        mon.close('hodge', H.inverse()(H(fine)), fine, rtol=1e-6)
        mon.close('hodge', K.hodge[n](coarse), coarse * (2 * c.scale) ** (N - 2. * n), rtol=1e-6)
        for scale, w in ((True, 1.), (False, 2. ** (N - n))):
            S = c.smoothers(scale)[n]
            mon.close('constants', S(np.full(space, 2.)), np.full(space, 2. * w), rtol=1e-6, what='smoother')
    p = c.primal_position[0]
    mon.eq('position', p.shape, (1,) + shape + (N,))
    mon.close('position', p[0], np.stack(np.meshgrid(*[np.arange(float(s)) for s in shape], indexing='ij'), -1) * c.scale, rtol=1e-12)


def case_sample(mon, rng, i, big=False):
    c, N, shape = setup(rng, big=big)
    f = draw(rng, tuple(c.n_elements[0]))
    keep = f.copy()
    n = int(rng.integers(1, 30))
    how = rng.choice(['inside', 'anywhere', 'nodes', 'faces', 'border', 'far'])
    u = rng.random((n, N)) * shape
    if how == 'nodes':
        u = np.floor(u)
    elif how == 'faces':
        u = np.where(rng.random((n, N)) < .5, np.floor(u), u)
    elif how == 'border':
        u = np.where(rng.random((n, N)) < .5, np.array(shape) - rng.choice([0, 1e-6, .3, .999, 1]), u)
    elif how == 'far':
        u = u + rng.integers(-50, 50, size=(n, N)) * shape
    elif how == 'anywhere':
        u = u * 4 - np.array(shape) * 2
    p = u * c.scale
    mon.state(shape, f, u)
    mon.note(shape=shape, scale=c.scale, how=str(how))
    size = float(np.abs(f).max()) + 1e-30
    got = np.asarray(c.sample_0(f, p))
    mon.eq('sample', got.shape, (n,))
    want = multilinear(np.asarray(f[0], float), u)
    tol = 1e-5 * size
    mon.close('sample', got, want, rtol=0, atol=tol)
    mon.close('periodic', c.sample_0(f, p + rng.integers(-5, 6, size=(n, N)) * shape * c.scale), want, rtol=0, atol=tol)
    mon.close('sample', c.sample_0(f, p.tolist()), want, rtol=0, atol=tol, what='list')
    g = draw(rng, tuple(c.n_elements[0]), 'real')
    mon.close('sample', c.sample_0(2. * f + g, p), 2 * want + multilinear(g[0], u), rtol=0, atol=1e-5 * (2 * size + np.abs(g).max()), what='linear')
    idx = tuple(rng.integers(0, s, size=n) for s in shape)
    mon.close('nodes', c.sample_0(f, np.array(idx).T * c.scale), np.asarray(f[0], float)[idx], rtol=0, atol=tol)
    q = rng.random((n, N)) * (np.array(shape) - 1)
    mon.close('interior', c.sample_0(f, q * c.scale, assume_interior=True), multilinear(np.asarray(f[0], float), q), rtol=0, atol=tol)
    mon.check('pure', np.array_equal(f, keep) and np.array_equal(p, u * c.scale))


def case_large(mon, rng, i):
    """more elements, along an axis and in total, than small integers count"""
    (case_hierarchy if i % 2 else case_sample)(mon, rng, i, big=1 + i // 2 % 3)


def case_odd(mon, rng, i):
    """grids that are odd along some axis: the top of a hierarchy, they refine but do not coarsen"""
    from pycomplex.stencil.complex import StencilComplex
    N = int(rng.integers(1, 4))
    shape = rng.integers(1, 8, size=N) * 2
    shape[rng.random(N) < .5] -= 1
    shape[rng.integers(N)] |= 1
    shape = tuple(int(v) for v in shape)
    levels = int(rng.integers(0, 3))
    c = StencilComplex.from_shape(tuple(v * 2 ** levels for v in shape), scale=1.)
    mon.note(shape=shape, levels=levels)
    for _ in range(levels):
        c = c.coarse
    mon.eq('odd', tuple(c.shape), shape)
    for what, f in [('topology', lambda: c.topology.coarse), ('complex', lambda: c.coarse), ('operator', lambda: c.coarsen[0](c.form(0)))]:
        try:
            out = f()
            mon.check('odd', False, what=what, shape=shape, got=repr(getattr(out, 'shape', out))[:100])
        except Exception:
            mon.check('odd', True)
    F = c.fine
    mon.eq('odd', tuple(F.shape), tuple(2 * v for v in shape))
    mon.eq('odd', tuple(F.coarse.shape), shape)
    mon.eq('odd', bool(F.topology.is_even), True)
    mon.eq('odd', bool(c.topology.is_even), False)
    for n in range(N + 1):
        coarse = draw(rng, tuple(c.n_elements[n]))
        mon.state(shape, n, coarse)
        mon.close('odd', F.refine[n](coarse), reference_refine(coarse, N, n), rtol=3e-6, atol=3e-6 * max(1e-9, np.abs(coarse).max()), degree=n)


CASES = dict(odd=case_odd, hierarchy=case_hierarchy, sample=case_sample, large=case_large)
PLAN = dict(quick=dict(odd=300, hierarchy=1080, sample=1080, large=6), thorough=dict(odd=3000, hierarchy=2500, sample=4000, large=40))
