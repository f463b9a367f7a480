"""C20 weight optimisation"""
import math
import numpy as np
from vmon import gen, geo, picks, many
from vmon.checks import c10

PROP = 'C20'
RULE = ('flat and spherical simplicial complexes of dimension 2-3 (1-3 for the fundamental weights); optimised complexes are compared with the original, with those of rotated, translated, scaled '
        'and renamed copies, and judged by independently computed circumcentres; a state is one complex')
REQUIRED = {'copies': 10, 'keeps': 100, 'equivariant': 100, 'symmetric': 10, 'improves': 8, 'well-centred': 40, 'cubical-parent': 10, 'metric-sum': 20}
METHODS = ['optimize_weights', 'optimize_weights_metric']
NOTE = 'improvement is judged on batches of well-centred meshes, since a single local step is a heuristic that may worsen a mesh that is balanced already'


def mesh(rng, wellcentered, dims=(2, 3)):
    for _ in range(50):
        d = picks.sphere_mesh(rng, wellcentered=wellcentered, n=rng.choice(dims)) if rng.random() < .35 else picks.flat_mesh(rng, wellcentered=wellcentered)
        if d['n'] in dims:
            d['w'] = None
            try:
                d['cells'] = gen.orient(d['cells'])
            except Exception:
                continue
            return d


def distance(d, w):
    """distances of power centres to centroids, relative to the size of each cell"""
    x = d['x'][d['cells']]
    c, b = geo.centers(x, None if w is None else w[d['cells']])
    e = x - x.mean(1, keepdims=True)
    return ((c - x.mean(1)) ** 2).sum(-1) / (e ** 2).sum(-1).max(-1)


def keeps(mon, c, o, x, cells, what):
    mon.check('keeps', type(o) is type(c) and o is not c, type=type(o).__name__, what=what)
    mon.eq('keeps', o.vertices, x, what=what + ' vertices')
    mon.eq('keeps', o.topology.elements[-1], c.topology.elements[-1], what=what + ' cells')
    mon.eq('keeps', o.topology.n_elements, c.topology.n_elements, what=what + ' counts')
    mon.check('keeps', np.shape(o.weights) == (len(x),) and bool(np.all(np.isfinite(o.weights))), weights=o.weights, what=what + ' weights')
    mon.check('keeps', c.weights is None, what=what + ' original weights')
    if hasattr(c, 'radius'):
        mon.eq('keeps', o.radius, c.radius, what=what + ' radius')


def usable(d):
    value, inner = picks.excess(d)
    return value > 1e-2 and inner > 1e-2


def case_generic(mon, rng, i):
    well = rng.random() < .6
    d = mesh(rng, well)
    fine = usable(d)
    mon.state(d['x'], d['cells'])
    mon.note(mesh=d['name'], cells=len(d['cells']), usable=fine)
    c = picks.build(d, typed=rng.random() < .4)
    perm = rng.permutation(len(d['x']))
    s = 1. if d['spherical'] else float(np.exp(rng.normal() * 2))
    R = geo.rotation(rng, d['x'].shape[1])
    t = 0. if d['spherical'] else rng.normal(size=d['x'].shape[1]) * rng.choice([0, 1, 10])
    y = np.empty_like(d['x'])
    y[perm] = (d['x'] * s + t).dot(R.T) if d['spherical'] else (d['x'].dot(R.T) * s + t)
    order = rng.permutation(len(d['cells']))
    cells = perm[d['cells']][order].astype(np.int32)
    if rng.random() < .5:                                           # rotate corners
        cells = np.roll(cells, 2 if d['n'] == 3 else 1, axis=1)
        if d['n'] == 3:
            cells = cells[:, [1, 2, 0, 3]]
    d2 = dict(d, x=y, cells=np.ascontiguousarray(cells))
    if rng.random() < .3:
        d2['cells'] = np.ascontiguousarray(d2['cells'][:, [1, 0] + list(range(2, d['n'] + 1))])       # mirrored orientation
    d2['radius'] = d['radius'] * 3
    c2 = picks.build(d2, typed=rng.random() < .4)
    size = ((d['x'][d['cells']] - d['x'][d['cells']].mean(1, keepdims=True)) ** 2).sum(-1).max()
    ratio = picks.radius_ratio(d)
    for m in METHODS:
        if m == METHODS[1] and not fine:
            mon.skip('metric weights need a well-centred mesh')
            continue
        o = getattr(c, m)()
        keeps(mon, c, o, d['x'], c.topology.elements[-1], m)
        w, w2 = o.weights, getattr(c2, m)().weights
        if ratio[0] > 1e3:
            mon.skip('slivers')
            continue
        tol = 1e-10 * max(np.abs(w).max(), size) * max(1, ratio[0]) ** 2 * (1 + np.abs(t).max() / s / np.sqrt(size))
        mon.close('equivariant', w2[perm] / s ** 2, w, rtol=0, atol=tol, method=m)
        if fine and not d['spherical']:
            b = picks.excess(dict(d, w=w))
            if min(b) > 1e-3:
                V = geo.gram_volume(d['x'][d['cells']]).sum()
                n = d['n']
                for k in range(n + 1):
                    mon.close('metric-sum', (o.primal_metric[k] * o.dual_metric[n - k]).sum(), V * math.comb(n, k), rtol=1e-8, k=k)


def case_symmetric(mon, rng, i):
    """meshes where every vertex, or every cell, looks the same need no weights"""
    k = i % 4
    if k == 0:
        from pycomplex import synthetic
        c = synthetic.icosphere(refinement=0)
    elif k == 1:
        from pycomplex import synthetic
        c = synthetic.n_cube_dual(3)
    elif k == 2:
        from pycomplex import synthetic
        c = synthetic.n_simplex(int(rng.choice([2, 3])), equilateral=True)
    else:
        from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
        a = np.arange(6) * np.pi / 3
        x = np.concatenate([np.zeros((1, 2)), np.stack([np.cos(a), np.sin(a)], axis=1)])
        c = ComplexSimplicialEuclidian(vertices=x * np.exp(rng.normal()) + rng.normal(size=2), simplices=np.array([[0, 1 + j, 1 + (j + 1) % 6] for j in range(6)], np.int32))
    mon.state(c.vertices, k)
    mon.note(kind=k)
    size = np.ptp(c.vertices, axis=0).max() ** 2
    for m in METHODS:
        w = getattr(c, m)().weights
        if k == 3:
            mon.check('symmetric', np.ptp(w[1:]) < 1e-10 * size, got=w, method=m)
        else:
            mon.check('symmetric', np.ptp(w) < 1e-10 * size, got=w, method=m)


def case_improves(mon, rng, i):
    before, after = [], {m: [] for m in METHODS}
    kind = i % 3
    while len(before) < 12:
        if kind == 0:
            d = picks.flat_mesh(rng, wellcentered=True)
            if d['n'] != 2:
                continue
        else:
            d = picks.sphere_mesh(rng, wellcentered=True, n=2 if kind == 1 else 3)
        d['w'] = None
        try:
            d['cells'] = gen.orient(d['cells'])
        except Exception:
            continue
        if not usable(d):
            continue
        o = distance(d, None).mean()
        if o < 1e-4:
            continue
        c = picks.build(d)
        before.append(1.)
        for m in METHODS:
            w = getattr(c, m)().weights
            after[m].append(distance(d, w).mean() / o)
        mon.state(d['x'], d['cells'])
    mon.note(kind=kind)
    for m in METHODS:
        got = float(np.mean(np.minimum(after[m], 3)))
        mon.check('improves', got < 1., method=m, got=got, each=np.array(after[m]))


def case_fundamental(mon, rng, i):
    d = mesh(rng, True, dims=(1, 2, 3))
    if not usable(d):
        mon.skip('not well centred')
        return
    if d['spherical'] and len(d['cells']) < 8:
        mon.skip('coarse sphere')
        return
    mon.state(d['x'], d['cells'])
    mon.note(mesh=d['name'], cells=len(d['cells']))
    c = picks.build(d, typed=rng.random() < .4)
    f = c.subdivide_fundamental(oriented=True)
    o = f.optimize_weights_fundamental()
    keeps(mon, f, o, f.vertices, f.topology.elements[-1], 'fundamental')
    x, cells, w = o.vertices, o.topology.elements[-1], o.weights
    mon.check('well-centred', bool(w.min() >= 0), least=w.min())
    if d['spherical']:
        e = np.linalg.norm(x[cells][:, :, None] - x[cells][:, None], axis=-1)
        if e.max() > .35:
            mon.skip('coarse sphere')
            return
    for k in range(1, d['n'] + 1):
        E = o.topology.elements[k]
        _, b = geo.centers(x[E], w[E])
        mon.check('well-centred', bool(b.min() > (0 if k == d['n'] else -1e-9)), k=k, worst=b.min())


def case_cubical(mon, rng, i):
    """fundamental weights of cubical parents: boxes are well-centred too"""
    from pycomplex import synthetic
    n = int(rng.choice([1, 2, 3], p=[.2, .5, .3]))
    shape = tuple(int(s) for s in rng.integers(1, 4, size=n))
    c = synthetic.n_cube_grid(shape)
    mon.state(shape, i)
    mon.note(shape=shape)
    f = c.subdivide_fundamental()
    o = f.optimize_weights_fundamental()
    keeps(mon, f, o, f.vertices, f.topology.elements[-1], 'cubical')
    x, cells, w = o.vertices, o.topology.elements[-1], o.weights
    _, b = geo.centers(x[cells], w[cells])
    mon.check('cubical-parent', bool(b.min() > 0), worst=b.min(), least=w.min())

def k_copies(mon, rng, i):
    T = 66000 if i < 1 else int(rng.choice([300, 1500]))
    many.simplices(mon, rng, T, i % 2 == 0)


CASES = dict(generic=case_generic, symmetric=case_symmetric, improves=case_improves, fundamental=case_fundamental, cubical=case_cubical, copies=k_copies)
PLAN = dict(quick=dict(generic=960, symmetric=192, improves=9, fundamental=600, cubical=12, copies=8),
            thorough=dict(generic=1500, symmetric=40, improves=60, fundamental=800, cubical=60, copies=120))
