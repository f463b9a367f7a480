"""C14 primal point location"""
import numpy as np
from vmon import geo, picks

PROP = 'C14'
RULE = ('globally (weighted) Delaunay simplicial complexes of dimension 1-3, flat (with several components, graded, far from the origin, scaled) and spherical; points inside cells, on facets and '
        'vertices and outside; queried without hint, with random hints, with hints fed back along a random walk, slightly outside of the cell that the hint names, in batches of any size; every returned cell is verified '
        'by an independent linear solve; a state is one (complex, batch, hint)')
REQUIRED = {'contains': 200, 'reproduces': 200, 'bary-sum': 200, 'exact-cell': 60, 'hint': 60, 'walk': 40, 'beside': 100, 'delaunay-flag': 40, 'rejects': 10, 'outside': 40}


def usable(mon, d):
    reg = picks.regularity(d)
    ratio, far = picks.radius_ratio(d)
    tol = 1e-11 + 1e-14 * (ratio ** 2 * 30 + far * ratio * 30 + far * 300)
    if not reg > 1e-7 or tol > 1e-6:
        mon.skip('not globally delaunay, or ill-conditioned')
        return None
    return tol * 10


def observe(mon, d, p, idx, bary, tol, oracle='contains', inside=True):
    idx, bary = np.asarray(idx), np.asarray(bary)
    n = d['n']
    ok = mon.check('shape', idx.shape == (len(p),) and bary.shape == (len(p), n + 1) and idx.dtype.kind in 'iu', idx=idx.shape, bary=bary.shape)
    if not ok or not mon.check('cell-index', idx.min(initial=0) >= 0 and idx.max(initial=0) < len(d['cells']), idx=idx):
        return
    if not len(p):
        return
    want = picks.barycentric(d, d['x'][d['cells'][idx]], p)
    mon.check('bary-sum', np.allclose(bary.sum(1), 1, atol=1e-9), sums=bary.sum(1))
    mon.close('reproduces', bary, want, rtol=tol * 10, atol=tol * 10)
    if inside:
        mon.check(oracle, bool(want.min() >= -tol), worst=want.min(), tol=tol, point=p[want.min(1).argmin()], idx=idx[want.min(1).argmin()])


def make(rng):
    d = picks.sphere_mesh(rng) if rng.random() < .45 else picks.flat_mesh(rng)
    return d


def case_pick(mon, rng, i):
    d = make(rng)
    tol = usable(mon, d)
    if tol is None:
        return
    value, inner = picks.excess(d)
    c = picks.build(d, typed=rng.random() < .5)
    if abs(value) > 1e-6 and (not d['spherical'] or (d['w'] is None and inner > 1e-6)):
        mon.eq('delaunay-flag', bool(c.is_pairwise_delaunay), bool(value > 0), margin=value)
    if not c.is_pairwise_delaunay:
        p, t = picks.queries(rng, d, 4)
        mon.raises('rejects', AssertionError, lambda: c.pick_primal(p))
        return
    m = int(rng.choice([1, 2, 10, 60]))
    p, t = picks.queries(rng, d, m)
    mon.state(d['x'], d['cells'], p)
    mon.note(mesh=d['name'], cells=len(d['cells']), points=m)
    keep = p.copy(), d['x'].copy()
    idx, bary = c.pick_primal(p)
    observe(mon, d, p, idx, bary, tol)
    # points well inside a cell have only one answer
    b = picks.barycentric(d, d['x'][d['cells'][t]], p)
    deep = b.min(1) > 100 * tol
    if deep.any():
        mon.eq('exact-cell', idx[deep], t[deep])
    # hints: right, wrong, arbitrary
    hints = [idx.copy(), rng.integers(len(d['cells']), size=m).astype(idx.dtype), t.copy()]
    h = t.copy()
    h[rng.random(m) < .5] = 0
    hints.append(h)
    for h in hints:
        k = h.copy()
        i2, b2 = c.pick_primal(p, simplex_idx=h)
        observe(mon, d, p, i2, b2, tol)
        if deep.any():
            mon.eq('hint', np.asarray(i2)[deep], t[deep])
        mon.check('pure', np.array_equal(h, k), what='hint')
    mon.check('pure', np.array_equal(p, keep[0]) and np.array_equal(c.vertices, keep[1]), what='points')
    # the search of all cells
    q = np.asarray(c.pick_primal_brute(c.homogenize(p)))
    w = picks.barycentric(d, d['x'][d['cells'][q]], p)
    mon.check('brute', q.shape == (m,) and bool(w.min() >= -tol), worst=w.min(), tol=tol)
    if deep.any():
        mon.eq('brute', q[deep], t[deep])
    # one by one gives the same cells as the batch
    j = rng.integers(m)
    i3, b3 = c.pick_primal(p[j:j + 1])
    if deep[j]:
        mon.eq('exact-cell', int(i3[0]), int(t[j]))
    mon.close('batch', b3[0], picks.barycentric(d, d['x'][d['cells'][i3[0]]], p[j]), rtol=tol * 10, atol=tol * 10)


def case_walk(mon, rng, i):
    """points that move, with the previous answer as hint"""
    d = make(rng)
    tol = usable(mon, d)
    if tol is None:
        return
    c = picks.build(d)
    if not c.is_pairwise_delaunay:
        return
    m = int(rng.integers(1, 20))
    a, _ = picks.queries(rng, d, m)
    b, t = picks.queries(rng, d, m)
    mon.state(d['x'], d['cells'], a, b)
    mon.note(mesh=d['name'], points=m)
    hint, steps = None, int(rng.integers(3, 9))
    for s in np.linspace(0, 1, steps):
        p = a * (1 - s) + b * s
        if d['spherical']:
            l = np.linalg.norm(p, axis=1, keepdims=True)
            if l.min() < 1e-2:
                mon.skip('walk through the centre of the sphere')
                return
            p = p / l
        # between cells the walk may leave the complex: only claim containment where some cell contains the point
        every = picks.barycentric(d, d['x'][d['cells']][None], p[:, None]).min(-1)
        inside = every.max(1) > tol * 100
        hint, bary = c.pick_primal(p, simplex_idx=hint)
        got = picks.barycentric(d, d['x'][d['cells'][hint]], p)
        mon.check('walk', bool(np.all(got[inside].min(initial=0) >= -tol)), worst=got[inside].min(initial=0), step=s)
        mon.close('reproduces', bary, got, rtol=tol * 100, atol=tol * 100)


def case_beside(mon, rng, i):
    """points slightly outside of the cell that the hint names"""
    d = make(rng)
    tol = usable(mon, d)
    if tol is None:
        return
    c = picks.build(d, typed=rng.random() < .5)
    if not c.is_pairwise_delaunay:
        return
    p, t = picks.beside(rng, d, 40)
    every = picks.barycentric(d, d['x'][d['cells']][None], p[:, None]).min(-1)
    inside = every.max(1) > tol * 10
    mon.state(d['x'], d['cells'], p)
    mon.note(mesh=d['name'], points=len(p))
    for h in (None, t.astype(np.int64), t.astype(np.int32)):
        idx, bary = c.pick_primal(p, simplex_idx=h)
        got = picks.barycentric(d, d['x'][d['cells'][idx]], p)
        mon.check('beside', bool(got.min(1)[inside].min(initial=0) >= -tol), worst=got.min(1)[inside].min(initial=0), tol=tol, hint=h is not None)
        mon.close('reproduces', bary, got, rtol=tol * 100, atol=tol * 100)


def case_outside(mon, rng, i):
    d = picks.flat_mesh(rng)
    tol = usable(mon, d)
    if tol is None:
        return
    c = picks.build(d)
    if not c.is_pairwise_delaunay:
        return
    x = d['x']
    m = 20
    p = x.mean(0) + rng.normal(size=(m, d['n'])) * np.ptp(x, axis=0).max() * rng.choice([.5, 1, 3])
    mon.state(x, d['cells'], p)
    mon.note(mesh=d['name'])
    for h in (None, rng.integers(len(d['cells']), size=m)):
        idx, bary = c.pick_primal(p, simplex_idx=h)
        want = picks.barycentric(d, x[d['cells'][idx]], p)
        mon.close('outside', bary, want, rtol=tol * 100, atol=tol * 100)
        mon.check('bary-sum', np.allclose(bary.sum(1), 1, atol=1e-7 * np.abs(bary).max()))
        every = picks.barycentric(d, x[d['cells']][None], p[:, None]).min(-1)
        inside = every.max(1) > tol * 100
        mon.check('outside', bool(np.all((want.min(1) > -tol)[inside])), what='inside points among outside points')
        # outside points never get a cell that claims to contain them
        mon.check('outside', bool(np.all(bary.min(1)[every.max(1) < -tol * 100] < 0)))


def case_large(mon, rng, i):
    """many cells, and many points at once"""
    d = picks.large_mesh(rng, *[(2, 182), (3, 19)][i % 2]) if i < 2 or rng.random() < .5 else picks.flat_mesh(rng, n=2)
    tol = 1e-9 if d['name'].startswith('large') else usable(mon, d)
    if tol is None:
        return
    c = picks.build(d, typed=rng.random() < .5)
    if not mon.check('delaunay-flag', c.is_pairwise_delaunay or not d['name'].startswith('large'), mesh=d['name']) or not c.is_pairwise_delaunay:
        return
    p, t = picks.queries(rng, d, int(rng.integers(66000, 70000)))
    mon.state(d['x'], d['cells'], p)
    mon.note(mesh=d['name'], cells=len(d['cells']), points=len(p))
    idx, bary = c.pick_primal(p)
    observe(mon, d, p, idx, bary, tol)
    b = picks.barycentric(d, d['x'][d['cells'][t]], p)
    deep = b.min(1) > 1000 * tol
    mon.eq('exact-cell', idx[deep], t[deep])
    i2, b2 = c.pick_primal(p, simplex_idx=t.astype(idx.dtype))
    mon.eq('hint', i2[deep], t[deep])


CASES = dict(pick=case_pick, walk=case_walk, beside=case_beside, outside=case_outside, large=case_large)
PLAN = dict(quick=dict(pick=2400, walk=1200, beside=800, outside=960, large=2), thorough=dict(pick=6000, walk=3000, beside=3000, outside=2000, large=12))
