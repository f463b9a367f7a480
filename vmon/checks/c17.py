"""C17 picking and sampling on regular grids"""
import itertools

import numpy as np
from vmon import gen, picks, ref
from vmon.checks import c11

PROP = 'C17'
RULE = ('uniform grids of dimension 1-4 with any spacing per axis, holes and components, mirrored cubes, any vertex and cell numbering; points inside cubes, on faces, at vertices and '
        'outside, singly and in crowds; random, exact and stale hints; scalar, vector and tensor valued forms; compared with an interval search and independent multilinear interpolation; a state is one '
        '(grid, form, batch, hint)')
REQUIRED = {'crowd': 20, 'cube': 100, 'coordinates': 100, 'hint': 100, 'multilinear': 100, 'vertex': 60, 'outside': 30, 'domain': 100, 'domain-coordinates': 100, 'domain-hint': 60,
            'pick-dual': 100, 'sample-dual': 100, 'dual-affine': 60, 'dual-constant': 60, 'linear': 60, 'batch': 60}


def uniform(rng, n=None):
    n = int(n or rng.integers(1, 5))
    hi = {1: 12, 2: 7, 3: 5, 4: 4}[n]
    shape = tuple(int(v) for v in rng.integers(1, hi, n))
    cells = gen.cube_grid(shape)
    h = np.exp(rng.uniform(-1.5, 1.5, n)) if rng.random() < .6 else np.ones(n)
    x = np.array(list(itertools.product(*[np.arange(s + 1) * q for s, q in zip(shape, h)])), float).reshape(-1, n)
    full = True
    if len(cells) > 2 and rng.random() < .5:
        full = False
        if rng.random() < .5:
            keep = gen.facet_connected_subset(rng, 'cube', cells, int(rng.integers(1, len(cells))))
        else:
            keep = np.setdiff1d(np.arange(len(cells)), rng.integers(len(cells), size=rng.integers(1, 3)))
        cells, u = gen.compact(cells[keep])
        x = x[u]
    if rng.random() < .6:                                          # mirror the corner order of all cubes along the same axes, renumber, reorder
        if rng.random() < .6:
            flips = rng.random(n) < .5
            if flips.sum() % 2:
                flips[:] = False
            for a in np.flatnonzero(flips):
                cells = np.flip(cells, axis=a + 1)
        p = rng.permutation(len(x))
        inv = np.argsort(p)
        x, cells = x[p], inv[cells]
        cells = cells[rng.permutation(len(cells))]
    s = 10. ** rng.uniform(-3, 3)
    x = (x + rng.normal(size=n) * rng.choice([0, 1, 20])) * s
    return dict(cells=np.ascontiguousarray(cells.astype(np.int32)), x=np.ascontiguousarray(x), n=n, h=h * s, full=full, name='%s%s' % (shape, '' if full else '-holes'))


def build(rng, d):
    from pycomplex.complex import cubical
    if d['n'] < 5 and rng.random() < .4:
        cls = [None, cubical.ComplexCubical1Euclidian1, cubical.ComplexCubical2Euclidian2, cubical.ComplexCubical3Euclidian3, cubical.ComplexCubical4Euclidian4][d['n']]
        return cls(vertices=d['x'].copy(), cubes=d['cells'].copy()).as_regular()
    return c11.build(d)


def queries(rng, d, m):
    """points inside cubes, some on lower elements: (points, cell, local coordinates measured from the lower corner)"""
    lo, hi = c11.boxes(d['x'], d['cells'])
    t = rng.integers(len(lo), size=m)
    b = rng.random((m, d['n']))
    mode = rng.choice(5, size=m, p=[.6, .1, .1, .1, .1])
    b = np.where(((mode == 1)[:, None]) & (rng.random(b.shape) < .5), np.round(b), b)
    b = np.where((mode == 2)[:, None], np.round(b), b)
    b = np.where((mode == 3)[:, None] & (rng.random(b.shape) < .5), .5, b)
    # slightly on this side of a face, of the cube or of its parts
    delta = 10. ** rng.uniform(-10, -2, size=b.shape)
    near = np.array([delta, 1 - delta, .5 - delta, .5 + delta])
    side = rng.integers(4, size=b.shape)
    b = np.where((mode == 4)[:, None] & (rng.random(b.shape) < .5), np.take_along_axis(near, side[None], axis=0)[0], b)
    return lo[t] * (1 - b) + hi[t] * b


def form(rng, n):
    shape = (n,) + [(), (3,), (2, 2), (n + 2,)][rng.choice(4, p=[.5, .2, .2, .1])]
    return rng.normal(size=shape) * 10. ** rng.uniform(-3, 3)


def interpolate(values, b):
    """multilinear interpolation of values [m, 2, 2, ..., *f] at local coordinates b [m, n]"""
    for a in range(b.shape[1]):
        w = b[:, a].reshape((-1,) + (1,) * (values.ndim - 2))
        values = values[:, 0] * (1 - w) + values[:, 1] * w
    return values


def containing(d, p, eps=1e-9):
    lo, hi = c11.boxes(d['x'], d['cells'])
    e = eps * d['h']
    return np.all((p[:, None] >= lo - e) & (p[:, None] <= hi + e), axis=2)


def eps_of(d):
    return 1e-12 * (1 + np.abs(d['x']).max() / d['h'].min())


def case_primal(mon, rng, i):
    d = uniform(rng)
    c = build(rng, d)
    x, cells, n = d['x'], d['cells'], d['n']
    p = queries(rng, d, int(rng.choice([1, 4, 40])))
    eps = max(eps_of(d) * 10, 1e-11)
    f = form(rng, len(x))
    mon.state(x, cells, f, p)
    mon.note(grid=d['name'], h=d['h'], points=len(p), form=f.shape)
    keep = p.copy(), f.copy()
    corner = x[cells.reshape(len(cells), -1)]
    first, last = corner[:, 0], corner[:, -1]

    def observe(oracle, cube, b, q, inside=True, **kw):
        cube, b = np.asarray(cube), np.asarray(b)
        if not mon.check('batch-shape', cube.shape == (len(q),) and b.shape == (len(q), n) and np.all((cube >= 0) & (cube < len(cells))), at=oracle, **kw):
            return
        if inside:
            mon.check(oracle, np.all(containing(d, q, eps)[np.arange(len(q)), cube]) and np.all(b >= -eps) and np.all(b <= 1 + eps), cube=cube, b=b, points=q, **kw)
        mon.close('coordinates', first[cube] + b * (last - first)[cube], q, atol=1e-12 * np.abs(x).max() + eps * np.abs(q - first[cube]).max(), **kw)
    cube, b = c.pick_primal(p)
    observe('cube', cube, b, p)
    # any hint gives a containing cube
    mid = corner.mean(1) / d['h']
    order = np.argsort(((p[:, None] / d['h'] - mid[None]) ** 2).sum(-1), axis=1)
    for hint in (rng.integers(len(cells), size=len(p)), cube.copy(), order[:, min(1, len(cells) - 1)], order[np.arange(len(p)), rng.integers(min(len(cells), 4), size=len(p))], np.where(rng.random(len(p)) < .5, cube, rng.integers(len(cells), size=len(p)))):
        old = hint.copy()
        hc, hb = c.pick_primal(p, cube=hint)
        observe('hint', hc, hb, p, hint=old)
        mon.eq('pure', hint, old)
    # follow a moving point
    q = queries(rng, d, len(p))
    walk = c.pick_primal(q, cube=cube)
    observe('hint', walk[0], walk[1], q, hint=cube)
    # sampling
    got = c.sample_primal_0(f, p)
    t = containing(d, p, eps).argmax(1)
    b = (p - first[t]) / (last - first)[t]
    size = np.abs(f).max()
    mon.close('multilinear', got, interpolate(f[cells[t]], b), atol=size * eps * 100)
    # a genuinely multilinear function of position
    o, s = x.mean(0), np.abs(x - x.mean(0)).max()
    A = rng.normal(size=(2, n))

    def g(y):
        return np.prod(A[0] + A[1] * (y - o) / s, axis=1)
    big = np.prod(np.abs(A).sum(0))
    mon.close('multilinear', c.sample_primal_0(g(x), p), g(p), atol=big * eps * 100, function=True)
    v = rng.choice(np.unique(cells), min(6, len(np.unique(cells))))
    mon.close('vertex', c.sample_primal_0(f, x[v]), f[v], atol=size * eps * 100)
    k = np.cos(f / size) * size
    s = rng.normal()
    mon.close('linear', c.sample_primal_0(f + s * k, p), got + s * c.sample_primal_0(k, p), atol=1e-12 * size * (1 + abs(s)))
    if len(p) > 1:
        perm = rng.permutation(len(p))
        a, bb = c.pick_primal(p[perm])
        one = c.sample_primal_0(f, p[perm][:1])
        mon.check('batch', np.array_equal(a, cube[perm]), cube=cube, a=a)
        mon.close('batch', one, got[perm][:1], atol=size * 1e-12)
    else:
        mon.counts['batch'] += 0
    # outside: full boxes are extended by their boundary values
    if d['full']:
        lo, hi = x.min(0), x.max(0)
        q = rng.uniform(-1, 2, (len(p), n)) * (hi - lo) + lo
        cl = np.clip(q, lo, hi)
        cq, bq = c.pick_primal(q)
        observe('outside', cq, bq, q, inside=False)
        mon.check('outside', np.all(containing(d, cl, eps * 10)[np.arange(len(q)), cq]))
        mon.close('outside', c.sample_primal_0(f, q), c.sample_primal_0(f, cl), atol=size * eps * 1000)
        hq = c.pick_primal(q, cube=rng.integers(len(cells), size=len(q)))
        mon.close('outside', hq[1], bq, atol=1e-9) if np.array_equal(hq[0], cq) else mon.check('outside', False, hinted=hq[0], cold=cq)
    mon.check('pure', np.array_equal(p, keep[0]) and np.array_equal(f, keep[1]))


def case_dual(mon, rng, i):
    d = uniform(rng)
    c = build(rng, d)
    x, cells, n = d['x'], d['cells'], d['n']
    E = c.topology.elements
    sets = [np.sort(ref.flat(np.asarray(e)), axis=1) for e in E]
    index = [{tuple(s): j for j, s in enumerate(q.tolist())} for q in sets]
    p = queries(rng, d, int(rng.choice([1, 4, 20])))
    eps = max(eps_of(d) * 10, 1e-11)
    closed = c.topology.is_closed
    facets = [] if closed else np.asarray(c.topology.boundary.parent_idx[-1])
    nd = len(cells) + len(facets)
    f = form(rng, nd)
    mon.state(x, cells, f, p)
    mon.note(grid=d['name'], h=d['h'], points=len(p), form=f.shape)
    keep = p.copy(), f.copy()
    corners = list(itertools.product([0, 1], repeat=n))
    centre = x[ref.flat(cells)].mean(1)

    def observe(oracle, dom, b, q):
        dom, b = np.asarray(dom), np.asarray(b)
        if not mon.check('domain-shape', dom.shape == (len(q),) + (2,) * n and b.shape == (len(q), n), got=(dom.shape, b.shape)):
            return False
        flat = dom.reshape(len(q), -1)
        ok = True
        for j in range(len(q)):
            v, t = flat[j, 0], flat[j, -1]
            P, Q = x[v], centre[t]
            ok &= v in cells[t]
            for s, z in zip(corners, flat[j]):
                # the element spanned by the axes that are set
                k = sum(s)
                want = P + np.array(s) * (Q - P)
                mem = sets[k][z]
                ok &= bool(np.all(np.abs(x[mem].mean(0) - want) <= 1e-9 * d['h'] + 1e-12 * np.abs(x).max())) and v in mem
            ok &= bool(np.all(b[j] >= -eps) and np.all(b[j] <= 1 + eps))
            if not ok:
                break
        mon.check(oracle, ok, domain=dom, b=b, points=q)
        mon.close('domain-coordinates', x[flat[:, 0]] + b * (centre[flat[:, -1]] - x[flat[:, 0]]), q, atol=1e-11 * np.abs(x).max() + 1e-11 * d['h'].max())
        return ok
    dom, b = c.pick_fundamental(p)
    if not observe('domain', dom, b, p):
        return
    m = len(cells) * 2 ** n
    try:                                                      # only to choose hostile hints
        basis = np.asarray(c.pick_fundamental_precomp[2])
        mid = ((basis[:, 0] + basis[:, 1] / 2) / d['h']).reshape(m, n)
    except Exception:
        mid = rng.random((m, n))
    q = queries(rng, d, len(p))
    for q, h in ((p, 0), (q, 0), (q, 1), (p, 1), (p, 2)):
        hint = rng.integers(m, size=len(q))
        if h:                                             # close to where the point is, but mostly not there
            order = np.argsort(((q[:, None] / d['h'] - mid[None]) ** 2).sum(-1), axis=1)
            hint = order[np.arange(len(q)), np.minimum(m - 1, 1 if h == 1 else rng.integers(1, 4, size=len(q)))]
        old = hint.copy()
        hd, hb = c.pick_fundamental(q, domain_idx=hint)
        observe('domain-hint', hd, hb, q)
        mon.eq('pure', hint, old)
    # hints that need no update: find them among all domains
    all_hint = np.arange(m)
    tree_pts = None
    exact = []
    for j in range(len(p)):
        hd, hb = c.pick_fundamental(np.repeat(p[j:j + 1], m, axis=0), domain_idx=all_hint)
        observe('domain-hint', hd[:1], hb[:1], p[j:j + 1])
        if j > 1:
            break
    # nearest vertex of the containing cube
    v = c.pick_dual(p)
    dist = np.abs((x[v] - p) / d['h'])
    mon.check('pick-dual', v.shape == (len(p),) and bool(np.all(dist <= .5 + eps * 10)), dist=dist, v=v)
    # sampling
    inc = []
    for k in range(n + 1):
        M = np.zeros((len(E[k]), nd))
        for pos in ref.subface_positions('cube', n, k):
            sub = np.sort(ref.flat(cells)[:, list(pos)], axis=1)
            M[[index[k][tuple(s)] for s in sub.tolist()], np.arange(len(cells))] = 1
        if k < n:
            for a, fc in enumerate(facets):
                for pos in ref.subface_positions('cube', n - 1, k):
                    s = np.sort(ref.flat(np.asarray(E[n - 1]))[fc][list(pos)])
                    M[index[k][tuple(s.tolist())], len(cells) + a] = 1
        inc.append(M / M.sum(1, keepdims=True))
    flatdom = dom.reshape(len(p), -1)
    size = np.abs(f).max()
    val = np.stack([np.einsum('ij,j...->i...', inc[sum(s)], f)[flatdom[:, z]] for z, s in enumerate(corners)], axis=1)
    val = val.reshape((len(p),) + (2,) * n + f.shape[1:])
    got = c.sample_dual_0(f, p)
    mon.close('sample-dual', got, interpolate(val, np.clip(b, 0, 1)), atol=size * eps * 100)
    mon.close('dual-constant', c.sample_dual_0(np.full(nd, 3.5), p), np.full(len(p), 3.5), rtol=1e-11)
    g = np.sin(f / size) * size
    s = rng.normal()
    mon.close('linear', c.sample_dual_0(f + s * g, p), got + s * c.sample_dual_0(g, p), atol=1e-12 * size * (1 + abs(s)))
    t = rng.integers(len(cells), size=3)
    mon.close('dual-center', c.sample_dual_0(f, centre[t]), f[t], atol=size * eps * 100)
    # affine functions at dual vertices, away from the boundary
    on = np.zeros(len(x), bool)
    if len(facets):
        on[np.unique(ref.flat(np.asarray(E[n - 1]))[facets])] = True
    A = rng.normal(size=n)
    o, sc = x.mean(0), d['h'].max()
    pos = np.concatenate([centre, x[ref.flat(np.asarray(E[n - 1]))[facets]].mean(1)]) if len(facets) else centre
    inner = ~on[flatdom[:, 0]]
    r = c.sample_dual_0((pos - o).dot(A) / sc, p)
    mon.close('dual-affine', r[inner], ((p - o).dot(A) / sc)[inner], atol=1e-9 * (1 + np.abs(x - o).max() / sc) * np.abs(A).sum())
    if d['full']:
        lo, hi = x.min(0), x.max(0)
        q = rng.uniform(-1, 2, (len(p), n)) * (hi - lo) + lo
        mon.close('outside', c.sample_dual_0(f, q), c.sample_dual_0(f, np.clip(q, lo, hi)), atol=size * eps * 1000)
    mon.check('pure', np.array_equal(p, keep[0]) and np.array_equal(f, keep[1]))


def case_large(mon, rng, i):
    """more cubes than small integers count"""
    n = 1 + i % 3
    s = [66000, 260, 41][n - 1]
    cells = gen.cube_grid((s,) * n) if n > 1 else np.stack([np.arange(s), np.arange(s) + 1], axis=1).astype(np.int32)
    x = np.stack(np.meshgrid(*[np.arange(s + 1.)] * n, indexing='ij'), -1).reshape(-1, n)
    x = x * .5 + 3
    d = dict(x=x, cells=cells, n=n)
    c = c11.build(d)
    p = queries(rng, d, int(rng.integers(66000, 67000)))
    mon.state('large', n, p)
    mon.note(mesh='large-%d' % n, points=len(p))
    lo, hi = c11.boxes(x, cells)
    idx, bary = c.pick_primal(p)
    mon.check('cube', np.all((p >= lo[idx] - 1e-9) & (p <= hi[idx] + 1e-9)), mesh='large-%d' % n)
    v = np.asarray(c.pick_dual(p))
    mon.check('pick-dual', np.all(np.abs(x[v] - p) <= .25 + 1e-9), mesh='large-%d' % n)
    f = x.dot(np.arange(1., n + 1)) + 7
    mon.close('multilinear', c.sample_primal_0(f, p), p.dot(np.arange(1., n + 1)) + 7, atol=1e-6)


def case_crowd(mon, rng, i):
    """many points at once, or a few at a time"""
    d = uniform(rng)
    c = build(rng, d)
    m = 66000 + int(rng.integers(1000)) if i < 2 else int(rng.integers(1100, 5000))
    p = queries(rng, d, m)
    f, g = form(rng, len(d['x'])), form(rng, c.topology.dual.n_elements[0])
    mon.state(d['x'], d['cells'], p)
    mon.note(mesh=d['name'], points=len(p), forms=(f.shape, g.shape))
    e = eps_of(d) * 1000
    a, b = picks.crowd(rng, lambda q: c.sample_primal_0(f, q), p)
    mon.close('crowd', a, b, rtol=0, atol=e * np.abs(f).max(), what='primal')
    a, b = picks.crowd(rng, lambda q: c.sample_dual_0(g, q), p)
    mon.close('crowd', a, b, rtol=0, atol=e * np.abs(g).max(), what='dual')
    for name, pick in (('cube', c.pick_primal), ('domain', c.pick_fundamental)):
        a, b = picks.crowd(rng, pick, p)
        inner = ((b[1] > 1e3 * e) & (b[1] < 1 - 1e3 * e)).all(axis=1)
        mon.eq('crowd', a[0][inner], b[0][inner], what=name)
        mon.close('crowd', a[1][inner], b[1][inner], atol=e, what=name)


CASES = dict(primal=case_primal, dual=case_dual, large=case_large, crowd=case_crowd)
PLAN = dict(quick=dict(primal=800, dual=500, large=3, crowd=8), thorough=dict(primal=10000, dual=5000, large=9, crowd=80))
