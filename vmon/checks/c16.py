"""C16 sampling of 0-forms on simplicial complexes"""
import math

import numpy as np
from vmon import geo, many, picks, ref
from vmon.checks import c10, c14

PROP = 'C16'
RULE = ('scalar, vector and tensor valued forms of all magnitudes on flat and spherical (weighted) complexes of dimension 1-3, open and closed, sampled inside, on facets and at vertices, singly and in crowds; compared with '
        'an independent search for the containing cell or fundamental flag and an independent evaluation of the interpolant; a state is one (complex, form, batch)')
REQUIRED = {'crowd': 20, 'copies': 10, 'primal': 100, 'primal-affine': 60, 'primal-vertex': 60, 'primal-linear': 60, 'primal-range': 60, 'dual': 100, 'dual-constant': 60, 'dual-center': 60, 'dual-linear': 60,
            'dual-range': 60, 'average-rows': 60}


def form(rng, n, tensor=True):
    shape = (n,) + [(), (3,), (2, 2), (n + 2,)][rng.choice(4, p=[.5, .2, .2, .1] if tensor else [.6, .3, 0, .1])]
    return rng.normal(size=shape) * 10. ** rng.uniform(-3, 3)


def locate(d, p):
    """independent search: (cell, barycentric) with the largest smallest coordinate"""
    with np.errstate(all='ignore'):
        b = np.nan_to_num(picks.barycentric(d, d['x'][d['cells']][None], p[:, None]), nan=-np.inf, posinf=-np.inf, neginf=-np.inf)
    t = b.min(-1).argmax(1)
    return t, b[np.arange(len(p)), t]


def case_primal(mon, rng, i):
    d = picks.sphere_mesh(rng) if rng.random() < .4 else picks.flat_mesh(rng)
    tol = c14.usable(mon, d)
    if tol is None:
        return
    c = picks.build(d, typed=rng.random() < .5)
    if not c.is_pairwise_delaunay:
        mon.skip('not pairwise delaunay')
        return
    p, _ = picks.queries(rng, d, int(rng.choice([1, 5, 30])))
    f = form(rng, len(d['x']))
    mon.state(d['x'], d['cells'], f, p)
    mon.note(mesh=d['name'], form=f.shape, points=len(p))
    keep = f.copy(), p.copy()
    t, b = locate(d, p)
    tol = max(tol * 100, 1e-10)
    got = c.sample_primal_0(f, p)
    want = np.einsum('pc,pc...->p...', b, f[d['cells'][t]])
    mon.close('primal', got, want, atol=tol * np.abs(f).max(), rtol=0)
    if np.shape(got) != want.shape:
        return
    lo, hi = f[d['cells'][t]].min(1), f[d['cells'][t]].max(1)
    e = tol * np.abs(f).max()
    mon.check('primal-range', bool(np.all(got >= lo - e) and np.all(got <= hi + e)))
    g = form(rng, len(d['x']))
    g = g if g.shape == f.shape else np.cos(f)
    s = rng.normal()
    mon.close('primal-linear', c.sample_primal_0(f + s * g, p), got + s * c.sample_primal_0(g, p), atol=1e-12 * (np.abs(f).max() + abs(s) * np.abs(g).max()))
    used = np.unique(d['cells'])
    v = rng.choice(used, min(len(used), 8))
    mon.close('primal-vertex', c.sample_primal_0(f, d['x'][v]), f[v], atol=tol * np.abs(f).max())
    # affine functions on a flat complex; ratios of linear functions on a sphere
    A = rng.normal(size=(d['x'].shape[1], 2))
    if d['spherical']:
        r = c.sample_primal_0(d['x'].dot(A), p)
        l = np.linalg.norm(np.einsum('pc,pcd->pd', b, d['x'][d['cells'][t]]), axis=1)
        mon.close('primal-affine', r, p.dot(A) * l[:, None], atol=tol * np.abs(A).max())
    else:
        o = d['x'].mean(0)
        s = np.abs(d['x'] - o).max()
        mon.close('primal-affine', c.sample_primal_0((d['x'] - o).dot(A) / s + 1, p), (p - o).dot(A) / s + 1, atol=tol * 10)
    mon.close('primal-affine', c.sample_primal_0(np.full(len(d['x']), 2.5), p), np.full(len(p), 2.5), rtol=1e-12)
    mon.check('pure', np.array_equal(f, keep[0]) and np.array_equal(p, keep[1]))


def measure(d, corners):
    """unsigned measure of corners [..., k, N]"""
    k = corners.shape[-2]
    if not d['spherical']:
        return geo.gram_volume(corners)
    if k == 1:
        return np.ones(corners.shape[:-2])
    if k == 2:
        return c10.arc(corners[..., 0, :], corners[..., 1, :])
    return np.abs(c10.excess(corners[..., 0, :], corners[..., 1, :], corners[..., 2, :]))


def dual_reference(d, c, E, pos, weighted):
    """matrices that extend a dual 0-form to the duals of all primal elements"""
    n, cells = d['n'], d['cells']
    order, index = geo.flags(cells, E)                            # [flags, n+1] element indices
    corners = np.stack([pos[k][index[:, k]] for k in range(n + 1)], axis=1)
    nb = 0
    facets = []
    if not c.topology.is_closed:
        facets = np.asarray(c.topology.boundary.parent_idx[-1])
        nb = len(facets)
    ops = []
    for k in range(n + 1):
        M = np.zeros((len(E[k]), len(cells) + nb))
        if k == n:
            M[np.arange(len(cells)), np.arange(len(cells))] = 1
        elif weighted:
            w = measure(d, corners[:, k + 1:])
            for m in range(k + 1, n + 1):
                w = w / measure(d, corners[:, [k, m]])
            np.add.at(M, (index[:, k], index[:, n]), w)
        else:
            M[index[:, k], index[:, n]] = 1
            for j, f in enumerate(facets):
                hit = index[:, n - 1] == f
                M[index[hit, k], len(cells) + j] = 1
        ops.append(M / M.sum(1, keepdims=True))
    return ops, order, index, corners


def case_dual(mon, rng, i):
    d = picks.sphere_mesh(rng, wellcentered=True, n=rng.choice([1, 2, 2])) if rng.random() < .4 else picks.flat_mesh(rng, wellcentered=True)
    tol = c14.usable(mon, d)
    if tol is None:
        return
    value, inner = picks.excess(d)
    if inner < 3e-2 or value < 1e-3:
        mon.skip('not well centred')
        return
    c = picks.build(d, typed=rng.random() < .5)
    E = c.topology.elements
    nd = c.topology.dual.n_elements[0]
    p, _ = picks.queries(rng, d, int(rng.choice([1, 5, 30])))
    f = form(rng, nd, tensor=False)
    mon.state(d['x'], d['cells'], f, p)
    mon.note(mesh=d['name'], form=f.shape, points=len(p), closed=c.topology.is_closed)
    keep = f.copy(), p.copy()
    pos = [geo.centers(d['x'][np.asarray(e)], None if d['w'] is None else d['w'][np.asarray(e)])[0] for e in E]
    if d['spherical']:
        pos = [c10.unit(q) for q in pos]
    weighted = bool(rng.random() < .6)
    kw = {} if weighted and rng.random() < .5 else dict(weighted=weighted)
    ops, order, index, corners = dual_reference(d, c, E, pos, weighted)
    tol = max(tol * 1000, 1e-9)
    with np.errstate(all='ignore'):
        b = np.nan_to_num(picks.barycentric(d, corners[None], p[:, None]), nan=-np.inf, posinf=-np.inf, neginf=-np.inf)
    j = b.min(-1).argmax(1)
    b = b[np.arange(len(p)), j]
    size = np.abs(f).max()
    ext = [np.einsum('ij,j...->i...', M, f) for M in ops]
    want = sum(np.einsum('p,p...->p...', b[:, k], ext[k][index[j, k]]) for k in range(d['n'] + 1))
    got = c.sample_dual_0(f, p, **kw)
    mon.close('dual', got, want, atol=tol * size, weighted=weighted)
    if np.shape(got) != want.shape:
        return
    # the value stays between those of the cells around the nearest vertex
    M = ops[0][index[j, 0]] > 0
    for q in range(len(p)):
        near = f[M[q]]
        mon.check('dual-range', bool(np.all(got[q] >= near.min(0) - tol * size) and np.all(got[q] <= near.max(0) + tol * size)))
        if q > 3:
            break
    mon.close('dual-constant', c.sample_dual_0(np.full(nd, -1.5), p, **kw), np.full(len(p), -1.5), rtol=1e-10)
    t = rng.integers(len(d['cells']), size=min(6, len(d['cells'])))
    mon.close('dual-center', c.sample_dual_0(f, pos[-1][t], **kw), f[t], atol=tol * size * 10)
    g = np.sin(f / size)
    s = rng.normal() * size
    mon.close('dual-linear', c.sample_dual_0(f + s * g, p, **kw), got + s * c.sample_dual_0(g, p, **kw), atol=1e-11 * size * (1 + abs(s)))
    if weighted:
        for k, (A, M) in enumerate(zip(c.weighted_average_operators[::-1], ops)):
            if k < d['n']:
                # rows of elements on the boundary mix in boundary cells of the dual
                inner = np.setdiff1d(np.arange(len(M)), [] if c.topology.is_closed else c.topology.boundary.parent_idx[k])
                mon.close('average-rows', A.toarray()[:len(M)][inner], M[inner], atol=1e-6, element=k)
    mon.check('pure', np.array_equal(f, keep[0]) and np.array_equal(p, keep[1]))

def case_crowd(mon, rng, i):
    """many points at once, or a few at a time"""
    while True:
        d = picks.sphere_mesh(rng, wellcentered=True, n=rng.choice([1, 2])) if i % 3 == 2 else picks.flat_mesh(rng, wellcentered=True)
        tol = c14.usable(mon, d)
        value, inner = picks.excess(d)
        if tol is not None and inner > 3e-2 and value > 1e-3:
            break
    c = picks.build(d, typed=rng.random() < .5)
    p, t = picks.queries(rng, d, 66000 + int(rng.integers(1000)) if i < 2 else int(rng.integers(1100, 5000)))
    f, g = form(rng, len(d['x']), tensor=False), form(rng, c.topology.dual.n_elements[0], tensor=False)
    mon.state(d['x'], d['cells'], p)
    mon.note(mesh=d['name'], points=len(p), forms=(f.shape, g.shape))
    tol = max(tol * 1000, 1e-9)
    a, b = picks.crowd(rng, lambda q: c.sample_primal_0(f, q), p)
    mon.close('crowd', a, b, rtol=0, atol=tol * np.abs(f).max(), what='primal')
    for kw in (dict(), dict(weighted=False)):
        a, b = picks.crowd(rng, lambda q: c.sample_dual_0(g, q, **kw), p)
        mon.close('crowd', a, b, rtol=0, atol=tol * np.abs(g).max(), what='dual', **kw)


def k_copies(mon, rng, i):
    T = 66000 if i < 3 else int(rng.choice([300, 1500]))
    if i % 3 == 0:
        many.averages(mon, rng, T, 'flat')
    elif i % 3 == 1:
        many.averages(mon, rng, T, 'sphere')
    else:
        many.averages(mon, rng, T, 'regular')


CASES = dict(primal=case_primal, dual=case_dual, copies=k_copies, crowd=case_crowd)
PLAN = dict(quick=dict(primal=2000, dual=2000, copies=12, crowd=8), thorough=dict(primal=5000, dual=5000, copies=180, crowd=80))
