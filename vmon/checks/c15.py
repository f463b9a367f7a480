"""C15 dual and fundamental point location"""
import numpy as np
from vmon import geo, picks
from vmon.checks import c10, c14

PROP = 'C15'
RULE = ('flat and spherical (weighted) complexes of dimension 1-3; queries inside, on lower elements, on the bisectors and outside; dual picks are compared with a brute-force power distance, '
        'fundamental picks with the independently computed flag of circumcentres they name, with and without hints, slightly outside of hinted domains, along walks and in crowds of many thousands; a state is one (complex, batch)')
REQUIRED = {'crowd': 20, 'nearest': 200, 'flag': 60, 'flag-contains': 60, 'flag-bary': 60, 'dual-agrees': 60, 'primal-agrees': 60, 'hint': 60, 'wellcentered-weights': 40}


def power(d, p):
    w = 0. if d['w'] is None else d['w'][None]
    return ((p[:, None] - d['x'][None]) ** 2).sum(-1) - w


def scale2(d, p):
    return max(np.abs(d['x'] - d['x'].mean(0)).max(), np.abs(p - d['x'].mean(0)).max()) ** 2 + (0 if d['w'] is None else np.ptp(d['w']))


def case_dual(mon, rng, i):
    d = picks.sphere_mesh(rng) if rng.random() < .4 else picks.flat_mesh(rng)
    c = picks.build(d, typed=rng.random() < .5)
    m = int(rng.choice([1, 3, 40]))
    p, _ = picks.queries(rng, d, m)
    how = rng.integers(3)
    if how == 1:
        p = p + rng.normal(size=p.shape) * np.ptp(d['x'], axis=0).max()
        if d['spherical']:
            p = c10.unit(p)
    elif how == 2:                                               # near the bisectors of edges
        e = c.topology.elements[1][rng.integers(c.topology.n_elements[1], size=m)]
        a, b = d['x'][e[:, 0]], d['x'][e[:, 1]]
        l2 = ((b - a) ** 2).sum(1)
        t = .5 if d['w'] is None else .5 + (d['w'][e[:, 0]] - d['w'][e[:, 1]]) / l2 / 2
        p = a + (b - a) * np.broadcast_to(t, len(a))[:, None] + rng.normal(size=p.shape) * np.sqrt(l2)[:, None] * 10. ** rng.uniform(-11, -4, (m, 1))
        if d['spherical']:
            p = c10.unit(p)
    mon.state(d['x'], p)
    mon.note(mesh=d['name'], points=m, how=int(how))
    keep = p.copy()
    got = np.asarray(c.pick_dual(p))
    if not mon.check('shape', got.shape == (m,) and got.min() >= 0 and got.max() < len(d['x']), got=got):
        return
    q = power(d, p)
    far = np.abs(d['x']).max()
    tol = 1e-12 * scale2(d, p) + 1e-14 * far * np.sqrt(scale2(d, p)) * 10
    mon.check('nearest', bool(np.all(q[np.arange(m), got] <= q.min(1) + tol)), got=got, want=q.argmin(1), excess=(q[np.arange(m), got] - q.min(1)).max(), tol=tol)
    mon.check('pure', np.array_equal(p, keep))
    # the vertices themselves, as far as their weight does not hide them
    v = np.asarray(c.pick_dual(d['x']))
    q = power(d, d['x'])
    mon.check('nearest', bool(np.all(q[np.arange(len(v)), v] <= q.min(1) + tol)), what='vertices')


def case_fundamental(mon, rng, i):
    d = picks.sphere_mesh(rng, wellcentered=True, n=rng.choice([1, 2, 2])) if rng.random() < .4 else picks.flat_mesh(rng, wellcentered=True)
    tol = c14.usable(mon, d)
    if tol is None:
        return
    value, inner = picks.excess(d)
    if inner < 1e-2 or value < 1e-3:
        mon.skip('not well centred')
        return
    tol *= 10
    c = picks.build(d, typed=rng.random() < .5)
    m = int(rng.choice([1, 10, 50]))
    p, t = picks.queries(rng, d, m)
    mon.state(d['x'], d['cells'], p)
    mon.note(mesh=d['name'], cells=len(d['cells']), points=m)
    keep = p.copy()
    E = c.topology.elements
    # reference positions of the elements
    pos = [geo.centers(d['x'][np.asarray(e).reshape(len(e), -1)], None if d['w'] is None else d['w'][np.asarray(e).reshape(len(e), -1)])[0] for e in E]
    if d['spherical']:
        pos = [c10.unit(q) for q in pos]
    fundamental, domains = c.pick_fundamental_precomp
    # weights chosen for the subdivision make it well centred
    x, w, cells = fundamental.vertices, fundamental.weights, fundamental.topology.elements[-1]
    _, b = geo.centers(x[cells], w[cells])
    mon.check('wellcentered-weights', bool(b.min() > (1e-12 if not d['spherical'] else -.05)), worst=b.min())
    prev = None
    for h in range(3):
        if h == 0:
            idx, bary, dom = c.pick_fundamental(p)
            prev = idx
        else:
            hint = rng.integers(len(domains), size=m) if h == 1 else prev.copy()
            k = hint.copy()
            idx, bary, dom = c.pick_fundamental(p, domain_idx=hint)
            mon.check('pure', np.array_equal(hint, k), what='hint')
        observe(mon, d, c, E, pos, p, idx, bary, dom, fundamental, tol, 'hint' if h else 'flag-contains')
    # points slightly outside of the domain that the hint names
    hint = rng.integers(len(domains), size=40)
    b = rng.dirichlet(np.ones(d['n'] + 1), 40)
    b[np.arange(40), rng.integers(d['n'] + 1, size=40)] = -10. ** rng.uniform(-8, -2, 40)
    b /= b.sum(1, keepdims=True)
    q = np.einsum('pk,pkd->pd', b, np.stack([pos[k][domains[hint, k]] for k in range(d['n'] + 1)], axis=1))
    if d['spherical']:
        q = c10.unit(q)
    inside = picks.barycentric(d, d['x'][d['cells']][None], q[:, None]).min(-1).max(1) > 10 * tol
    if inside.any():
        q, hint = q[inside], hint[inside]
        ri, rb, rd = c.pick_fundamental(q, domain_idx=hint)
        observe(mon, d, c, E, pos, q, ri, rb, rd, fundamental, tol, 'hint')
    # one result, three ways to ask
    ip, bp = c.pick_primal(p)
    same = picks.barycentric(d, d['x'][d['cells'][ip]], p).min(1) > 1000 * tol
    mon.check('primal-agrees', bool(np.all(dom[same, -1] == ip[same])), fundamental=dom[:, -1], primal=ip)
    if not (d['spherical'] and d['w'] is not None):
        v = c.pick_dual(p)
        q = power(d, p)
        gap = q[np.arange(m), dom[:, 0]] - q[np.arange(m), v]
        t2 = tol * scale2(d, p) * 10
        mon.check('dual-agrees', bool(np.all(np.abs(gap) <= t2)), gap=gap, tol=t2)
    mon.check('pure', np.array_equal(p, keep))


def observe(mon, d, c, E, pos, p, idx, bary, dom, fundamental, tol, oracle):
    m, n = len(p), d['n']
    if not mon.check('shape', np.shape(idx) == (m,) and np.shape(bary) == (m, n + 1) and np.shape(dom) == (m, n + 1)):
        return
    # the domain is a flag: each element is a face of the next
    ok = True
    for k in range(n):
        lo = np.asarray(E[k])[dom[:, k]].reshape(m, -1)
        hi = np.asarray(E[k + 1])[dom[:, k + 1]].reshape(m, -1)
        ok = ok and bool(np.all((lo[:, :, None] == hi[:, None, :]).any(2)))
    if not mon.check('flag', ok, domains=dom):
        return
    corners = np.stack([pos[k][dom[:, k]] for k in range(n + 1)], axis=1)
    b = picks.barycentric(d, corners, p)
    mon.check(oracle, bool(b.min() >= -tol), worst=b.min(), tol=tol, where=p[b.min(1).argmin()])
    # coordinates belong to the corners of the subdivided simplex
    s = fundamental.topology.elements[-1][idx]
    first = np.cumsum([0] + [len(e) for e in E])
    ids = dom + first[:-1][None]
    mon.check('flag-bary', np.array_equal(np.sort(s, axis=1), np.sort(ids, axis=1)), simplex=s, flag=ids)
    order = np.argsort(s, axis=1)
    mon.close('flag-bary', np.take_along_axis(np.asarray(bary), order, axis=1), b, rtol=10 * tol, atol=10 * tol)


def case_large(mon, rng, i):
    import scipy.spatial
    d = picks.large_mesh(rng, *[(2, 182), (3, 33)][i % 2])
    c = picks.build(d, typed=rng.random() < .5)
    p, t = picks.queries(rng, d, int(rng.integers(66000, 70000)))
    p = p + rng.normal(size=p.shape)
    mon.state(d['x'], p)
    mon.note(mesh=d['name'], points=len(p))
    got = np.asarray(c.pick_dual(p))
    want = scipy.spatial.cKDTree(d['x']).query(p)[0]
    mon.check('nearest', np.all(np.linalg.norm(d['x'][got] - p, axis=1) <= want + 1e-9), mesh=d['name'])


def case_crowd(mon, rng, i):
    """many points at once, or a few at a time"""
    while True:
        d = picks.sphere_mesh(rng, wellcentered=True) if i % 3 == 2 else picks.flat_mesh(rng, wellcentered=True)
        tol = c14.usable(mon, d)
        value, inner = picks.excess(d)
        if tol is not None and inner > 3e-2 and value > 1e-3:
            break
    c = picks.build(d, typed=rng.random() < .5)
    p, t = picks.queries(rng, d, 66000 + int(rng.integers(1000)) if i < 2 else int(rng.integers(1100, 5000)))
    mon.state(d['x'], d['cells'], p)
    mon.note(mesh=d['name'], points=len(p))
    a, b = picks.crowd(rng, c.pick_dual, p)
    ok = np.all(a == b) if d['w'] is None and not d['spherical'] else np.mean(a != b) < .01
    mon.check('crowd', ok, what='dual', differ=np.flatnonzero(a != b)[:5])
    for hint in (False, True):
        if hint:
            h = rng.integers(len(c.pick_fundamental_precomp[1]), size=len(p))
            q = np.arange(len(p))
            a, b = picks.crowd(rng, lambda k: c.pick_fundamental(p[k], domain_idx=h[k]), q)
        else:
            a, b = picks.crowd(rng, c.pick_fundamental, p)
        inside = b[1].min(axis=1) > 1e3 * tol
        mon.eq('crowd', a[0][inside], b[0][inside], what='domain', hint=hint)
        mon.eq('crowd', a[2][inside], b[2][inside], what='flag', hint=hint)
        mon.close('crowd', a[1][inside], b[1][inside], atol=10 * tol, what='coordinates', hint=hint)


CASES = dict(dual=case_dual, fundamental=case_fundamental, large=case_large, crowd=case_crowd)
PLAN = dict(quick=dict(dual=600, fundamental=500, large=2, crowd=8), thorough=dict(dual=6000, fundamental=5000, large=8, crowd=80))
