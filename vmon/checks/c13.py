"""C13 spherical geometry primitives"""
import itertools
import math

import numpy as np
from vmon import batch as batches
from vmon import geo
from vmon.checks.c10 import arc, excess, unit

PROP = 'C13'
RULE = ('arcs, triangles and tetrahedra on spheres of dimension 1-3: separations from 1e-9 to pi-1e-9, needles, hemispherical and octant triangles, batches of rank 0-2, random '
        'rotation, mirroring and corner order; compared in extended precision with independent formulas; a state is one batch of corners')
REQUIRED = {'edge-length': 200, 'area': 200, 'angle-sum': 100, 'additive': 60, 'invariant': 60, 'circumcenter': 100, 'equidistant': 100, 'intersection': 60, 'voronoi-parts': 40,
            'angles': 60, 'batch': 3000}
LD = np.longdouble


def batch(rng):
    return [(), (int(rng.integers(1, 6)),), (int(rng.integers(1, 3)), int(rng.integers(1, 4)))][rng.integers(3)]


def pair(rng, d, gu):
    """unit vectors a, b with separations spread over all scales"""
    a = unit(rng.normal(size=gu + (d,)))
    t = rng.normal(size=gu + (d,))
    t = unit(t - (t * a).sum(-1, keepdims=True) * a)
    ang = np.where(rng.random(gu) < .4, 10. ** rng.uniform(-9, 0, gu), rng.uniform(0, np.pi, gu))
    ang = np.where(rng.random(gu) < .2, np.pi - ang, ang)[..., None]
    b = unit(np.cos(ang) * a + np.sin(ang) * t)
    same = rng.random(gu) < .03
    b = np.where(same[..., None], a, b) if gu else b
    return a, b


def triangle(rng, gu, hard=True):
    """corners [..., 3, 3] of triangles of all sizes, with angles bounded away from 0 unless hard"""
    n = int(np.prod(gu, dtype=int))
    out = []
    while len(out) < n:
        how = rng.integers(5)
        if how == 4:                                             # thin
            x = unit(rng.normal(size=(3, 3)))
            x[2] = unit(x[0] * rng.uniform(.2, 1) + x[1] * rng.uniform(.2, 1) + np.cross(x[0], x[1]) * 10. ** rng.uniform(-7, -1))
        elif how == 0:
            x = unit(rng.normal(size=(3, 3)))
        elif how == 1:                                           # small
            c = unit(rng.normal(size=3))
            x = unit(c + rng.normal(size=(3, 3)) * 10. ** rng.uniform(-4, -.5))
        elif how == 2:                                           # octant like
            x = unit(np.eye(3) + rng.normal(size=(3, 3)) * rng.choice([0, 1e-9, .1]))
            if rng.random() < .3:
                x = x * rng.choice([-1, 1], 3)
        else:                                                    # stretched
            x = unit(rng.normal(size=(3, 3)) * np.array([1, 1, 10. ** rng.uniform(-2, 0)]))
        x = x.dot(geo.rotation(rng, 3))[rng.permutation(3)]
        if hard or precision(x[None])[0] < 1e-11:
            out.append(x)
    return np.array(out).reshape(gu + (3, 3))


def reference_angles(x):
    """interior angles [..., 3] by atan2 in extended precision"""
    x = np.asarray(x, LD)
    r = []
    for i in range(3):
        p, q, s = x[..., i, :], x[..., i - 2, :], x[..., i - 1, :]
        r.append(np.arctan2(np.abs(np.einsum('...i,...i->...', p, np.cross(q, s))), np.einsum('...i,...i->...', np.cross(p, q), np.cross(p, s))))
    return np.stack(r, axis=-1)


def reference_area(x):
    x = np.asarray(x, LD)
    return np.abs(excess(x[..., 0, :], x[..., 1, :], x[..., 2, :]))


def precision(x):
    """what rounding of the corners and an arccos of the angles between planes can cost, per triangle"""
    l = np.stack([arc(x[..., i, :], x[..., i - 1, :]) for i in range(3)], axis=-1)
    l = np.minimum(l, np.pi - l).min(-1)
    s = np.maximum(np.sin(np.asarray(reference_angles(x), float)), 1e-12)
    d = 2e-14 / np.maximum(l, 1e-15)
    d = d[..., None]
    return (np.minimum(d / s, np.sqrt(d))).sum(-1) + 1e-14


def within(mon, oracle, got, want, tol, **kw):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return mon.check(oracle, False, why='shape', got=got.shape, want=want.shape, **kw)
    err = np.abs(got - want)
    return mon.check(oracle, bool(np.all(err <= tol)), err=err, tol=tol, got=got, want=want, **kw)


def case_edges(mon, rng, i):
    from pycomplex.geometry import spherical as S
    d = int(rng.integers(2, 5))
    gu = batch(rng)
    a, b = pair(rng, d, gu)
    mon.state(a, b)
    mon.note(d=d, batch=gu)
    ka, kb = a.copy(), b.copy()
    A, B = np.asarray(a, LD), np.asarray(b, LD)
    want = np.asarray(2 * np.arctan2(np.sqrt(((A - B) ** 2).sum(-1)), np.sqrt(((A + B) ** 2).sum(-1))), float)
    tol = 4e-15 + 1e-13 * want
    got = S.edge_length(a, b)
    within(mon, 'edge-length', got, want, tol)
    within(mon, 'edge-length', S.edge_length(b, a), got, 1e-15, what='symmetric')
    within(mon, 'edge-length', S.unsigned_volume(np.stack([a, b], axis=-2)), want, tol, what='unsigned_volume')
    within(mon, 'edge-length', S.edge_length(a, a), np.zeros(gu), 1e-15, what='zero')
    within(mon, 'edge-length', np.asarray(S.edge_length(a, -b)) + got, np.full(gu, np.pi), 1e-14, what='supplement')
    c = unit(rng.normal(size=gu + (d,)))
    mon.check('triangle-inequality', bool(np.all(S.edge_length(a, b) <= S.edge_length(a, c) + S.edge_length(c, b) + 1e-14)))
    # midpoint
    ok = want < np.pi - 1e-3
    if np.all(ok):
        m = np.asarray(S.circumcenter(np.stack([a, b], axis=-2)))
        within(mon, 'circumcenter', np.linalg.norm(m, axis=-1), np.ones(gu), 1e-14, what='unit')
        h = want / 2
        within(mon, 'equidistant', arc(m, a), h, 1e-12)
        within(mon, 'equidistant', arc(m, b), h, 1e-12)
    within(mon, 'volume-0', S.unsigned_volume(a[..., None, :]), np.ones(gu), 0)
    within(mon, 'circumcenter', S.circumcenter(a[..., None, :]), a, 1e-15, what='vertex')
    mon.check('pure', np.array_equal(a, ka) and np.array_equal(b, kb))


def case_triangles(mon, rng, i):
    from pycomplex.geometry import spherical as S
    gu = batch(rng)
    x = triangle(rng, gu, hard=i % 2)
    mon.state(x)
    mon.note(batch=gu, x=x)
    keep = x.copy()
    tol = precision(x)
    if np.any(excess_denominator(x) < 1e-4):
        mon.skip('great-circle triangle')
        return
    want = reference_area(x)
    got = S.unsigned_volume(x)
    within(mon, 'area', got, want, tol)
    mon.check('area-sign', bool(np.all(np.asarray(got) >= 0)))
    a, b, c = (x[..., k, :] for k in range(3))
    within(mon, 'area', S.triangle_area_from_corners(a, b, c), want, tol)
    n = [np.cross(x[..., k - 2, :], x[..., k - 1, :]) for k in range(3)]
    s = 10. ** rng.uniform(-3, 3)
    within(mon, 'area', S.triangle_area_from_normals(*[v * s for v in n]), want, tol)
    within(mon, 'angle-sum', np.asarray(got) + np.pi, reference_angles(x).sum(-1), tol)
    # invariance
    perm = rng.permutation(3)
    q = geo.rotation(rng, 3) * rng.choice([-1, 1])
    within(mon, 'invariant', S.unsigned_volume(x[..., perm, :]), got, 2 * tol)
    within(mon, 'invariant', S.unsigned_volume(x.dot(q)), got, 4 * tol)
    # additivity: a point on the inside splits the triangle in three, a point on an edge in two
    w = rng.dirichlet(np.ones(3) * 2)
    p = unit(np.einsum('...ij,i->...j', x, w))
    parts = [np.stack([p, x[..., k - 2, :], x[..., k - 1, :]], axis=-2) for k in range(3)]
    ptol = sum(precision(t) for t in parts) + tol
    within(mon, 'additive', sum(S.unsigned_volume(t) for t in parts), got, ptol)
    m = unit(a * w[0] + b * (1 - w[0]))
    parts = [np.stack([a, m, c], axis=-2), np.stack([m, b, c], axis=-2)]
    within(mon, 'additive', sum(S.unsigned_volume(t) for t in parts), got, sum(precision(t) for t in parts) + tol)
    if len(gu) == 2:
        # the voronoi parts: a third way to split, half of each of the two triangles that touch a corner
        cc = x.mean(-2)
        cc = unit(cc)
        t = [np.stack([cc, x[..., k - 2, :], x[..., k - 1, :]], axis=-2) for k in range(3)]
        area = np.stack([np.asarray(reference_area(v), float) for v in t], axis=-1)
        want = np.stack([(area[..., k - 2] + area[..., k - 1]) / 2 for k in range(3)], axis=-1)
        within(mon, 'voronoi-parts', S.triangle_areas_around_center(cc, x), want, sum(precision(v) for v in t)[..., None])
    mon.raises('rejects', ValueError, lambda: S.unsigned_volume(np.ones(gu + (3, 4)) / 2))
    mon.check('pure', np.array_equal(x, keep))


def excess_denominator(x):
    a, b, c = (x[..., k, :] for k in range(3))
    num = np.abs(np.einsum('...i,...i->...', a, np.cross(b, c)))
    den = 1 + (a * b).sum(-1) + (b * c).sum(-1) + (c * a).sum(-1)
    return np.hypot(num, den)


def case_centers(mon, rng, i):
    from pycomplex.geometry import spherical as S
    d = int(rng.integers(2, 5))
    k = int(rng.integers(2, d + 1))
    gu = batch(rng)
    n = int(np.prod(gu, dtype=int))
    out = []
    while len(out) < n:
        c = unit(rng.normal(size=d))
        x = unit(c + rng.normal(size=(k, d)) * 10. ** rng.uniform(-4, .3))
        cc, _ = geo.centers(x[None])
        if geo.flatness(x[None])[0] > .05 and np.linalg.norm(cc) > .05:
            out.append(x)
    x = np.array(out).reshape(gu + (k, d))
    mon.state(x)
    mon.note(d=d, k=k, batch=gu)
    keep = x.copy()
    got = np.asarray(S.circumcenter(x))
    want = unit(geo.centers(x.reshape(-1, k, d))[0]).reshape(gu + (d,))
    size = np.linalg.norm(x[..., :, None, :] - x[..., None, :, :], axis=-1).max(axis=(-1, -2))
    tol = 1e-11 + 1e-13 / size
    within(mon, 'circumcenter', got, want, tol[..., None] if gu else tol)
    if got.shape == want.shape:
        within(mon, 'circumcenter', np.linalg.norm(got, axis=-1), np.ones(gu), 1e-13, what='unit')
        r = arc(got[..., None, :], x)
        within(mon, 'equidistant', np.ptp(r, axis=-1), np.zeros(gu), tol)
    if k == 2:
        within(mon, 'circumcenter', S.edge_circumcenter(x), want, 1e-12)
        mon.raises('rejects', ValueError, lambda: S.edge_circumcenter(np.ones((3, d))))
    if d == 3 and k == 3:
        t = np.asarray(S.triangle_circumcenter(x))               # the pole it picks follows the corner order
        within(mon, 'circumcenter', np.abs((t * want).sum(-1)), np.ones(gu), 1e-12 + 1e-13 / size, what='triangle_circumcenter')
        within(mon, 'equidistant', np.ptp(arc(t[..., None, :], x), axis=-1), np.zeros(gu), tol)
        within(mon, 'circumcenter', S.triangle_circumcenter(x[..., [1, 2, 0], :]), t, 1e-10 + 1e-12 / size[..., None] if gu else 1e-10 + 1e-12 / size, what='cyclic')
        within(mon, 'circumcenter', S.triangle_circumcenter(x[..., [1, 0, 2], :]), -t, 1e-10 + 1e-12 / size[..., None] if gu else 1e-10 + 1e-12 / size, what='swapped')
    mon.check('pure', np.array_equal(x, keep))


def case_intersections(mon, rng, i):
    from pycomplex.geometry import spherical as S
    gu = batch(rng)
    # two arcs that cross at a known point
    p = unit(rng.normal(size=gu + (3,)))
    u = rng.normal(size=gu + (3,))
    u = unit(u - (u * p).sum(-1, keepdims=True) * p)
    v = np.cross(p, u)
    ang = (rng.uniform(.05, np.pi - .05, gu) * rng.choice([-1, 1], size=gu))[..., None]
    w = np.cos(ang) * u + np.sin(ang) * v
    s = 10. ** rng.uniform(-2, 0, gu)[..., None]
    t = [s * rng.uniform(.2, 1, gu)[..., None] for _ in range(4)]
    s0, e0 = np.cos(t[0]) * p - np.sin(t[0]) * u, np.cos(t[1]) * p + np.sin(t[1]) * u
    s1, e1 = np.cos(t[2]) * p - np.sin(t[2]) * w, np.cos(t[3]) * p + np.sin(t[3]) * w
    mon.state(s0, e0, s1, e1)
    mon.note(batch=gu)
    keep = [k.copy() for k in (s0, e0, s1, e1)]
    got = np.asarray(S.intersect_edges(s0, e0, s1, e1))
    if not mon.check('shape', got.shape == gu + (3,)):
        return
    tol = 1e-13 / np.min(np.broadcast_arrays(*t)) / .05
    within(mon, 'intersection', np.linalg.norm(got, axis=-1), np.ones(gu), 1e-13, what='unit')
    for a, b in [(s0, e0), (s1, e1)]:
        within(mon, 'intersection', (got * unit(np.cross(a, b))).sum(-1), np.zeros(gu), tol, what='on the great circle')
    within(mon, 'intersection', np.abs((got * p).sum(-1)), np.ones(gu), 1e-9, what='at the crossing or its antipode')
    # the sense: cross of the two plane normals
    sense = np.sign((np.cross(np.cross(s0, e0), np.cross(s1, e1)) * p).sum(-1))
    within(mon, 'intersection', got, p * sense[..., None], 10 * tol, what='sense')
    mon.check('pure', all(np.array_equal(a, b) for a, b in zip(keep, (s0, e0, s1, e1))))


def case_mesh_angles(mon, rng, i):
    """angles of flat triangles as the limit of small spherical ones, and Gauss-Bonnet around a vertex"""
    from pycomplex.geometry import spherical as S
    from pycomplex.geometry import euclidian as E
    c = unit(rng.normal(size=3))
    q = geo.rotation(rng, 3)
    m = int(rng.integers(3, 9))
    ang = np.sort(rng.uniform(0, 2 * np.pi, m))
    if np.ptp(ang) < .1 or np.diff(ang).min() < .05 or ang[0] + 2 * np.pi - ang[-1] < .05 or max(np.diff(ang).max(), ang[0] + 2 * np.pi - ang[-1]) > 3:
        mon.skip('fan not convex')
        return
    r = rng.uniform(.1, 1.2)
    rim = np.stack([np.sin(r) * np.cos(ang), np.sin(r) * np.sin(ang), np.full(m, np.cos(r))], axis=-1).dot(q)
    tip = np.array([0, 0, 1.]).dot(q)
    fan = np.stack([np.broadcast_to(tip, (m, 3)), rim, np.roll(rim, -1, axis=0)], axis=1)
    mon.state(fan)
    area = S.unsigned_volume(fan)
    mon.close('angles', area.sum() + m * np.pi, reference_angles(fan).sum(), atol=1e-11)
    mon.close('angles', np.asarray(reference_angles(fan), float)[:, 0].sum(), 2 * np.pi, atol=1e-11)
    flat = E.triangle_angles(fan)
    mon.close('angles', flat.sum(-1), np.full(m, np.pi), atol=1e-10)


def case_batch(mon, rng, i):
    """triangles and arcs of a batch do not see each other"""
    from pycomplex.geometry import spherical as S
    m = batches.size(rng)
    d = int(rng.integers(2, 5))
    size = 10. ** rng.uniform(-3, 0, (m, 1, 1))
    x = unit(rng.normal(size=(m, 1, 3)) * .3 / size + rng.normal(size=(m, 3, 3)))
    y = unit(rng.normal(size=(m, 3, 3)))
    z = unit(rng.normal(size=(m, int(rng.integers(1, 4 if d == 3 else 3)), d)))
    a, b = pair(rng, d, (m,))
    n = unit(np.cross(x, np.roll(x, -1, axis=1)))
    r = np.exp(rng.normal(size=(m, 1, 1)))
    F = [('edge_length', S.edge_length, (a, b), 1e-12), ('triangle_area_from_corners', S.triangle_area_from_corners, tuple(np.moveaxis(x, 1, 0)), 1e-12),
         ('triangle_area_from_normals', S.triangle_area_from_normals, tuple(np.moveaxis(n, 1, 0)), 1e-12), ('triangle_areas_around_center', S.triangle_areas_around_center, (x.mean(axis=1) / np.linalg.norm(x.mean(axis=1), axis=-1, keepdims=True), x), 1e-12),
         ('unsigned_volume', S.unsigned_volume, (z,), 1e-12), ('triangle_circumcenter', S.triangle_circumcenter, (y,), 1e-9), ('circumcenter', S.circumcenter, (z[:, :2],), 1e-9),
         ('intersect_edges', S.intersect_edges, (y[:, 0], y[:, 1], y[:, 2], np.ascontiguousarray(x[:, 0])), 1e-6)]
    mon.state(x, y, z, a, b)
    mon.note(items=m, d=d)
    for k in rng.permutation(len(F))[:3 if m > 1000 else 5]:
        name, f, args, absolute = F[k]
        batches.alone(mon, rng, name, f, args, 1e-9, absolute)


CASES = dict(batch=case_batch, edges=case_edges, triangles=case_triangles, centers=case_centers, intersections=case_intersections, fans=case_mesh_angles)
PLAN = dict(quick=dict(batch=1200, edges=4800, triangles=6000, centers=3600, intersections=2400, fans=1200),
            thorough=dict(batch=5000, edges=10000, triangles=15000, centers=10000, intersections=5000, fans=3000))
