"""C12 Euclidean geometry primitives"""
import itertools
import math
from fractions import Fraction as F

import numpy as np
from vmon import batch, geo

PROP = 'C12'
RULE = ('simplices with 0..4 dimensions in 1..5 dimensional space, shapes from regular to 100:1, scales 1e-6..1e6, offsets to 1e4 sizes, batches of rank 0-2 that mix '
        'scales and shapes, random corner order, random power weights; every primitive is compared with exact rational arithmetic on the float inputs; batches up to 70000 item by item; a state is one batch')
REQUIRED = {'circumcenter': 100, 'power-center': 100, 'equidistant': 200, 'volume': 100, 'signed-volume': 40, 'normals': 60, 'gradients': 60, 'angles': 40,
            'segment-normal': 40, 'wellcentered': 60, 'cocircular': 20, 'thin': 100, 'right': 100, 'batch': 3000}


# -- exact arithmetic
def exact(a):
    return [[F(float(v)) for v in r] for r in a]


def solve(A, b):
    n = len(A)
    M = [list(A[i]) + [b[i]] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(M[r][i]))
        if M[p][i] == 0:
            return None
        M[i], M[p] = M[p], M[i]
        for r in range(n):
            if r != i and M[r][i]:
                f = M[r][i] / M[i][i]
                M[r] = [u - f * v for u, v in zip(M[r], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]


def det(A):
    A = [list(r) for r in A]
    n, d = len(A), F(1)
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i]), None)
        if p is None:
            return F(0)
        if p != i:
            A[i], A[p] = A[p], A[i]
            d = -d
        d *= A[i][i]
        for r in range(i + 1, n):
            f = A[r][i] / A[i][i]
            A[r] = [u - f * v for u, v in zip(A[r], A[i])]
    return d


def power_center(x, w=None):
    """exact barycentric coordinates of the power centre, and the centre relative to the first corner"""
    n = len(x) - 1
    w = [F(0)] * (n + 1) if w is None else [F(float(v)) for v in w]
    e = [[a - b for a, b in zip(p, x[0])] for p in x[1:]]
    G = [[sum(a * b for a, b in zip(p, q)) for q in e] for p in e]
    a = solve(G, [(G[i][i] - (w[i + 1] - w[0])) / 2 for i in range(n)]) if n else []
    bary = [1 - sum(a)] + list(a)
    c = [sum(s * p[k] for s, p in zip(a, e)) for k in range(len(x[0]))]
    return np.array([float(v) for v in bary]), np.array([float(v) for v in c]), math.sqrt(float(det(G))) / math.factorial(n) if n else 1.


def simplices(rng):
    """batch of simplices; (points [..., n+1, N], flat list)"""
    N = int(rng.integers(1, 6))
    n = int(rng.integers(0, min(N, 4) + 1))
    gu = [(), (int(rng.integers(1, 5)),), (2, int(rng.integers(1, 4)))][rng.integers(3)]
    out = []
    for _ in range(int(np.prod(gu, dtype=int))):
        for _ in range(200):
            x = rng.normal(size=(n + 1, N))
            if rng.random() < .3:
                x = x * np.exp(rng.uniform(-1.5, 1.5, N))
            if rng.random() < .2:
                x = np.rint(x * 3)
            if n == 0 or geo.flatness(x[None])[0] > .02:
                break
        else:
            x = rng.normal(size=(n + 1, N)) * .1 + np.eye(max(n + 1, N))[:n + 1, :N] if n <= N - 1 else np.vstack([np.zeros(N), np.eye(N)])[:n + 1]
        scale = 10. ** rng.uniform(-6, 6)
        x = (x + rng.normal(size=N) * rng.choice([0, 0, 1, 100, 1e4])) * scale
        out.append(x[rng.permutation(n + 1)])
    return np.array(out).reshape(gu + (n + 1, N)), np.array(out), n, N, gu


def size_of(x):
    """(extent, distance from the origin) per simplex"""
    ext = np.linalg.norm(x[:, :, None] - x[:, None], axis=-1).max(axis=(1, 2))
    far = np.abs(x).max(axis=(1, 2))
    return np.where(ext > 0, ext, np.where(far > 0, far, 1)), far


def rel(mon, oracle, got, want, scale, tol, **kw):
    """per-item error over per-item scale, within tol per item"""
    got = np.asarray(got, float)
    if got.shape != want.shape:
        return mon.check(oracle, False, why='shape', got=got.shape, want=want.shape, **kw)
    err = np.abs(got - want).reshape(len(want), -1).max(1, initial=0) / scale
    return mon.check(oracle, bool(np.all(err <= tol)), err=err, tol=tol, got=got, want=want, **kw)


def arguments(rng, x):
    """the documented argument is array-like"""
    return x.tolist() if rng.random() < .2 else x


def case_centers(mon, rng, i):
    from pycomplex.geometry import euclidian as E
    p, x, n, N, gu = simplices(rng)
    ext, far = size_of(x)
    mon.state(p)
    mon.note(n=n, N=N, batch=gu, ext=ext, far=far)
    flat = np.array([1. if n == 0 else geo.flatness(a[None])[0] for a in x])
    tol = (1e-11 + 1e-14 * far / ext) / flat ** 2 * 10
    ref = [power_center(exact(a)) for a in x]
    bary, c = np.array([r[0] for r in ref]), np.array([r[1] for r in ref])
    keep = p.copy()
    got = E.circumcenter_barycentric(arguments(rng, p))
    mon.check('shape', np.shape(got) == gu + (n + 1,), got=np.shape(got))
    got = np.reshape(got, (len(x), -1))
    rel(mon, 'circumcenter', got, bary, 1 + np.abs(bary).max(1), tol)
    for name, f in [('circumcenter', E.circumcenter), ('construction', E.circumcenter_construction)]:
        with mon.label(name):
            if name == 'construction' and n == 0:
                continue
            got = f(arguments(rng, p))
            mon.check('shape', np.shape(got) == gu + (N,), got=np.shape(got))
            got = np.reshape(got, (len(x), -1))
            rel(mon, 'circumcenter', got - x[:, 0], c, ext + np.linalg.norm(c, axis=1), tol)
            # defining equation
            r2 = ((x - got[:, None]) ** 2).sum(-1)
            mon.check('equidistant', bool(np.all(np.ptp(r2, axis=1) <= tol * (ext ** 2 + r2.max(1)) * 10)), radii=r2, tol=tol)
    # power centres
    w = rng.normal(size=(len(x), n + 1)) * (ext ** 2)[:, None] * rng.choice([0, .1, 1])
    ref = [power_center(exact(a), b) for a, b in zip(x, w)]
    bary, c = np.array([r[0] for r in ref]), np.array([r[1] for r in ref])
    keepw = w.copy()
    wb = w.reshape(gu + (n + 1,))
    for name, f in [('barycentric', E.circumcenter_barycentric), ('cayley-menger', E.circumcenter_barycentric_weighted)]:
        with mon.label(name):
            if name == 'cayley-menger' and (ext.max() > 1e3 or ext.min() < 1e-3):
                # not scale-free by its own formulation (unit border against squared lengths)
                mon.skip('cayley-menger at extreme scale')
                continue
            if n == 0 and name == 'cayley-menger':
                continue
            got = np.reshape(f(arguments(rng, p), arguments(rng, wb)), (len(x), -1))
            rel(mon, 'power-center', got, bary, 1 + np.abs(bary).max(1), tol * (1 if name == 'barycentric' else 1e3 * (1 + ext ** 2 + ext ** -2)))
    if n:
        got = np.reshape(E.circumcenter_construction(arguments(rng, p), arguments(rng, wb)), (len(x), -1))
        rel(mon, 'power-center', got - x[:, 0], c, ext + np.linalg.norm(c, axis=1), tol, what='construction')
        r2 = ((x - got[:, None]) ** 2).sum(-1) - w
        mon.check('equidistant', bool(np.all(np.ptp(r2, axis=1) <= tol * (ext ** 2 + np.abs(r2).max(1)) * 10)), powers=r2, tol=tol)
    for a, f in zip(x, flat):
        b = power_center(exact(a))[0]
        if abs(b.min() - 1e-8) > 1e-6:
            mon.eq('wellcentered', bool(E.is_wellcentered(a)), bool(b.min() > 1e-8), bary=b)
    mon.check('pure', np.array_equal(keep, p) and np.array_equal(keepw, w))


def case_volumes(mon, rng, i):
    from pycomplex.geometry import euclidian as E
    p, x, n, N, gu = simplices(rng)
    ext, far = size_of(x)
    mon.state(p)
    mon.note(n=n, N=N, batch=gu)
    keep = p.copy()
    vol = np.array([power_center(exact(a))[2] for a in x])
    tol = 1e-11 + 1e-14 * far / ext
    got = E.unsigned_volume(arguments(rng, p))
    mon.check('shape', np.shape(got) == gu, got=np.shape(got))
    fl = np.array([1. if n == 0 else geo.flatness(a[None])[0] for a in x])
    rel(mon, 'volume', np.reshape(got, len(x)), vol, np.where(vol > 0, vol, 1), tol / fl * 10)
    if n == N:
        want = np.array([float(det([[a - b for a, b in zip(r, q[0])] for r in q[1:]])) / math.factorial(n) for q in map(exact, x)])
        got = np.reshape(E.signed_volume(arguments(rng, p)), len(x))
        rel(mon, 'signed-volume', got, want, np.abs(want), tol / fl * 10)
    else:
        mon.raises('rejects', ValueError, lambda: E.signed_volume(p))
    if N == 1:
        mon.raises('rejects', ValueError, lambda: E.unsigned_volume(np.zeros((N + 2, N))))
    mon.check('pure', np.array_equal(keep, p))


def case_normals(mon, rng, i):
    from pycomplex.geometry import euclidian as E
    while True:
        p, x, n, N, gu = simplices(rng)
        if n:
            break
    ext, far = size_of(x)
    mon.state(p)
    mon.note(n=n, N=N, batch=gu)
    keep = p.copy()
    fl = np.array([geo.flatness(a[None])[0] for a in x])
    tol = (1e-11 + 1e-14 * far / ext) / fl ** 2 * 10
    # the gradient of barycentric coordinate i with respect to position
    grad = np.array([bary_gradients(a) for a in x])
    norm = np.linalg.norm(grad, axis=-1, keepdims=True)
    got = E.simplex_normals(arguments(rng, p))
    mon.check('shape', np.shape(got) == p.shape, got=np.shape(got))
    rel(mon, 'normals', np.reshape(got, x.shape), grad / norm, np.ones(len(x)), tol)
    # volume gradient: height direction times opposing facet measure
    facet = np.array([[power_center(exact(np.delete(a, j, 0)))[2] for j in range(n + 1)] for a in x])
    want = grad / norm * facet[..., None]
    got = np.reshape(E.simplex_gradients(arguments(rng, p)), x.shape)
    rel(mon, 'gradients', got, want, np.abs(want).max(axis=(1, 2)), tol)
    if n == 2:
        ang = []
        for a in x:
            q = exact(a)
            r = []
            for j in range(3):
                u = [s - t for s, t in zip(q[j - 2], q[j])]
                v = [s - t for s, t in zip(q[j - 1], q[j])]
                uv, uu, vv = (float(sum(s * t for s, t in zip(k, l))) for k, l in [(u, v), (u, u), (v, v)])
                cr = float(sum(s * s for s in u) * sum(t * t for t in v) - sum(s * t for s, t in zip(u, v)) ** 2)
                r.append(math.atan2(math.sqrt(cr), uv))
            ang.append(r)
        ang = np.array(ang)
        got = np.reshape(E.triangle_angles(arguments(rng, p)), ang.shape)
        rel(mon, 'angles', got, ang, np.ones(len(x)), (1e-11 + 1e-14 * far / ext) * 10 / fl ** 2)
    mon.check('pure', np.array_equal(keep, p))


def bary_gradients(a):
    """d lambda_i / d x within the plane of the simplex, relative to the first corner"""
    q = exact(a)
    n = len(q) - 1
    e = [[s - t for s, t in zip(r, q[0])] for r in q[1:]]
    G = [[sum(s * t for s, t in zip(u, v)) for v in e] for u in e]
    rows = []
    for j in range(n):
        col = solve(G, [F(int(j == k)) for k in range(n)])
        rows.append([sum(col[k] * e[k][m] for k in range(n)) for m in range(len(q[0]))])
    first = [-sum(r[m] for r in rows) for m in range(len(q[0]))]
    return np.array([[float(v) for v in r] for r in [first] + rows])


def case_segments(mon, rng, i):
    from pycomplex.geometry import euclidian as E
    N = int(rng.integers(1, 6))
    gu = [(), (int(rng.integers(1, 5)),), (2, 2)][rng.integers(3)]
    x = rng.normal(size=gu + (N, N)) * 10. ** rng.uniform(-3, 3, gu + (1, 1)) if gu else rng.normal(size=(N, N))
    integer = rng.random() < .2
    if integer:
        x = np.rint(x * 5 / np.abs(x).max()).astype(float)
    mon.state(x)
    mon.note(N=N, batch=gu, integer=integer)
    keep = x.copy()
    got = np.asarray(E.segment_normals(arguments(rng, x)))
    if not mon.check('shape', got.shape == gu + (N,), got=got.shape):
        return
    f, g = x.reshape(-1, N, N), got.reshape(-1, N)
    for a, b in zip(f, g):
        q = exact(a)
        e = [[s - t for s, t in zip(r, q[0])] for r in q[1:]]
        # cofactors: dot(normal, v) is the determinant of the edges bordered by v (up to one sign per dimension)
        want = np.array([float((-1) ** c * det([[v for k, v in enumerate(r) if k != c] for r in e])) for c in range(N)])
        mon.close('segment-normal', b, want, rtol=1e-9, atol=1e-12 * np.abs(a).max() ** (N - 1))
        vol = power_center(q)[2] if N > 1 and np.abs(want).max() > 0 else 1.
        mon.close('segment-normal', np.linalg.norm(b) / math.factorial(N - 1), vol if np.abs(want).max() > 0 else 0., rtol=1e-9, atol=1e-12 * np.abs(a).max() ** (N - 1))
    mon.check('pure', np.array_equal(keep, x))


def case_cocircular(mon, rng, i):
    """more points than a simplex, all on one sphere: the coordinates reproduce its centre"""
    from pycomplex.geometry import euclidian as E
    N = int(rng.integers(2, 5))
    d = int(rng.integers(2, N + 1))
    m = int(rng.integers(d + 2, d + 8))
    x = rng.normal(size=(m, d))
    x /= np.linalg.norm(x, axis=1, keepdims=True)
    q = geo.rotation(rng, N)[:d]
    c = rng.normal(size=N) * rng.choice([0, 1, 10])
    r = 10. ** rng.uniform(-2, 2)
    c = c * r
    y = c + r * x.dot(q)
    if np.linalg.svd(x - x.mean(0))[1][-1] < .3:
        mon.skip('nearly degenerate')
        return
    mon.state(y)
    mon.note(points=m, d=d, N=N)
    b = E.circumcenter_barycentric(y)
    mon.close('cocircular', b.sum(), 1., rtol=1e-8)
    mon.close('cocircular', b.dot(y - c) / r, np.zeros(N), atol=1e-7)


def case_thin(mon, rng, i):
    """triangles down to straight ones and to coincident corners, and exact right angles"""
    from pycomplex.geometry import euclidian as E
    n, N = int(rng.integers(1, 30)), int(rng.integers(2, 5))
    p = rng.normal(size=(n, 2, N))
    t = rng.random((n, 1))
    c = p[:, 0] * t + p[:, 1] * (1 - t) + rng.normal(size=(n, N)) * rng.choice([0, 1e-13, 1e-11, 1e-9, 1e-8, 1e-7, 1e-5], size=(n, 1))
    x = np.concatenate([p, c[:, None]], axis=1)[:, rng.permutation(3)] * 10. ** rng.uniform(-6, 6)
    mon.state(x)
    mon.note(n=n, N=N)
    got = E.triangle_angles(x)
    u, v = np.roll(x, 1, axis=1) - x, np.roll(x, -1, axis=1) - x
    f = lambda v: v / np.linalg.norm(v, axis=-1, keepdims=True)
    u, v = f(u), f(v)
    want = 2 * np.arctan2(np.linalg.norm(u - v, axis=-1), np.linalg.norm(u + v, axis=-1))
    mon.check('thin', bool(np.isfinite(got).all()) and bool((np.abs(got - want) <= 1e-6).all()) and bool((np.abs(got.sum(-1) - np.pi) <= 1e-6).all()), got=got, want=want)
    k = int(rng.integers(3))
    x[:, k] = x[:, k - 1]
    got = E.triangle_angles(x)
    mon.check('thin', bool(np.isfinite(got).all()) and bool((np.abs(got.sum(-1) - np.pi) <= 1e-6).all()), got=got, what='two corners coincide')
    # a right angle puts the circumcenter on an edge: not well-centered, whatever the position and order
    s = rng.integers(1, 9, size=2)
    o = rng.integers(-20, 20, size=2)
    tri = np.array([[0, 0], [s[0], 0], [0, s[1]]])[rng.permutation(3)] + o
    mon.check('right', not E.is_wellcentered(tri), triangle=tri)
    d = E.circumcenter_barycentric(tri)
    mon.check('right', abs(np.sort(d)[0]) <= 1e-9 and np.allclose(np.sort(d)[1:], .5), bary=d)


def case_batch(mon, rng, i):
    """items of a batch do not see each other; not even nearly flat ones next to fat ones"""
    from pycomplex.geometry import euclidian as E
    m = batch.size(rng)
    N = int(rng.integers(2, 5))
    n = int(rng.integers(1, N + 1))
    flat = np.where(rng.random((m, 1, 1)) < .5, 1, 10. ** rng.uniform(-8, 0, (m, 1, 1)))
    x = rng.normal(size=(m, n + 1, N))
    x[..., 1:] *= flat
    x = x.dot(geo.rotation(rng, N).T) * 10. ** rng.uniform(-4, 4, (m, 1, 1))
    full = rng.normal(size=(m, N + 1, N)) * 10. ** rng.uniform(-4, 4, (m, 1, 1))
    ext = np.abs(x - x[:, :1]).max(axis=(1, 2))
    w = rng.normal(size=x.shape[:2]) * .1 * ext[:, None] ** 2
    tri = rng.normal(size=(m, 3, int(rng.integers(2, 4))))
    F = [('circumcenter_barycentric', E.circumcenter_barycentric, (x,), 1e-7), ('weighted', E.circumcenter_barycentric, (x, w), 1e-7), ('unsigned_volume', E.unsigned_volume, (full[:, :n + 1],), 0),
         ('signed_volume', E.signed_volume, (full,), 0), ('segment_normals', E.segment_normals, (full[:, 1:],), 0), ('simplex_normals', E.simplex_normals, (full,), 0),
         ('simplex_gradients', E.simplex_gradients, (full,), 0), ('triangle_angles', E.triangle_angles, (tri,), 1e-12)]
    mon.state(x, w, tri)
    mon.note(items=m, n=n, N=N)
    for k in rng.permutation(len(F))[:3 if m > 1000 else 5]:
        name, f, args, absolute = F[k]
        batch.alone(mon, rng, name, f, args, 1e-9, absolute)


CASES = dict(batch=case_batch, thin=case_thin, centers=case_centers, volumes=case_volumes, normals=case_normals, segments=case_segments, cocircular=case_cocircular)
PLAN = dict(quick=dict(batch=600, thin=2400, centers=4800, volumes=3000, normals=3000, segments=2400, cocircular=960),
            thorough=dict(batch=4000, thin=10000, centers=8000, volumes=4000, normals=4000, segments=2000, cocircular=1500))
