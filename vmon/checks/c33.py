"""C33 small dense linear algebra helpers"""
import numpy as np
from vmon import batch as batches

PROP = 'C33'
RULE = ('single matrices and stacks of matrices of dimension 1 to 5 with prescribed spectra: generic, rank deficient, reflections, rotations, graded, tiny and huge, integer, plus exact special cases; '
        'each result is checked against the equations that define it; a state is one input')
REQUIRED = {'dot': 60, 'normalized': 100, 'norms': 100, 'zeros': 60, 'polar': 60, 'rotation': 60, 'closest': 60, 'power-group': 60, 'power-one': 60, 'power-rotation': 30, 'plane': 60, 'angle': 60,
            'adjoint': 60, 'inverse': 60, 'null': 60, 'penrose': 100, 'pinv-rank': 40, 'cutoff': 40, 'pure': 100, 'batch': 3000}


def batch(rng):
    return tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 3))))


def orth(rng, n, sign=None):
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    if sign and np.linalg.det(Q) * sign < 0:
        Q[0] *= -1
    return Q


def scale_of(rng):
    return float(10. ** rng.uniform(-8, 8))


def case_normalized(mon, rng, i):
    from pycomplex.math import linalg
    b, n = batch(rng), int(rng.integers(1, 5))
    a = rng.normal(size=b + (n,)) * scale_of(rng) if rng.random() < .7 else rng.integers(-3, 4, size=b + (n,))
    c = rng.normal(size=b + (n,))
    keep = a.copy()
    mon.state(a)
    mon.close('dot', linalg.dot(a, c), (a * c).sum(-1), rtol=1e-12, atol=1e-12 * np.abs(a).max())
    axis = int(rng.integers(-a.ndim, a.ndim))
    order = rng.choice([1, 2, 3, np.inf])
    order = 2 if order == 2 else float(order)
    z = np.linalg.norm(a.astype(float), order, axis) == 0
    with np.errstate(all='ignore'):
        r, norms = linalg.normalized(a, axis=axis, ord=order, ignore_zeros=True, return_norm=True)
    want = np.linalg.norm(a.astype(float), order, axis)
    mon.close('norms', norms, want, rtol=1e-12)
    mon.eq('norms', norms.shape, want.shape)
    mon.close('normalized', r * np.expand_dims(want, axis), a, rtol=1e-10, atol=0)
    mon.close('normalized', np.linalg.norm(r, order, axis), np.where(z, 0., 1.), rtol=1e-10, what='unit')
    mon.check('zeros', not np.any(np.where(np.expand_dims(z, axis), r, 0)))
    if not z.any():
        mon.close('normalized', linalg.normalized(a, axis, order), r, rtol=1e-12)
        if order == 2 and axis in (-1, a.ndim - 1):
            mon.close('normalized', linalg.normalized(a), r, rtol=1e-12, what='default')
            mon.close('normalized', linalg.normalized(a.tolist()), r, rtol=1e-12, what='list')
    mon.check('pure', np.array_equal(a, keep))
    d = np.array(a, float)
    d[..., :] = np.where(rng.random(d.shape[:-1] + (1,)) < .4, 0, d)
    d = d * 10. ** rng.uniform(-100, 100, size=d.shape[:-1] + (1,))      # tiny is not zero
    r, k = linalg.normalized(d, ignore_zeros=True, return_norm=True)
    z = ~np.any(d != 0, axis=-1)
    mon.check('zeros', not np.any(r[z]) and not np.any(k[z]) and np.isfinite(r).all())
    mon.close('normalized', np.linalg.norm(r[~z], axis=-1), np.ones((~z).sum()), rtol=1e-10, what='tiny and huge among zeros')


def case_polar(mon, rng, i):
    from pycomplex.math import linalg
    n = int(rng.integers(1, 6))
    w = np.sort(rng.uniform(.3, 3, size=n))[::-1] + np.arange(n)[::-1] * .2
    s = scale_of(rng)
    sign = int(rng.choice([-1, 1]))
    U, V = orth(rng, n), orth(rng, n)
    how = rng.choice(['generic', 'singular', 'integer', 'identity'])
    M = (U * w).dot(V) * s
    if how == 'singular' and n > 1:
        w = w.copy()
        w[-1] = 0
        M = (U * w).dot(V) * s
    elif how == 'integer':
        M = rng.integers(-3, 4, size=(n, n))
    elif how == 'identity':
        M = np.eye(n) * sign
    keep = M.copy()
    mon.state(M)
    mon.note(n=n, how=str(how), scale=s)
    for demirror in (True, False):
        R = linalg.orthonormalize(M if rng.random() < .5 else M.tolist(), demirror=demirror)
        mon.close('polar', R.dot(R.T), np.eye(n), rtol=0, atol=1e-9, demirror=demirror)
        if demirror:
            mon.close('rotation', np.linalg.det(R), 1., rtol=1e-9)
        # the largest overlap that any (special) orthogonal matrix can have
        sv = np.linalg.svd(M, compute_uv=False)
        best = sv.sum()
        u, _s, v = np.linalg.svd(M)
        if demirror and np.linalg.det(u) * np.linalg.det(v) < 0:
            best -= 2 * sv[-1]
        mon.close('closest', np.sum(R * M), best, rtol=1e-9, atol=1e-9 * sv.max(), demirror=demirror)
        for _ in range(3):
            Q = orth(rng, n, 1 if demirror else None)
            mon.check('closest', bool(np.sum(Q * M) <= np.sum(R * M) + 1e-9 * sv.max() * n), demirror=demirror)
    mon.check('pure', np.array_equal(M, keep))
    m = n + int(rng.integers(1, 3))
    T = rng.normal(size=(n, m))
    R = linalg.orthonormalize(T, demirror=False)
    mon.close('polar', R.dot(R.T), np.eye(n), rtol=0, atol=1e-9, what='wide')
    mon.close('closest', np.sum(R * T), np.linalg.svd(T, compute_uv=False).sum(), rtol=1e-9, what='wide')
    R = linalg.orthonormalize(T.T, demirror=False)
    mon.close('polar', R.T.dot(R), np.eye(n), rtol=0, atol=1e-9, what='tall')


def case_power(mon, rng, i):
    from pycomplex.math import linalg
    n, b = int(rng.integers(1, 5)), batch(rng)
    kind = rng.choice(['spd', 'similar', 'rotation'])
    Ms, shape = [], b
    for _ in range(int(np.prod(b))):
        w = rng.uniform(.2, 4, size=n)
        w = np.sort(w) + np.arange(n) * .3
        if kind == 'spd':
            Q = orth(rng, n)
            Ms.append((Q * w).dot(Q.T))
        elif kind == 'similar':
            S = orth(rng, n).dot(np.diag(rng.uniform(.5, 2, size=n))).dot(orth(rng, n))
            Ms.append((S * w).dot(np.linalg.inv(S)))
        else:
            R = np.eye(n)
            if n > 1:
                t = rng.uniform(-3, 3)
                R[:2, :2] = [[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]
            Q = orth(rng, n)
            Ms.append(Q.dot(R).dot(Q.T))
    M = np.array(Ms).reshape(b + (n, n))
    keep = M.copy()
    mon.state(M)
    mon.note(kind=str(kind), batch=b, n=n)
    p, q = (rng.uniform(-2, 2, size=b), rng.uniform(-2, 2, size=b)) if rng.random() < .5 else (float(rng.uniform(-2, 2)), float(rng.uniform(-2, 2)))
    P, Q = linalg.power(M, p), linalg.power(M, q)
    mon.close('power-group', np.matmul(P, Q), linalg.power(M, np.add(p, q)), rtol=1e-7, atol=1e-7 * (1 + np.abs(P).max() * np.abs(Q).max()))
    mon.close('power-one', linalg.power(M, 1), M, rtol=1e-8, atol=1e-8)
    mon.close('power-one', linalg.power(M, 0), np.broadcast_to(np.eye(n), M.shape), rtol=1e-8, atol=1e-8)
    mon.close('power-one', np.matmul(linalg.power(M, -1), M), np.broadcast_to(np.eye(n), M.shape), rtol=1e-7, atol=1e-7)
    mon.close('power-one', linalg.power(M, 3), np.matmul(M, np.matmul(M, M)), rtol=1e-8, atol=1e-8 * (1 + np.abs(M).max() ** 3))
    k = int(rng.integers(2, 30))
    step = linalg.power(M, 1. / k)
    r = M * 0 + np.eye(n)
    for _ in range(k):
        r = np.matmul(step, r)
    mon.close('power-rotation', r, M, rtol=1e-7, atol=1e-7, roots=k)
    ps = rng.uniform(-1, 1, size=4)
    one = M.reshape(-1, n, n)[0]
    many = linalg.power(one, ps)
    mon.eq('power-group', many.shape, (4, n, n))
    for a, m in zip(ps, many):
        mon.close('power-group', m, linalg.power(one, a), rtol=1e-9, atol=1e-9, what='many powers of one matrix')
    mon.check('pure', np.array_equal(M, keep))


def case_rotation(mon, rng, i):
    from pycomplex.math import linalg
    n = int(rng.integers(2, 6))
    Q = orth(rng, n)
    u, v = Q[0], Q[1]
    R = linalg.rotation_from_plane(u, v)
    mon.state(R)
    mon.close('plane', R.dot(R.T), np.eye(n), rtol=0, atol=1e-12)
    mon.close('plane', np.linalg.det(R), 1., rtol=1e-12)
    mon.close('plane', R.dot(v), u, rtol=0, atol=1e-12)
    mon.close('plane', R.dot(u), -v, rtol=0, atol=1e-12)
    mon.close('plane', R.dot(Q[2:].T), Q[2:].T, rtol=0, atol=1e-12)
    b = batch(rng)
    t = rng.uniform(-np.pi, np.pi, size=b)
    t = np.where(rng.random(b) < .3, rng.choice([0, np.pi, -np.pi, 1e-9], size=b), t)
    c, s = np.cos(t)[..., None, None], np.sin(t)[..., None, None]
    P = np.outer(u, u) + np.outer(v, v)
    T = np.eye(n) + (c - 1) * P + s * (np.outer(v, u) - np.outer(u, v))
    a = linalg.angle_from_rotation(T)
    mon.eq('angle', np.shape(a), b)
    mon.close('angle', a, np.abs(t), rtol=0, atol=3e-7)
    mon.close('angle', linalg.angle_from_rotation(np.swapaxes(T, -1, -2)), np.abs(t), rtol=0, atol=3e-7, what='inverse')
    mon.close('angle', linalg.angle_from_rotation(R), np.pi / 2, rtol=1e-9)
    f = rng.uniform(0, 1)
    mon.close('angle', linalg.angle_from_rotation(linalg.power(R, f)), f * np.pi / 2, rtol=0, atol=1e-6, what='power')


def case_three(mon, rng, i):
    from pycomplex.math import linalg
    b = batch(rng)
    k = int(np.prod(b))
    s = scale_of(rng)
    w = rng.uniform(.3, 3, size=(k, 3)) * rng.choice([-1, 1], size=(k, 1))
    A = np.array([(orth(rng, 3) * x).dot(orth(rng, 3)) for x in w]).reshape(b + (3, 3)) * s
    keep = A.copy()
    mon.state(A)
    I = np.broadcast_to(np.eye(3), A.shape)
    d = np.linalg.det(A)[..., None, None]
    J = linalg.adjoint(A)
    mon.close('adjoint', np.matmul(A, np.swapaxes(J, -1, -2)), d * I, rtol=0, atol=1e-9 * s ** 3 * 27)
    mon.close('inverse', np.matmul(linalg.inverse(A), A), I, rtol=0, atol=1e-9)
    mon.close('inverse', np.matmul(A, linalg.inverse(A)), I, rtol=0, atol=1e-9)
    mon.close('inverse', linalg.inverse_transpose(A), np.swapaxes(linalg.inverse(A), -1, -2), rtol=1e-12)
    E = rng.integers(-5, 6, size=b + (3, 3))
    mon.close('adjoint', np.matmul(E, np.swapaxes(linalg.adjoint(E), -1, -2)), np.round(np.linalg.det(E))[..., None, None] * I, rtol=0, atol=1e-6, what='integers')
    # rank two, with a left null vector whose entries do not cancel
    r = rng.normal(size=b + (2, 3))
    c = rng.uniform(.2, 2, size=b + (2, 1))
    Z = np.concatenate([r, -(c * r).sum(axis=-2, keepdims=True)], axis=-2) * s
    v = linalg.null(Z)
    n = np.cross(r[..., 0, :], r[..., 1, :])
    mon.eq('null', v.shape, b + (3,))
    mon.close('null', np.matmul(Z, v[..., None])[..., 0], np.zeros(b + (3,)), rtol=0, atol=1e-9 * s ** 3 * 100)
    mon.close('null', np.abs(linalg.dot(v, n)), np.linalg.norm(v, axis=-1) * np.linalg.norm(n, axis=-1), rtol=1e-6, what='direction')
    mon.check('null', bool((np.linalg.norm(v, axis=-1) > .5 * s * s * np.linalg.norm(n, axis=-1)).all()), what='not zero')
    mon.check('pure', np.array_equal(A, keep))


def case_pinv(mon, rng, i):
    from pycomplex.math import linalg
    b = batch(rng)
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    s = scale_of(rng)
    k = min(n, m)
    Ms, ranks = [], []
    for _ in range(int(np.prod(b))):
        r = int(rng.integers(0, k + 1)) if rng.random() < .6 else k
        w = np.where(np.arange(k) < r, 10. ** rng.uniform(rng.choice([-3, -6]), 0, size=k), 0.)
        S = np.zeros((n, m))
        S[np.arange(k), np.arange(k)] = w
        Ms.append(orth(rng, n).dot(S).dot(orth(rng, m)) * s)
        ranks.append(r)
    A = np.array(Ms).reshape(b + (n, m))
    if rng.random() < .2:
        A = rng.integers(-3, 4, size=b + (n, m))
        s = 1.
        ranks = [int(np.linalg.matrix_rank(a)) for a in A.reshape(-1, n, m)]
    keep = A.copy()
    mon.state(A)
    mon.note(batch=b, n=n, m=m, scale=s, ranks=ranks)
    X = linalg.pinv(A)
    mon.eq('penrose', X.shape, b + (m, n))
    T = lambda M: np.swapaxes(M, -1, -2)
    AX, XA = np.matmul(A, X), np.matmul(X, A)
    mon.close('penrose', np.matmul(AX, A), A, rtol=0, atol=1e-9 * s * 10)
    big = np.abs(X).max() if X.size else 0.
    mon.close('penrose', np.matmul(XA, X), X, rtol=0, atol=1e-9 * big * 10 + 1e-300)
    mon.close('penrose', AX, T(AX), rtol=0, atol=1e-9 * 10)
    mon.close('penrose', XA, T(XA), rtol=0, atol=1e-9 * 10)
    mon.close('pinv-rank', np.trace(AX, axis1=-2, axis2=-1), np.array(ranks).reshape(b), rtol=0, atol=1e-7)
    mon.close('penrose', linalg.pinv(A.reshape((-1, n, m))[0]), X.reshape(-1, m, n)[0], rtol=1e-12, atol=1e-12 * big, what='one of a stack')
    mon.check('pure', np.array_equal(A, keep))
    # the tolerance decides what counts as zero, for each matrix of a stack by itself
    c = float(10. ** rng.uniform(-6, -1))
    w = np.where(rng.random(b + (k,)) < .5, 10. ** rng.uniform(1., 1.5), 10. ** rng.uniform(-1.5, -1)) * c
    w[..., 0] = 1
    g = 10. ** rng.uniform(-6, 6, size=b)[..., None]
    S = np.zeros(b + (n, m))
    S[..., np.arange(k), np.arange(k)] = w * g
    U, V = orth(rng, n), orth(rng, m)
    cut = np.zeros(b + (m, n))
    cut[..., np.arange(k), np.arange(k)] = np.where(w > c, 1 / w, 0) / g
    X = linalg.pinv(np.matmul(U, np.matmul(S, V)), r=c)
    want = np.matmul(V.T, np.matmul(cut, U.T))
    mon.check('cutoff', bool((np.abs(X - want).max(axis=(-2, -1)) <= 1e-8 * np.abs(want).max(axis=(-2, -1))).all()), r=c, values=w)


def case_batch(mon, rng, i):
    """matrices of a stack do not see each other"""
    from pycomplex.math import linalg as L
    m = batches.size(rng)
    n, k = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    lead = (m, 1, 1)
    s = 10. ** rng.uniform(-5, 5, lead)
    A, B, B3, v = rng.normal(size=(m, n, k)) * s, rng.normal(size=(m, k)) * s[:, 0], (rng.normal(size=(m, 3, 3)) + 4 * np.eye(3)) * s, rng.normal(size=(m, k)) * s[:, 0]
    rank = np.where(rng.random((m, 1, 1)) < .5, 1, 10. ** rng.uniform(-14, 0, lead))
    D = rng.normal(size=(m, n, k))
    D[..., 0] *= rank[..., 0]
    D *= s
    S = rng.normal(size=(m, n, n))
    S = np.einsum('tij,tkj->tik', S, S) / n + np.eye(n)
    if n > 1 and rng.random() < .5:
        a = rng.uniform(-2, 2, m)
        turn = rng.random(m) < .5
        R = np.broadcast_to(np.eye(n), (m, n, n)).copy()
        R[:, 0, 0], R[:, 1, 1], R[:, 0, 1], R[:, 1, 0] = np.cos(a), np.cos(a), -np.sin(a), np.sin(a)
        S[turn] = R[turn]
    q = rng.uniform(-2, 2, m)
    V = v * (rng.random((m, 1)) > .2)
    F = [('dot', L.dot, (A, np.ascontiguousarray(A[::-1])), 0), ('normalized', L.normalized, (v,), 0), ('ignore_zeros', lambda a: L.normalized(a, ignore_zeros=True), (V,), 0), ('norms', lambda a: L.normalized(a, return_norm=True, ignore_zeros=True)[1], (V,), 0),
         ('power', L.power, (S, q), 1e-9), ('one power', lambda a: L.power(a, .5), (S,), 1e-9), ('pinv', L.pinv, (D,), 0), ('adjoint', L.adjoint, (B3,), 0),
         ('inverse', L.inverse, (B3,), 0), ('inverse_transpose', L.inverse_transpose, (B3,), 0)]
    mon.state(A, D, S, v)
    mon.note(items=m, n=n, k=k)
    for j in rng.permutation(len(F))[:3 if m > 1000 else 5]:
        name, f, args, absolute = F[j]
        batches.alone(mon, rng, name, f, args, 1e-4 if name == 'pinv' else 1e-9, absolute)


CASES = dict(batch=case_batch, normalized=case_normalized, polar=case_polar, power=case_power, rotation=case_rotation, three=case_three, pinv=case_pinv)
PLAN = dict(quick=dict(batch=900, normalized=4000, polar=3200, power=3200, rotation=3200, three=3200, pinv=4000), thorough=dict(batch=6000, normalized=40000, polar=40000, power=40000, rotation=40000, three=40000, pinv=60000))
