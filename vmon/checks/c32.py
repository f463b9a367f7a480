"""C32 iterative solvers"""
import warnings
import numpy as np

PROP = 'C32'
RULE = ('symmetric definite, semi-definite and (for minres) indefinite systems of 1 to 40 unknowns with prescribed spectra over 24 decades of scale, right hand sides in their range (zero, single eigenvectors, random, tiny and huge), '
        'zero, exact, near and random starts, with and without a projection that removes the null space, as vectors and as arrays; diffusion on chains, rings and grids of up to 1500 unknowns that take hundreds of iterations, shifted systems, and systems with two eigenvalues up to seven decades apart; a state is one system with its right hand side')
REQUIRED = {'residual': 150, 'solution': 60, 'zero': 20, 'exact-start': 60, 'constraint': 40, 'pure': 100, 'minres': 100, 'minres-zero': 30, 'long': 60, 'shift': 100, 'ratio': 100, 'shape': 60, 'quiet': 60}


def spectrum(rng, n, cond, null, indefinite=False):
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    k = rng.choice(['spread', 'clusters', 'one'])
    w = cond ** rng.random(n) if k == 'spread' else (rng.choice([1., cond], size=n) if k == 'clusters' else np.ones(n))
    if indefinite:
        w = w * rng.choice([-1, 1], size=n)
    w[:null] = 0
    return Q, w


def case_cg(mon, rng, i):
    from pycomplex.solvers import solve_cg
    n = int(rng.integers(1, 41))
    null = int(rng.integers(0, min(3, n))) if rng.random() < .5 else 0
    cond = float(10. ** rng.uniform(0, 2.5))
    Q, w = spectrum(rng, n, cond, null)
    s, t = 10. ** rng.uniform(-6, 6), 10. ** rng.uniform(-6, 6)
    A = (Q * (w * s)).dot(Q.T)
    N = Q[:, :null]
    xs = Q[:, null:].dot(rng.normal(size=n - null))
    how = rng.choice(['random', 'eigen', 'zero'], p=[.7, .2, .1])
    if how == 'eigen':
        xs = Q[:, int(rng.integers(null, n))] * 1.
    xs = xs * (t if how != 'zero' else 0)
    shape = (n,)
    if n % 2 == 0 and rng.random() < .3:
        shape = (n // 2, 2)
    b = A.dot(xs)
    if null:
        b = b - N.dot(N.T.dot(b))
    b = b.reshape(shape)
    calls = []

    def op(x):
        calls.append(x.shape)
        return A.dot(x.ravel()).reshape(shape)

    def project(x):
        v = x.ravel()
        x -= N.dot(N.T.dot(v)).reshape(shape)
    deflate = project if null or rng.random() < .3 else (lambda x: None)
    start = rng.choice(['none', 'zero', 'exact', 'random', 'near'])
    x0 = {'none': None, 'zero': np.zeros(shape), 'exact': xs.reshape(shape).copy(), 'random': rng.normal(size=shape) * t, 'near': (xs * (1 + 1e-3)).reshape(shape)}[str(start)]
    keep, kb = None if x0 is None else x0.copy(), b.copy()
    mon.state(n, null, cond, s, t, str(start), xs)
    mon.note(n=n, null=null, cond=cond, scale=s, size=t, start=str(start), rhs=str(how), shape=shape)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        x = solve_cg(deflate, op, b) if x0 is None else solve_cg(deflate, op, b, x0)
    mon.check('quiet', not [v for v in seen if issubclass(v.category, RuntimeWarning)], warnings=[str(v.message) for v in seen])
    mon.check('shape', np.shape(x) == shape and all(c == shape for c in calls), got=np.shape(x), want=shape)
    mon.check('pure', np.array_equal(b, kb) and (x0 is None or np.array_equal(x0, keep)))
    res = np.linalg.norm(A.dot(x.ravel()) - b.ravel())
    first = np.linalg.norm(A.dot((np.zeros(n) if x0 is None else x0.ravel() - N.dot(N.T.dot(x0.ravel())))) - b.ravel())
    size = np.linalg.norm(b) + np.abs(w).max() * s * (0 if x0 is None else np.linalg.norm(x0))
    mon.check('residual', bool(res <= 1e-3 * first + 1e-9 * size), residual=res, before=first, size=size)
    mon.check('solution', bool(np.linalg.norm(x.ravel() - N.dot(N.T.dot(x.ravel())) - xs) <= (1e-3 * first + 1e-9 * size) / (s * w[null:].min()) + 1e-12 * np.linalg.norm(x)), what='error')
    if null:
        mon.check('constraint', bool(np.abs(N.T.dot(x.ravel())).max() <= 1e-9 * (np.linalg.norm(x) + (0 if x0 is None else np.linalg.norm(x0))) + 1e-300))
    if how == 'zero' and x0 is None:
        mon.check('zero', not np.any(x))
    if start == 'exact':
        mon.check('exact-start', bool(np.linalg.norm(x.ravel() - xs) <= 1e-6 * np.linalg.norm(xs)), error=np.linalg.norm(x.ravel() - xs), size=np.linalg.norm(xs))


def case_minres(mon, rng, i):
    from pycomplex.solvers import solve_minres
    n = int(rng.integers(1, 21))
    null = int(rng.integers(0, min(3, n))) if rng.random() < .4 else 0
    cond = float(10. ** rng.uniform(0, 1.5))
    Q, w = spectrum(rng, n, cond, null, rng.random() < .5)
    s, t = 10. ** rng.uniform(-.5, .5), 10. ** rng.uniform(-.5, .5)   # the stopping rules compare quantities of different scale
    A = (Q * (w * s)).dot(Q.T)
    A = (A + A.T) / 2
    xs = Q[:, null:].dot(rng.normal(size=n - null)) * t
    b = A.dot(xs)
    kb, kA = b.copy(), A.copy()
    tol = float(rng.choice([1e-5, 1e-7, 1e-9]))
    mon.state(n, null, cond, s, t, xs)
    mon.note(n=n, null=null, cond=cond, scale=s, size=t, tol=tol)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        x = solve_minres(A, b, tol=tol) if rng.random() < .5 else solve_minres(A, b, x0=np.zeros(n), tol=tol)
    mon.check('quiet', not [v for v in seen if issubclass(v.category, RuntimeWarning)], warnings=[str(v.message) for v in seen])
    mon.eq('shape', np.shape(x), (n,))
    mon.check('pure', np.array_equal(b, kb) and np.array_equal(A, kA))
    L = np.linalg.norm(A) * np.linalg.norm(xs)
    res = np.linalg.norm(A.dot(x) - b)
    mon.check('minres', bool(res <= 20 * tol * L + 1e-12 * L), residual=res, size=L, tol=tol)
    z = solve_minres(A, b * 0)
    mon.check('minres-zero', z.shape == (n,) and not np.any(z), got=z)


def case_long(mon, rng, i):
    """systems that take conjugate gradients hundreds of iterations: diffusion on long chains and grids"""
    from pycomplex.solvers import solve_cg
    import scipy.sparse as sp
    kind = rng.choice(['chain', 'ring', 'grid'])
    n = int(rng.integers(60, 500))
    D = sp.diags([-np.ones(n), np.ones(n - 1)], [0, 1], shape=(n, n)).tolil()
    if kind == 'ring':
        D[n - 1, 0] = 1
    D = D.tocsr()
    A = (D.T * D).tocsr()
    if kind == 'grid':
        m = int(rng.integers(12, 40))
        k = n = m * m
        d = sp.diags([-np.ones(m), np.ones(m - 1)], [0, 1], shape=(m, m)).tocsr()
        a, I = d.T * d, sp.identity(m)
        A = (sp.kron(a, I) + sp.kron(I, a)).tocsr()
    elif rng.random() < .4:
        k = 10. ** rng.uniform(-1, 1, size=n)
        A = (D.T * sp.diags(k) * D).tocsr()
    s = 10. ** rng.uniform(-3, 3)
    A = A * s
    null = kind == 'ring'
    xs = rng.normal(size=n)
    if rng.random() < .5:       # a smooth solution
        xs = np.cumsum(xs)
    if null:
        xs = xs - xs.mean()
    b = A * xs
    if rng.random() < .3:       # a point source
        b = np.zeros(n)
        b[int(rng.integers(n))] += 1
        if null:
            b = b - b.mean()
        xs = np.linalg.lstsq(A.toarray(), b, rcond=None)[0]
    calls = [0]

    def op(x):
        calls[0] += 1
        return A * x

    def project(x):
        x -= x.mean()
    x0 = None if rng.random() < .5 else rng.normal(size=n)
    if null and x0 is not None:
        x0 = x0 - x0.mean()
    mon.state('long', str(kind), n, s, xs[:20])
    mon.note(kind=str(kind), n=n, scale=s, start=x0 is not None)
    x = solve_cg(project if null else (lambda x: None), op, b) if x0 is None else solve_cg(project if null else (lambda x: None), op, b, x0)
    mon.check('iterations', 1 <= calls[0] <= 3100)
    mon.state('calls', calls[0])
    first = np.linalg.norm(b if x0 is None else A * x0 - b)
    res = np.linalg.norm(A * x - b)
    mon.check('long', bool(res <= 3e-4 * first), residual=res, before=first, calls=calls[0])
    if null:
        mon.check('constraint', bool(abs(x.mean()) <= 1e-9 * np.abs(x).max()))


def case_shift(mon, rng, i):
    """minres on (A - shift), on few distinct eigenvalues of very different size, and on stacks solved one by one"""
    from pycomplex.solvers import solve_minres
    n = int(rng.integers(1, 21))
    Q, w = spectrum(rng, n, float(10. ** rng.uniform(0, 1.2)), 0, rng.random() < .5)
    shift = float(rng.choice([-1, 1])) * rng.uniform(.1, 5)
    shift = shift if np.abs(w - shift).min() > .1 else float(np.abs(w).max()) + 1.
    A = (Q * w).dot(Q.T)
    A = (A + A.T) / 2
    xs = rng.normal(size=n)
    b = A.dot(xs) - shift * xs
    tol = float(rng.choice([1e-5, 1e-7, 1e-9]))
    mon.state('shift', n, shift, xs)
    mon.note(n=n, shift=shift, tol=tol)
    x = solve_minres(A, b, shift=shift, tol=tol)
    L = (np.linalg.norm(A) + abs(shift) * np.sqrt(n)) * np.linalg.norm(xs)
    res = np.linalg.norm(A.dot(x) - shift * x - b)
    mon.check('shift', bool(res <= 20 * tol * L + 1e-12 * L), residual=res, size=L, tol=tol)
    mon.close('shift', solve_minres(A - shift * np.eye(n), b, tol=tol), x, rtol=0, atol=1e-6 * np.linalg.norm(xs) + 40 * tol * L / np.abs(w - shift).min(), what='the same system without a shift')
    # two or three distinct eigenvalues take as many steps, whatever their ratio
    ratio = float(10. ** rng.uniform(2, 6.5))
    w = rng.choice([1., ratio], size=n)
    A = (Q * w).dot(Q.T)
    A = (A + A.T) / 2
    xs = Q.dot(rng.choice([-1., 1.], size=n) / w)       # both parts of the right hand side are of the same size
    b = A.dot(xs)
    x = solve_minres(A, b, tol=1e-12)
    res = np.linalg.norm(A.dot(x) - b)
    mon.check('ratio', bool(res <= 1e-4 * np.linalg.norm(b)), residual=res, rhs=np.linalg.norm(b), ratio=ratio)


CASES = dict(cg=case_cg, minres=case_minres, long=case_long, shift=case_shift)
PLAN = dict(quick=dict(cg=4000, minres=2500, long=150, shift=1000), thorough=dict(cg=100000, minres=80000, long=4000, shift=30000))
