"""C24 cubical multigrid transfers"""
import itertools
import numpy as np
from vmon import gen, geo, many

PROP = 'C24'
RULE = ('grids of dimension 1-3 in any numbering, orientation (in up to two dimensions), position and affine shape, and curved or closed quad surfaces, over one or two levels; the row-normalised transfers are applied to linear and '
        'constant forms and compared with the forms integrated on the fine level, and their pattern with the closures of the coarse cells; a state is one pair of levels')
REQUIRED = {'copies': 10, 'shape': 60, 'linear': 60, 'constant': 60, 'coincidence': 60, 'corners': 60, 'local': 60, 'repeat': 20}


def normalized(T):
    T = T.toarray()
    return T / np.abs(T).sum(axis=1, keepdims=True)


def constant_form(rng, k, n, x, M, E, A):
    """integral over the k-elements of a constant k-form given by the row vectors A; for k = 0 a linear function"""
    if k == 0:
        return x.dot(A[0]) + A[0, 0]
    if k == n and n > 2:
        return None
    one = M[0].T.dot(x.dot(A[0]))
    if k == 1:
        return one
    mid = x[E[1]].mean(1).dot(A[1])
    return M[1].T.dot(mid * one)


def observe(mon, rng, coarse, fine, grid):
    n = coarse.topology.n_dim
    T = fine.multigrid_transfers
    Ec = [np.asarray(e).reshape(len(e), -1) for e in coarse.topology.elements]
    Ef = [np.asarray(e).reshape(len(e), -1) for e in fine.topology.elements]
    if not mon.check('shape', len(T) == n + 1 and all(t.shape == (len(b), len(a)) for t, a, b in zip(T, Ec, Ef)), shapes=[t.shape for t in T]):
        return
    x, y = np.asarray(coarse.vertices), np.asarray(fine.vertices)
    Mc, Mf = coarse.topology.matrices, fine.topology.matrices
    # fine vertices are listed by the coarse element they sit on
    owner = [frozenset(map(int, e)) for E in Ec for e in E]
    mon.check('shape', len(owner) == len(y))
    cells = [frozenset(map(int, c)) for c in Ec[-1]]
    N = [normalized(t) for t in T]
    # vertices: the average of the corners of the coarse element
    want = np.zeros((len(y), len(x)))
    for f, o in enumerate(owner):
        want[f, list(o)] = 1 / len(o)
    mon.close('corners', N[0], want, rtol=0, atol=1e-9)
    mon.close('corners', N[0].dot(x), y, rtol=1e-9, atol=1e-12 * np.abs(x).max(), what='positions')
    # cells: the one they are part of
    largest = [max((owner[v] for v in f), key=len) for f in Ef[-1]]
    want = np.zeros(T[-1].shape)
    names = {c: i for i, c in enumerate(cells)}
    if len(names) == len(cells):
        for f, c in enumerate(largest):
            want[f, names[c]] = 1
        mon.close('coincidence', T[-1].toarray(), want, rtol=0, atol=1e-12)
    # elements in between draw from the coarse cells around them only
    for k in range(n + 1):
        for f in range(len(Ef[k])):
            big = max((owner[v] for v in Ef[k][f]), key=len)
            star = set().union(*[c for c in cells if big <= c]) if len(big) < 2 ** n else set(big)
            far = [c for c in np.flatnonzero(np.abs(N[k][f]) > 1e-9) if not set(Ec[k][c].tolist()) <= star]
            if far:
                mon.fail('local', k=k, fine=f, coarse=far)
                break
        else:
            mon.check('local', True)
    # own children take the value of their parent
    for k in range(n + 1):
        lookup = {frozenset(map(int, e)): i for i, e in enumerate(Ec[k])}
        if len(lookup) < len(Ec[k]):
            continue
        want, rows = np.zeros(N[k].shape), []
        for f in range(len(Ef[k])):
            big = max((owner[v] for v in Ef[k][f]), key=len)
            if len(big) == 2 ** k and big in lookup:
                want[f, lookup[big]] = 1
                rows.append(f)
        mon.close('coincidence', N[k][rows], want[rows], rtol=0, atol=1e-9, k=k)
    if grid:
        A = rng.normal(size=(2, x.shape[1]))
        for k in range(n + 1):
            a, b = constant_form(rng, k, n, x, Mc, Ec, A), constant_form(rng, k, n, y, Mf, Ef, A)
            if a is None:
                a, b = np.ones(len(Ec[k])), np.ones(len(Ef[k])) / 2 ** k
            mon.close('linear' if k == 0 else 'constant', N[k].dot(a), b * 2 ** k, rtol=1e-8, atol=1e-10 * np.abs(A).max() * np.ptp(x, axis=0).max() ** k, k=k)
    if len(y) < 60:
        again = coarse.subdivide_cubical().multigrid_transfers
        for k in range(n + 1):
            mon.close('repeat', normalized(again[k]), N[k], rtol=0, atol=1e-5, k=k)


def draw_grid(rng):
    n = int(rng.choice([1, 2, 3], p=[.2, .5, .3]))
    shape = tuple(int(s) for s in rng.integers(1, {1: 7, 2: 5, 3: 3}[n], size=n))
    cells = gen.cube_grid(shape)
    cells = cells[0] if isinstance(cells, tuple) else cells
    x = gen.cube_grid_points(shape)
    if n < 3:
        cells, perm = gen.relabel(rng, cells)
        y = np.empty_like(x)
        y[perm] = x
        x = y
        cells = gen.random_cube_symmetries(rng, cells)
        cells = cells[rng.permutation(len(cells))]
    d = n + int(rng.integers(0, 2))
    x = x.dot(rng.normal(size=(n, d)) + 2 * np.eye(n, d)) * np.exp(rng.normal()) + rng.normal(size=d)
    return np.ascontiguousarray(cells), x, shape


def case_grid(mon, rng, i):
    from pycomplex.complex.cubical import ComplexCubical
    from pycomplex.topology.cubical import TopologyCubical
    cells, x, shape = draw_grid(rng)
    c = ComplexCubical(vertices=x.copy(), topology=TopologyCubical.from_cubes(cells.copy()))
    mon.state(cells, x)
    mon.note(shape=shape)
    for level in range(2 if len(cells) * 2 ** len(shape) <= 16 and rng.random() < .5 else 1):
        f = c.subdivide_cubical()
        observe(mon, rng, c, f, True)
        c = f


def case_surface(mon, rng, i):
    from pycomplex.complex.cubical import ComplexCubical
    from pycomplex.topology.cubical import TopologyCubical
    how = rng.choice(['cube', 'strip', 'random'])
    if how == 'cube':
        cells = gen.cube_boundary_cells(3)
        cells = cells.reshape(-1, 2, 2)
    elif how == 'strip':
        kind = rng.choice(['torus', 'cylinder'])
        try:
            cells = gen.quad_surface(kind, int(rng.integers(3, 5)), int(rng.integers(3, 5)))[0]
        except Exception:
            cells = gen.quad_surface('torus', 4, 4)[0]
    else:
        cells = gen.random_cubical(rng, 2, small=True)['cells']
    cells = np.array(cells).reshape(-1, 2, 2)
    if len(cells) > 40 or len({tuple(sorted(c.ravel().tolist())) for c in cells}) < len(cells) or any(len(set(c.ravel().tolist())) < 4 for c in cells):
        mon.skip('cells share all their corners')
        return
    cells, perm = gen.relabel(rng, cells)
    cells = gen.random_cube_symmetries(rng, cells)
    x = rng.normal(size=(int(cells.max()) + 1, 3))
    c = ComplexCubical(vertices=x.copy(), topology=TopologyCubical.from_cubes(np.ascontiguousarray(cells)))
    mon.state(cells, x)
    mon.note(how=how, cells=len(cells))
    observe(mon, rng, c, c.subdivide_cubical(), False)

def k_copies(mon, rng, i):
    T = 66000 if i < 1 else int(rng.choice([300, 1500]))
    many.transfers(mon, rng, T)


CASES = dict(grid=case_grid, surface=case_surface, copies=k_copies)
PLAN = dict(quick=dict(grid=720, surface=288, copies=12), thorough=dict(grid=1200, surface=300, copies=180))
