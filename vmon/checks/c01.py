"""C01 chain complex: incidence, induced signs, dd = 0"""
import numpy as np
from vmon import gen, ref

PROP = 'C01'
RULE = ('random/structured simplicial and cubical complexes of dimension 1-4 (Delaunay, spheres, tori, fans, '
        'unions, subsets, grids with holes, periodic grids, cube boundaries; random vertex names, cell order, corner '
        'order and orientation); a state is one distinct cell array whose derived incidence an oracle compared with '
        'the determinant-based reference')
REQUIRED = {'induced-orientation': 20, 'dd-zero': 20, 'each-face-once': 30, 'chain-check': 20}


def observe(mon, d, T=None):
    T = T or gen.build_topology(d)
    mon.note(name=d['name'], cells=d['cells'])
    mon.state(d['kind'], d['cells'])
    ref.check_incidence(mon, T, d['kind'], d['cells'], tag='')
    return T


def k_simplicial(mon, rng, i):
    d = gen.random_simplicial(rng)
    d['kind'] = 'simplex'
    d = gen.scramble_simplicial(rng, d)
    if rng.random() < .5:
        d['cells'] = gen.random_permutations(rng, d['cells'])   # orientation is not a precondition
    common(mon, rng, observe(mon, d), d)


def k_cubical(mon, rng, i):
    d = gen.random_cubical(rng)
    d['kind'] = 'cube'
    d = gen.scramble_cubical(rng, d)
    if rng.random() < .5:
        d['cells'] = gen.random_cube_symmetries(rng, d['cells'], proper=False)
    common(mon, rng, observe(mon, d), d)


def k_high(mon, rng, i):
    """more dimensions than anyone draws"""
    d = gen.random_orientable(rng, n=5, small=True)
    if rng.random() < .5:
        d['cells'] = gen.random_permutations(rng, d['cells']) if d['kind'] == 'simplex' else gen.random_cube_symmetries(rng, d['cells'], proper=False)
    common(mon, rng, observe(mon, d), d)


def k_nonorientable(mon, rng, i):
    d = gen.nonorientable(rng)
    common(mon, rng, observe(mon, d), d)


def k_fan(mon, rng, i):
    d = dict(cells=gen.fan(int(rng.integers(120, 300))), kind='simplex', name='fan', points=None)
    if i % 2:
        d['cells'] = gen.suspension(int(rng.integers(120, 300)))
    d['cells'], _ = gen.relabel(rng, d['cells'])
    common(mon, rng, observe(mon, d), d)


def k_large(mon, rng, i):
    """more vertices than small integers count"""
    m = int(rng.integers(65700, 67000)) if i < 2 else int(rng.choice([32500, 65400])) + int(rng.integers(600))
    if i % 2:
        k = 2 * np.arange(m // 2 - 1)
        cells = np.stack([k, k + 1, k + 2, k + 3], axis=1).reshape(-1, 2, 2)
        d = dict(kind='cube', name='large')
        n = 2 * (m // 2)
    else:
        k = np.arange(m - 2)
        cells = np.stack([k, k + 1, k + 2], axis=1)
        d = dict(kind='simplex', name='large')
        n = m
    d['cells'] = ((cells + int(rng.integers(n))) % n).astype(np.int32)
    observe(mon, d)


def common(mon, rng, T, d):
    N = T.n_dim
    # relations between arbitrary pairs of dimensions the API offers
    for n in range(N + 1):
        M = T.matrix(n, n)
        mon.eq('identity-matrix', ref.dense(M), np.eye(T.n_elements[n], dtype=int))
        if n > 0:
            V = ref.dense(T.matrix(n, 0))
            want = np.zeros((T.n_elements[0], T.n_elements[n]), int)
            f = ref.flat(T.elements[n])
            want[f.ravel(), np.repeat(np.arange(len(f)), f.shape[1])] = 1
            mon.eq('vertex-matrix', V, want, n=n)
    if d['kind'] == 'simplex' and N == 2:
        # the named accessors of triangulations
        t = T.as_2()
        mon.eq('accessors', [t.n_vertices, t.n_edges, t.n_triangles], list(T.n_elements))
        for n, e in enumerate([t.vertices, t.edges, t.triangles]):
            mon.eq('accessors', ref.flat(e), ref.flat(T.elements[n]), n=n)
        mon.eq('accessors', ref.dense(t.edge_vertex), ref.dense(T.matrix(1, 0)))
    for n in range(N):
        mon.eq('indexing', ref.dense(T[n]), ref.dense(T.matrices[n]))
        mon.eq('negative-index', ref.dense(T.matrix(n - N)), ref.dense(T.matrices[n]))
        mon.eq('corners', np.asarray(T.corners[n]), ref.flat(T.elements[n]))
    # check_chain accepts a chain complex
    with mon.calling('chain-check'):
        T.check_chain()
    # .. and rejects one in which a sign is broken
    if N >= 2:
        n = int(rng.integers(1, N))             # a matrix with a preceding one
        B = [np.asarray(T.incidence[m + 1, m]) for m in range(N)]
        O = []
        for m, b in enumerate(B):
            f = ref.flat(b)
            o = ref.dense(T.matrices[m])[f, np.arange(len(f))[:, None]]
            O.append(o.reshape(b.shape).astype(np.int8))
        same = type(T)(elements=T.elements, boundary=B, orientation=O)
        for m in range(N):
            mon.eq('constructor', ref.dense(same.matrices[m]), ref.dense(T.matrices[m]), n=m)
        k = tuple(int(rng.integers(s)) for s in O[n].shape)
        O[n][k] *= -1
        bad = type(T)(elements=T.elements, boundary=B, orientation=O)
        mon.raises('chain-check-rejects', ValueError, bad.check_chain, n=n, n_dim=N)


CASES = dict(simplicial=k_simplicial, cubical=k_cubical, nonorientable=k_nonorientable, high=k_high, fan=k_fan, large=k_large)
PLAN = dict(quick=dict(simplicial=720, cubical=720, nonorientable=240, high=40, fan=4, large=2),
            thorough=dict(high=200, simplicial=1500, cubical=1500, nonorientable=300, fan=40, large=12))
